// Package factory is a stand-in for github.com/skycoin/net/factory (not available offline): message connections over TCP
// or a datagram-style transport. The transport itself is in transport_sim.go (simulated network, build tag sim) or
// transport_real.go (loopback TCP).
package factory

import (
	"errors"
	"net"
	"sync"
)

// ErrClosed is returned by a closed factory.
var ErrClosed = errors.New("factory closed")

// wire is one transport connection.
type wire interface {
	Send(b []byte) error
	Recv() (b []byte, ok bool)
	Close()
	Remote() net.Addr
	Local() net.Addr
}

// wireListener accepts transport connections.
type wireListener interface {
	Accept() (wire, error)
	Close()
}

// Connection of a factory.
type Connection struct {
	w   wire
	tcp bool
	in  chan []byte
	out chan []byte

	mx     sync.Mutex
	closed bool
	done   chan struct{}
	f      *base
}

// GetChanIn returns the channel of received messages; it is closed with the connection.
func (c *Connection) GetChanIn() <-chan []byte { return c.in }

// GetChanOut returns the channel of messages to send; what is still in there when the connection closes, or is put there later, is dropped.
func (c *Connection) GetChanOut() chan<- []byte { return c.out }

// GetRemoteAddr of the peer.
func (c *Connection) GetRemoteAddr() net.Addr { return c.w.Remote() }

// IsTCP connection.
func (c *Connection) IsTCP() bool { return c.tcp }

// IsUDP connection.
func (c *Connection) IsUDP() bool { return !c.tcp }

// IsClosed connection.
func (c *Connection) IsClosed() bool {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.closed
}

// Close the connection.
func (c *Connection) Close() {
	c.mx.Lock()
	if c.closed {
		c.mx.Unlock()
		return
	}
	c.closed = true
	c.mx.Unlock()
	close(c.done)
	c.f.del(c)
	c.w.Close()
}

func (c *Connection) readLoop() {
	defer close(c.in)
	for {
		b, ok := c.w.Recv()
		if !ok {
			c.Close()
			return
		}
		select {
		case c.in <- b:
		case <-c.done:
			return
		}
	}
}

func (c *Connection) writeLoop() {
	defer discard(c)
	for {
		select {
		case b := <-c.out:
			if err := c.w.Send(b); err != nil {
				c.Close()
				return
			}
		case <-c.done:
			return
		}
	}
}

type base struct {
	mx     sync.Mutex
	l      wireListener
	cs     map[*Connection]struct{}
	closed bool
	tcp    bool
	accept func(*Connection)
}

func (f *base) init(tcp bool) { f.tcp = tcp; f.cs = map[*Connection]struct{}{} }

func (f *base) del(c *Connection) {
	f.mx.Lock()
	defer f.mx.Unlock()
	delete(f.cs, c)
}

func (f *base) add(w wire) (*Connection, error) {
	in, out := capacities()
	c := &Connection{w: w, tcp: f.tcp, in: make(chan []byte, in), out: make(chan []byte, out), done: make(chan struct{}), f: f}
	f.mx.Lock()
	if f.closed {
		f.mx.Unlock()
		w.Close()
		return nil, ErrClosed
	}
	f.cs[c] = struct{}{}
	f.mx.Unlock()
	go c.readLoop()
	go c.writeLoop()
	return c, nil
}

func (f *base) listen(address string) error {
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.closed {
		return ErrClosed
	}
	l, err := listenWire(address, f.tcp)
	if err != nil {
		return err
	}
	f.l = l
	go f.acceptLoop(l)
	return nil
}

func (f *base) acceptLoop(l wireListener) {
	for {
		w, err := l.Accept()
		if err != nil {
			return
		}
		c, err := f.add(w)
		if err != nil {
			return
		}
		if f.accept != nil {
			go f.accept(c)
		}
	}
}

func (f *base) connect(address string) (*Connection, error) {
	f.mx.Lock()
	if f.closed {
		f.mx.Unlock()
		return nil, ErrClosed
	}
	f.mx.Unlock()
	w, err := dialWire(address, f.tcp)
	if err != nil {
		return nil, err
	}
	return f.add(w)
}

func (f *base) close() error {
	f.mx.Lock()
	if f.closed {
		f.mx.Unlock()
		return nil
	}
	f.closed = true
	l := f.l
	f.mx.Unlock()
	if l != nil {
		l.Close()
	}
	for {
		f.mx.Lock()
		var c *Connection
		for x := range f.cs {
			c = x
			break
		}
		f.mx.Unlock()
		if c == nil {
			return nil
		}
		c.Close()
	}
}

// TCPFactory makes TCP connections.
type TCPFactory struct {
	base
	// AcceptedCallback is called in its own goroutine for every accepted connection.
	AcceptedCallback func(connection *Connection)
}

// NewTCPFactory creates a factory.
func NewTCPFactory() *TCPFactory {
	f := &TCPFactory{}
	f.init(true)
	f.accept = func(c *Connection) {
		if f.AcceptedCallback != nil {
			f.AcceptedCallback(c)
		}
	}
	return f
}

// Listen on address.
func (f *TCPFactory) Listen(address string) error { return f.listen(address) }

// Connect to address.
func (f *TCPFactory) Connect(address string) (*Connection, error) { return f.connect(address) }

// Close listener and connections.
func (f *TCPFactory) Close() error { return f.close() }

// UDPFactory makes datagram connections.
type UDPFactory struct {
	base
	// AcceptedCallback is called in its own goroutine for every accepted connection.
	AcceptedCallback func(connection *Connection)
}

// NewUDPFactory creates a factory.
func NewUDPFactory() *UDPFactory {
	f := &UDPFactory{}
	f.init(false)
	f.accept = func(c *Connection) {
		if f.AcceptedCallback != nil {
			f.AcceptedCallback(c)
		}
	}
	return f
}

// Listen on address.
func (f *UDPFactory) Listen(address string) error { return f.listen(address) }

// Connect to address.
func (f *UDPFactory) Connect(address string) (*Connection, error) { return f.connect(address) }

// Close listener and connections.
func (f *UDPFactory) Close() error { return f.close() }
