//go:build !sim

package factory

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"strconv"
	"sync"
)

func capacities() (int, int) { return 128, 1 }

// datagram-style connections go over abstract unix sockets, so that they don't share ports with TCP
type uaddr string

func (uaddr) Network() string  { return "udp" }
func (a uaddr) String() string { return string(a) }

type rwire struct {
	c   net.Conn
	udp string
	r   *bufio.Reader
	wmx sync.Mutex
}

func (w *rwire) Send(b []byte) error {
	w.wmx.Lock()
	defer w.wmx.Unlock()
	h := binary.LittleEndian.AppendUint32(nil, uint32(len(b)))
	_, err := w.c.Write(append(h, b...))
	return err
}

func (w *rwire) Recv() ([]byte, bool) {
	var h [4]byte
	if _, err := io.ReadFull(w.r, h[:]); err != nil {
		return nil, false
	}
	b := make([]byte, binary.LittleEndian.Uint32(h[:]))
	if _, err := io.ReadFull(w.r, b); err != nil {
		return nil, false
	}
	return b, true
}
func (w *rwire) Close()           { w.c.Close() }
func (w *rwire) Remote() net.Addr {
	if w.udp != "" {
		return uaddr(w.udp)
	}
	return w.c.RemoteAddr()
}
func (w *rwire) Local() net.Addr { return w.c.LocalAddr() }

type rlistener struct {
	l   net.Listener
	udp bool
	n   int
}

func (l *rlistener) Accept() (wire, error) {
	c, err := l.l.Accept()
	if err != nil {
		return nil, err
	}
	w := &rwire{c: c, r: bufio.NewReader(c)}
	if l.udp {
		l.n++
		w.udp = "127.0.0.1:" + strconv.Itoa(50000+l.n%10000)
	}
	return w, nil
}
func (l *rlistener) Close() { l.l.Close() }

func listenWire(address string, tcp bool) (wireListener, error) {
	if !tcp {
		l, err := net.Listen("unix", "@cxo-udp-"+address)
		if err != nil {
			return nil, err
		}
		return &rlistener{l: l, udp: true}, nil
	}
	l, err := net.Listen("tcp", address)
	if err != nil {
		return nil, err
	}
	return &rlistener{l: l}, nil
}

func dialWire(address string, tcp bool) (wire, error) {
	if !tcp {
		c, err := net.Dial("unix", "@cxo-udp-"+address)
		if err != nil {
			return nil, err
		}
		return &rwire{c: c, r: bufio.NewReader(c), udp: address}, nil
	}
	c, err := net.Dial("tcp", address)
	if err != nil {
		return nil, err
	}
	return &rwire{c: c, r: bufio.NewReader(c)}, nil
}

func discard(c *Connection) {
	go func() {
		for range c.out {
		}
	}()
}
