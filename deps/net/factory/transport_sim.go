//go:build sim

package factory

import (
	"net"

	"simrt"
	"simrt/simnet"
)

// InCap and OutCap are the channel capacities of the run (set by the harness).
var InCap, OutCap = 128, 1

func capacities() (int, int) { return InCap, OutCap }

type saddr struct{ n, s string }

func (a saddr) Network() string { return a.n }
func (a saddr) String() string  { return a.s }

type swire struct {
	c *simnet.Conn
	n string
}

func (w *swire) Send(b []byte) error       { return w.c.SendWait(b) }
func (w *swire) Recv() (b []byte, ok bool) { return w.c.Recv() }
func (w *swire) Close()                    { w.c.Close() }
func (w *swire) Remote() net.Addr          { return saddr{w.n, w.c.RemoteAddr()} }
func (w *swire) Local() net.Addr           { return saddr{w.n, w.c.LocalAddr()} }

type slistener struct {
	l *simnet.Listener
	n string
}

func (l *slistener) Accept() (wire, error) {
	c, err := l.l.Accept()
	if err != nil {
		return nil, err
	}
	return &swire{c, l.n}, nil
}
func (l *slistener) Close() { l.l.Close() }

func netName(tcp bool) string {
	if tcp {
		return "tcp"
	}
	return "udp"
}

func listenWire(address string, tcp bool) (wireListener, error) {
	l, err := simnet.Listen(address, !tcp)
	if err != nil {
		return nil, err
	}
	return &slistener{l, netName(tcp)}, nil
}

func dialWire(address string, tcp bool) (wire, error) {
	c, err := simnet.Dial(address, !tcp)
	if err != nil {
		return nil, err
	}
	return &swire{c, netName(tcp)}, nil
}

func discard(c *Connection) { simrt.Discard(c.out) }
