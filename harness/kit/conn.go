// Package kit drives the real soju server inside a testing/synctest bubble.
package kit

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// MemConn is the bouncer-side end of an in-memory duplex byte stream. The
// other end is driven directly by the harness (Feed, Hangup, Output). All
// blocking uses sync.Cond, which is durably blocking in a synctest bubble.
type MemConn struct {
	mu            sync.Mutex
	cond          *sync.Cond
	in            []byte // bytes the bouncer will read
	out           []byte // bytes the bouncer wrote
	eof           bool   // harness hung up: reads return EOF once drained
	readErr       error
	closed        bool // bouncer closed
	stalled       bool // writes block
	writeErr      error
	stamps        []time.Time // times of the writes
	rdl, wdl      time.Time
	laddr, raddr  net.Addr
	rtimer, wtime *time.Timer
}

func NewMemConn(laddr, raddr net.Addr) *MemConn {
	c := &MemConn{laddr: laddr, raddr: raddr}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *MemConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(c.in) > 0 {
			n := copy(b, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.readErr != nil {
			return 0, c.readErr
		}
		if c.eof {
			return 0, io.EOF
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		c.cond.Wait()
	}
}

func (c *MemConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.writeErr != nil {
			return 0, c.writeErr
		}
		if !c.stalled {
			if c.eof {
				return 0, io.ErrClosedPipe
			}
			c.out = append(c.out, b...)
			c.stamps = append(c.stamps, time.Now())
			return len(b), nil
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
		c.cond.Wait()
	}
}

func (c *MemConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.cond.Broadcast()
	return nil
}

func (c *MemConn) LocalAddr() net.Addr  { return c.laddr }
func (c *MemConn) RemoteAddr() net.Addr { return c.raddr }

func (c *MemConn) setDeadline(dl *time.Time, tm **time.Timer, t time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	*dl = t
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	if !t.IsZero() {
		// No timer is needed unless someone can block on it.
		if dl == &c.rdl || c.stalled {
			*tm = time.AfterFunc(time.Until(t), func() {
				c.mu.Lock()
				c.cond.Broadcast()
				c.mu.Unlock()
			})
		}
	}
	c.cond.Broadcast()
}

func (c *MemConn) SetReadDeadline(t time.Time) error {
	c.setDeadline(&c.rdl, &c.rtimer, t)
	return nil
}

func (c *MemConn) SetWriteDeadline(t time.Time) error {
	c.setDeadline(&c.wdl, &c.wtime, t)
	return nil
}

func (c *MemConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// Feed makes bytes available to the bouncer.
func (c *MemConn) Feed(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed || c.eof {
		return
	}
	c.in = append(c.in, s...)
	c.cond.Broadcast()
}

// Hangup closes the harness side.
func (c *MemConn) Hangup() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = true
	c.cond.Broadcast()
}

// FailReads makes reads fail with an error after pending input.
func (c *MemConn) FailReads(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.readErr = err
	c.cond.Broadcast()
}

// FailWrites makes every later write fail.
func (c *MemConn) FailWrites(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writeErr = err
	c.cond.Broadcast()
}

// Stall makes writes block (a peer which does not read) or resume.
func (c *MemConn) Stall(v bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stalled = v
	c.cond.Broadcast()
}

// Stamps returns the times of all writes.
func (c *MemConn) Stamps() []time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]time.Time(nil), c.stamps...)
}

// Output returns and clears what the bouncer wrote.
func (c *MemConn) Output() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	b := c.out
	c.out = nil
	return b
}

// Closed reports whether the bouncer closed its end.
func (c *MemConn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *MemConn) hungUp() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.eof
}

// MemListener is an in-memory net.Listener.
type MemListener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []net.Conn
	closed bool
}

func NewMemListener() *MemListener {
	l := &MemListener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *MemListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		if l.closed {
			return nil, net.ErrClosed
		}
		l.cond.Wait()
	}
}

func (l *MemListener) Push(c net.Conn) {
	l.mu.Lock()
	l.q = append(l.q, c)
	l.cond.Broadcast()
	l.mu.Unlock()
}

func (l *MemListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed = true
	l.cond.Broadcast()
	return nil
}

func (l *MemListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6667} }
