//go:build go1.25

package sim

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Wire is a byte stream between two ends, as TCP gives it: in order, each
// direction buffering so much and no more, with deadlines; one end may stop
// reading, either may go away, and bytes can be changed on the way.

type half struct {
	mu     sync.Mutex
	buf    []byte
	cap    int
	closed bool // by the writer: what is buffered can still be read
	broken bool // by the reader: writing fails
	wake   chan struct{}
	// Mangle sees what is written before it is buffered.
	mangle func([]byte) []byte
	bytes  int
}

func (h *half) changed() {
	close(h.wake)
	h.wake = make(chan struct{})
}

type wireEnd struct {
	name    string
	in, out *half
	rd, wd  *deadline
}

type deadline struct {
	mu sync.Mutex
	t  *time.Timer
	ch chan struct{}
	// a timer may end ch
	armed bool
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.t != nil {
		d.t.Stop()
		d.t = nil
	}
	select {
	case <-d.ch:
		d.ch = make(chan struct{})
	default:
	}
	if d.armed { // a timer that fired late must not end the new deadline
		d.armed = false
		close(d.ch) // whoever waits looks again
		d.ch = make(chan struct{})
	}
	if t.IsZero() {
		return
	}
	ch := d.ch
	left := time.Until(t)
	if left <= 0 {
		close(ch)
		return
	}
	d.armed = true
	d.t = time.AfterFunc(left, func() {
		d.mu.Lock()
		defer d.mu.Unlock()
		if d.ch == ch { // not set anew meanwhile
			select {
			case <-ch:
			default:
				close(ch)
			}
		}
	})
}

func (d *deadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ch
}

func newWire(a, b string, capacity int) (*wireEnd, *wireEnd) {
	mk := func() *half { return &half{cap: capacity, wake: make(chan struct{})} }
	dl := func() *deadline { return &deadline{ch: make(chan struct{})} }
	x, y := mk(), mk()
	return &wireEnd{a, x, y, dl(), dl()}, &wireEnd{b, y, x, dl(), dl()}
}

func (e *wireEnd) Read(p []byte) (int, error) {
	for {
		dl := e.rd.wait()
		select {
		case <-dl:
			return 0, os.ErrDeadlineExceeded
		default:
		}
		h := e.in
		h.mu.Lock()
		if h.broken {
			h.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(h.buf) > 0 {
			n := copy(p, h.buf)
			h.buf = h.buf[n:]
			h.changed()
			h.mu.Unlock()
			return n, nil
		}
		if h.closed {
			h.mu.Unlock()
			return 0, io.EOF
		}
		if len(p) == 0 {
			h.mu.Unlock()
			return 0, nil
		}
		wake := h.wake
		h.mu.Unlock()
		select {
		case <-wake:
		case <-dl:
		}
	}
}

func (e *wireEnd) Write(p []byte) (int, error) {
	h := e.out
	orig := len(p)
	if h.mangle != nil {
		p = h.mangle(p)
	}
	n := 0
	for {
		dl := e.wd.wait()
		select {
		case <-dl:
			return min(n, orig), os.ErrDeadlineExceeded
		default:
		}
		h.mu.Lock()
		if h.broken || h.closed {
			h.mu.Unlock()
			return min(n, orig), io.ErrClosedPipe
		}
		if k := min(h.cap-len(h.buf), len(p)-n); k > 0 {
			h.buf = append(h.buf, p[n:n+k]...)
			h.bytes += k
			n += k
			h.changed()
		}
		if n == len(p) {
			h.mu.Unlock()
			return orig, nil
		}
		wake := h.wake
		h.mu.Unlock()
		select {
		case <-wake:
		case <-dl:
		}
	}
}

func (e *wireEnd) Close() error {
	for _, h := range []*half{e.in, e.out} {
		h.mu.Lock()
		if h == e.in {
			h.broken = true
			h.buf = nil
		} else {
			h.closed = true
		}
		h.changed()
		h.mu.Unlock()
	}
	return nil
}

type wireAddr string

func (a wireAddr) Network() string { return "sim" }
func (a wireAddr) String() string  { return string(a) }

func (e *wireEnd) LocalAddr() net.Addr  { return wireAddr(e.name) }
func (e *wireEnd) RemoteAddr() net.Addr { return wireAddr("peer of " + e.name) }
func (e *wireEnd) SetDeadline(t time.Time) error {
	e.rd.set(t)
	e.wd.set(t)
	return nil
}
func (e *wireEnd) SetReadDeadline(t time.Time) error  { e.rd.set(t); return nil }
func (e *wireEnd) SetWriteDeadline(t time.Time) error { e.wd.set(t); return nil }

// wireListener hands out connections to a server.
type wireListener struct {
	ch   chan net.Conn
	down chan struct{}
	once sync.Once
}

func newWireListener() *wireListener {
	return &wireListener{ch: make(chan net.Conn), down: make(chan struct{})}
}

func (l *wireListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.down:
		return nil, net.ErrClosed
	}
}
func (l *wireListener) Close() error   { l.once.Do(func() { close(l.down) }); return nil }
func (l *wireListener) Addr() net.Addr { return wireAddr("sim") }
