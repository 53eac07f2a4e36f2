// Package vlog writes the event trace (one JSON object per line) and simulates the
// connection to a unit: a byte stream whose every Read and Write is an event.
package vlog

import (
	"encoding/json"
	"errors"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Ev is one event of the trace.
type Ev map[string]any

var (
	mu    sync.Mutex
	file  *os.File
	start time.Time
	// Events counts the events written.
	Events int
	// Unit is the unit of the times of events.
	Unit = time.Microsecond
)

// Open starts the trace file.
func Open(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	file = f
	start = time.Now()
	return nil
}

// Close closes the trace file.
func Close() {
	mu.Lock()
	defer mu.Unlock()
	file.Close()
}

// Reset makes now the zero of event times.
func Reset() { mu.Lock(); start = time.Now(); mu.Unlock() }

// Now is the time since Reset in microseconds.
func Now() int64 { return time.Since(start).Microseconds() }

// Put appends an event.
func Put(e Ev) {
	mu.Lock()
	defer mu.Unlock()
	put(e)
}

func put(e Ev) {
	e["t"] = int64(time.Since(start) / Unit)
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	file.Write(append(b, '\n')) // at once: the program may die
	Events++
}

// Bytes converts a byte slice for the trace.
func Bytes(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

// ToBytes is the reverse of Bytes.
func ToBytes(v []int) []byte {
	r := make([]byte, len(v))
	for i, x := range v {
		r[i] = byte(x)
	}
	return r
}

// Seg is a piece of what the unit sends: bytes, or the end of the stream, or an error.
type Seg struct {
	D   int64  `json:"d"`           // delay in microseconds after the previous segment
	B   []int  `json:"b,omitempty"` // bytes
	Err string `json:"err,omitempty"`
}

// ErrRead is the error that a Seg with Err "err" makes a Read return.
var ErrRead = errors.New("simulated read error")

// ErrWrite is the error of a simulated failed write.
var ErrWrite = errors.New("simulated write error")

type item struct {
	b   []byte
	err error
}

var callers sync.Map // goroutine -> call it serves

// Goid identifies the current goroutine.
func Goid() string {
	var buf [64]byte
	s := string(buf[:runtime.Stack(buf[:], false)])
	return strings.SplitN(s, " ", 3)[1]
}

// Serve notes that the current goroutine serves call id (0: none).
func Serve(id int) {
	if id == 0 {
		callers.Delete(Goid())
	} else {
		callers.Store(Goid(), id)
	}
}

// Caller is the call that the current goroutine serves, 0 if unknown.
func Caller() int {
	if v, ok := callers.Load(Goid()); ok {
		return v.(int)
	}
	return 0
}

// Conn is a simulated connection.
type Conn struct {
	mu      sync.Mutex
	avail   []item
	waiters []chan item // readers in order of arrival
	want    []int
	eof     bool
	Stream  bool // a Read returns all that is available, not just one segment
	Mute    bool // no events for reads and writes
	Yield   func()
	// OnWrite is told about every successful write.
	OnWrite func(p []byte)
	// WFault decides the fate of the n-th write: "" or "err" or "short".
	WFault func(n int, p []byte) string
	writes int
}

// Deliver makes bytes (or an error) available to readers.
func (c *Conn) Deliver(b []byte, kind string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var it item
	it.b = b
	switch kind {
	case "eof":
		it.err = io.EOF
	case "err":
		it.err = ErrRead
	}
	if it.err == nil && len(b) == 0 {
		return
	}
	c.avail = append(c.avail, it)
	c.serve()
}

func (c *Conn) serve() {
	for len(c.waiters) > 0 {
		it, ok := c.take(c.want[0])
		if !ok {
			return
		}
		ch := c.waiters[0]
		c.waiters, c.want = c.waiters[1:], c.want[1:]
		if !c.Mute {
			kind := ""
			if it.err == io.EOF {
				kind = "eof"
			} else if it.err != nil {
				kind = "err"
			}
			Put(Ev{"e": "r", "b": Bytes(it.b), "err": kind})
		}
		ch <- it
	}
}

func (c *Conn) take(n int) (item, bool) {
	if len(c.avail) == 0 {
		if c.eof {
			return item{err: io.EOF}, true
		}
		return item{}, false
	}
	var res item
	for len(c.avail) > 0 && len(res.b) < n && res.err == nil {
		a := &c.avail[0]
		k := min(n-len(res.b), len(a.b))
		res.b = append(res.b, a.b[:k]...)
		a.b = a.b[k:]
		if len(a.b) == 0 {
			res.err = a.err
			c.avail = c.avail[1:]
		}
		if res.err == io.EOF {
			c.eof = true
		}
		if !c.Stream {
			break
		}
	}
	return res, true
}

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	ch := make(chan item, 1)
	c.mu.Lock()
	c.waiters = append(c.waiters, ch)
	c.want = append(c.want, len(p))
	c.serve()
	c.mu.Unlock()
	it := <-ch
	if c.Yield != nil {
		c.Yield()
	}
	return copy(p, it.b), it.err
}

// Finish ends the stream without further events.
func (c *Conn) Finish() {
	c.mu.Lock()
	c.Mute = true
	c.avail, c.eof = nil, true
	c.serve()
	c.mu.Unlock()
}

// Idle discards nothing and reports whether nothing is waiting to be read.
func (c *Conn) Idle() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.avail) == 0
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.Yield != nil {
		c.Yield()
	}
	c.mu.Lock()
	n := c.writes
	c.writes++
	c.mu.Unlock()
	f := ""
	if c.WFault != nil {
		f = c.WFault(n, p)
	}
	switch f {
	case "err":
		if !c.Mute {
			Put(Ev{"e": "w", "c": Caller(), "b": []int{}, "want": len(p), "err": true})
		}
		return 0, ErrWrite
	case "quietshort": // fewer bytes than asked for, no error
		if !c.Mute {
			Put(Ev{"e": "w", "c": Caller(), "b": Bytes(p[:1]), "want": len(p), "err": true})
		}
		return 1, nil
	case "short":
		if !c.Mute {
			Put(Ev{"e": "w", "c": Caller(), "b": Bytes(p[:1]), "want": len(p), "err": true})
		}
		return 1, io.ErrShortWrite
	}
	if !c.Mute {
		Put(Ev{"e": "w", "c": Caller(), "b": Bytes(p), "want": len(p), "err": false})
	}
	if c.OnWrite != nil {
		c.OnWrite(append([]byte(nil), p...))
	}
	return len(p), nil
}

// Close implements io.Closer.
func (c *Conn) Close() error { return nil }

// Deframer recognises what the host sends.
type Deframer struct {
	st   int
	cmd  byte
	n    int
	data []byte
	esc  bool
	// Req is called for each complete request, Ack for each acknowledgement,
	// Junk when the bytes are neither.
	Req  func(cmd byte, data []byte)
	Ack  func()
	Junk func()
}

func (d *Deframer) junk() { d.st = 0; d.esc = false; d.Junk() }

// Feed processes bytes from the host.
func (d *Deframer) Feed(p []byte) {
	for _, b := range p {
		switch d.st {
		case 0:
			if b == 7 {
				d.st = 1
			} else {
				d.junk()
			}
		case 1:
			switch b {
			case 0xF3:
				d.st = 0
				d.Ack()
			case 0xF0:
				d.st = 2
				d.data = nil
				d.esc = false
			default:
				d.junk()
			}
		case 2:
			d.st = 3
		case 3:
			d.cmd = b
			d.st = 4
		case 4:
			d.n = int(b)
			d.st = 5
			if d.n == 0 {
				d.st = 6
			}
		case 5:
			if b == 7 && !d.esc {
				d.esc = true
				break
			}
			d.esc = false
			d.data = append(d.data, b)
			if len(d.data) == d.n {
				d.st = 6
			}
		case 6: // checksum
			d.st = 7
		case 7:
			if b != 7 {
				d.junk()
				break
			}
			d.st = 8
		case 8:
			d.st = 0
			if b != 0x0F {
				d.junk()
				break
			}
			d.Req(d.cmd, d.data)
		}
	}
}
