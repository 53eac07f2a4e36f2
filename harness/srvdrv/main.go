// Command srvdrv runs one scenario against package comfoserver with a simulated unit, in
// virtual time, and writes the trace of what happened. The package keeps its state in
// variables, so that every scenario needs a program of its own.
//
//	srvdrv SCENARIO.json TRACE.ndjson
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vlog"
	"github.com/ti-mo/comfo/zzverif/vsync"
	"github.com/twitchtv/twirp"
)

type op struct {
	ID    int     `json:"id"`
	Gap   int64   `json:"gap"`   // milliseconds to wait before the call
	At    int64   `json:"at"`    // and not before this time after start-up
	Leave int64   `json:"leave"` // who calls goes away after this time; -1: at once, 0: never
	Op    string  `json:"op"`
	A     []int64 `json:"a"`
}

type fault struct {
	I    int    `json:"i"`    // the i-th request (from 1), or
	From int64  `json:"from"` // requests received in a time window
	To   int64  `json:"to"`
	Cmd  int    `json:"cmd"` // of this kind (0: any)
	Kind string `json:"kind"`
}

type ramp struct {
	In  int64 `json:"in"` // milliseconds until the duty is that of the profile; <0: never
	Out int64 `json:"out"`
}

type ext struct {
	At int64 `json:"at"`
	U  []int `json:"u"`
}

type scenario struct {
	ID      string  `json:"id"`
	Tag     string  `json:"tag"`
	Seed    int64   `json:"seed"`
	Yield   bool    `json:"yield"` // give way around locks
	Healthy bool    `json:"healthy"`
	Stream  bool    `json:"stream"`
	U       []int   `json:"u"`     // speed, comfort byte, 8 duties as in a profile request
	Delay   int64   `json:"delay"` // of answers
	Jitter  int64   `json:"jitter"`
	Faults  []fault `json:"faults"`
	Ramps   []ramp  `json:"ramps"` // per speed change, the last one for the rest
	Ext     []ext   `json:"ext"`
	Lanes   [][]op  `json:"lanes"`
	Until   int64   `json:"until"` // run at least this long after start-up
	Calm    int64   `json:"calm"`  // no faults from this time on
}

const hang = 400 * time.Second

func ms() int64 { return vlog.Now() / 1000 }

func put(e vlog.Ev) { vlog.Put(e) }

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var s scenario
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	vlog.Unit = time.Millisecond
	if err := vlog.Open(os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	run(&s)
	vlog.Close()
}

// unit is the simulated ventilation unit.
type unit struct {
	s       *scenario
	c       *vlog.Conn
	r       *rand.Rand
	mu      sync.Mutex
	u       []int // speed, comfort byte, duties
	started bool
	n       int // requests seen
	changes int // speed changes
	duty    [2]int
	was     [2]int
	at      [2]time.Time // when duty takes over from was
	never   [2]bool
	failAck bool
	cur     string // kind of the answer to the request being written
	base    time.Time
}

// profile gives the duties (supply, exhaust) of a speed setting.
func (u *unit) profile(speed int) [2]int {
	d := u.u[2:]
	switch speed {
	case 1:
		return [2]int{d[3], d[0]}
	case 2:
		return [2]int{d[4], d[1]}
	case 3:
		return [2]int{d[5], d[2]}
	case 4:
		return [2]int{d[7], d[6]}
	}
	return [2]int{35, 33}
}

// readings gives the current duties.
func (u *unit) readings() [2]int {
	var r [2]int
	now := time.Now()
	for i := range r {
		r[i] = u.was[i]
		if !u.never[i] && !now.Before(u.at[i]) {
			r[i] = u.duty[i]
		}
	}
	return r
}

// retarget makes the fans go for the duties of the current setting.
func (u *unit) retarget(rp ramp) {
	u.was = u.readings()
	u.duty = u.profile(u.u[0])
	for i, d := range []int64{rp.In, rp.Out} {
		u.never[i] = d < 0
		u.at[i] = time.Now().Add(time.Duration(d) * time.Millisecond)
	}
}

func (u *unit) payload(cmd byte) []byte {
	rb := func() byte { return byte(u.r.Intn(256)) }
	fill := func(n int) []byte {
		b := make([]byte, n)
		if u.r.Intn(8) == 0 { // all zero, now and then
			return b
		}
		for i := range b {
			b[i] = rb()
		}
		return b
	}
	switch cmd {
	case 11:
		d := u.readings()
		b := fill(6)
		b[0], b[1] = byte(d[0]), byte(d[1])
		b[2], b[4] = b[2]|1, b[4]|1 // no zero period
		return b
	case 103:
		b := fill(13)
		copy(b[3:], []byte("  ComfoAir"))
		b[3+u.r.Intn(10)] = byte('a' + u.r.Intn(26))
		return b
	case 205:
		d := u.u[2:]
		b := fill(14)
		for i := range 6 {
			b[i] = byte(d[i])
		}
		b[10], b[11] = byte(d[6]), byte(d[7])
		b[8] = byte(u.u[0])
		b[9] = byte(u.r.Intn(3))
		return b
	case 209:
		b := fill(9)
		b[0] = byte(u.u[1])
		return b
	case 217:
		b := fill(17)
		b[8] = byte(u.r.Intn(3))
		return b
	case 223:
		b := fill(7)
		b[6] = byte(u.r.Intn(3))
		return b
	}
	return fill(4)
}

func frame(cmd byte, data []byte) []byte {
	out := []byte{7, 0xF0, 0, cmd, byte(len(data))}
	sum := int(cmd) + len(data) + 173
	for _, b := range data {
		sum += int(b)
		if b == 7 {
			out = append(out, 7)
		}
		out = append(out, b)
	}
	return append(out, byte(sum), 7, 0x0F)
}

func (u *unit) since() int64 {
	if !u.started {
		return -1
	}
	return time.Since(u.base).Milliseconds()
}

// fate decides how the next request is treated. Called with u.mu held.
func (u *unit) fate(cmd byte) string {
	u.n++
	t := u.since()
	if u.s.Calm > 0 && t >= u.s.Calm {
		return "ok"
	}
	for _, f := range u.s.Faults {
		if f.Cmd != 0 && f.Cmd != int(cmd) {
			continue
		}
		if f.I != 0 && f.I == u.n || f.I == 0 && t >= f.From && t < f.To {
			return f.Kind
		}
	}
	return "ok"
}

func isSet(cmd byte) bool { return cmd == 153 || cmd == 207 || cmd == 211 }

// apply carries out a setting request.
func (u *unit) apply(cmd byte, data []byte) bool {
	switch {
	case cmd == 153 && len(data) == 1 && data[0] <= 4:
		u.u[0] = int(data[0])
		rp := ramp{}
		if k := len(u.s.Ramps); k > 0 {
			rp = u.s.Ramps[min(u.changes, k-1)]
		}
		u.changes++
		u.retarget(rp)
	case cmd == 211 && len(data) == 1:
		u.u[1] = int(data[0])
	case cmd == 207 && len(data) == 8:
		for i, b := range data {
			u.u[2+i] = int(b)
		}
		u.retarget(ramp{})
	default:
		return false
	}
	return true
}

// request is called for every request that is written, before the write returns.
// It reports whether the write is to fail.
func (u *unit) request(cmd byte, data []byte) (fail bool) {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.failAck = false
	k := u.fate(cmd)
	set := isSet(cmd)
	if set && (k == "short" || k == "zero" || k == "wrong" || k == "half") {
		k = "nack"
	}
	if !set && k == "mute" {
		k = "none"
	}
	if k == "zero" && cmd != 11 {
		k = "short"
	}
	applied := false
	if set && (k == "ok" || k == "slow" || k == "mute" || k == "ackerr") {
		applied = u.apply(cmd, data)
		if !applied && k != "mute" {
			k = "nack"
		}
	}
	var p []byte
	var out []byte
	switch {
	case set && (k == "ok" || k == "slow" || k == "ackerr"):
		out = []byte{7, 0xF3}
	case k == "ok" || k == "slow" || k == "ackerr":
		p = u.payload(cmd)
		out = append([]byte{7, 0xF3}, frame(cmd+1, p)...)
	case k == "short":
		p = u.payload(cmd)
		p = p[:len(p)-1]
		out = append([]byte{7, 0xF3}, frame(cmd+1, p)...)
	case k == "zero":
		p = u.payload(cmd)
		p[4], p[5] = 0, 0
		out = append([]byte{7, 0xF3}, frame(cmd+1, p)...)
	case k == "wrong":
		out = append([]byte{7, 0xF3}, frame(cmd, []byte{1, 2, 3})...)
	case k == "nack":
		out = []byte{7, 0x0F}
	case k == "half":
		out = []byte{7, 0xF3}
	}
	u.failAck = k == "ackerr"
	d := u.s.Delay
	if u.s.Jitter > 0 {
		d += u.r.Int63n(u.s.Jitter)
	}
	if k == "slow" {
		d, k = 900, "ok"
	}
	put(vlog.Ev{"e": "q", "c": vlog.Caller(), "cmd": int(cmd), "d": vlog.Bytes(data), "k": k, "p": vlog.Bytes(p),
		"ap": applied, "u": append([]int{}, u.u...)})
	if k == "werr" {
		return true
	}
	if out != nil {
		time.AfterFunc(time.Duration(d)*time.Millisecond, func() { u.c.Deliver(out, "") })
	}
	return false
}

func run(s *scenario) {
	vlog.Reset()
	put(vlog.Ev{"e": "begin", "id": s.ID, "tag": s.Tag, "healthy": s.Healthy, "u": s.U})
	if s.Yield {
		vsync.Seed(s.Seed)
	}
	c := &vlog.Conn{Stream: s.Stream, Mute: true}
	u := &unit{s: s, c: c, r: rand.New(rand.NewSource(s.Seed)), u: append([]int{}, s.U...), base: time.Now()}
	u.duty = u.profile(u.u[0])
	u.was = u.duty
	// Requests come in one write.
	var cmd byte
	var data []byte
	var got bool
	d := &vlog.Deframer{
		Req:  func(c byte, b []byte) { cmd, data, got = c, b, true },
		Ack:  func() { put(vlog.Ev{"e": "a", "c": vlog.Caller()}) },
		Junk: func() { put(vlog.Ev{"e": "junk"}) },
	}
	var dm sync.Mutex
	c.WFault = func(i int, p []byte) string {
		dm.Lock()
		defer dm.Unlock()
		if len(p) == 2 && u.failAck {
			u.failAck = false
			return "err"
		}
		got = false
		d.Feed(p)
		if got && u.request(cmd, data) {
			return "err"
		}
		return ""
	}

	done := make(chan struct{})
	var last atomic.Int64 // when something last finished
	go func() {
		defer close(done)
		put(vlog.Ev{"e": "start"})
		comfoserver.StartCaches(c)
		put(vlog.Ev{"e": "started"})
		u.mu.Lock()
		u.started, u.base = true, time.Now()
		u.mu.Unlock()
		last.Store(ms())
		t0 := time.Now()
		go func() { // announces every five-second mark
			for n := 1; ; n++ {
				time.Sleep(time.Until(t0.Add(time.Duration(n)*5*time.Second - 2*time.Millisecond)))
				put(vlog.Ev{"e": "mark", "n": n})
			}
		}()
		for _, x := range s.Ext {
			time.AfterFunc(time.Duration(x.At)*time.Millisecond, func() {
				u.mu.Lock()
				defer u.mu.Unlock()
				u.u = append([]int{}, x.U...)
				u.retarget(ramp{})
				put(vlog.Ev{"e": "ext", "u": append([]int{}, u.u...)})
			})
		}
		if s.Calm > 0 {
			time.AfterFunc(time.Duration(s.Calm)*time.Millisecond, func() { put(vlog.Ev{"e": "calm"}) })
		}
		var wg sync.WaitGroup
		for _, lane := range s.Lanes {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range lane {
					time.Sleep(time.Duration(o.Gap) * time.Millisecond)
					time.Sleep(time.Until(t0.Add(time.Duration(o.At) * time.Millisecond)))
					call(o)
					last.Store(ms())
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Until(t0.Add(time.Duration(s.Until) * time.Millisecond)))
	}()
	for {
		select {
		case <-done:
			put(vlog.Ev{"e": "end"})
			return
		case <-time.After(10 * time.Second):
			// ends when neither the plan nor a call in progress explains the wait
			latest := s.Until
			for _, l := range s.Lanes {
				for _, o := range l {
					latest = max(latest, o.At+o.Gap)
				}
			}
			if ms() > max(latest, last.Load())+20000+hang.Milliseconds() {
				put(vlog.Ev{"e": "hang"})
				return
			}
		}
	}
}

// u32 is an argument as a message field; arguments of 2^30 and up are given as such in traces.
func u32(v int64) uint32 { return uint32(v) }

func shown(a []int64) []int64 {
	r := make([]int64, len(a))
	for i, v := range a {
		r[i] = min(v, 1<<30)
	}
	return r
}

func call(o op) {
	vlog.Serve(o.ID)
	defer vlog.Serve(0)
	put(vlog.Ev{"e": "call", "id": o.ID, "op": o.Op, "a": shown(o.A)})
	var v any
	var err error
	panicked := ""
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	leave := func() { put(vlog.Ev{"e": "leave", "id": o.ID}); cancel() }
	if o.Leave < 0 {
		leave()
	} else if o.Leave > 0 {
		defer time.AfterFunc(time.Duration(o.Leave)*time.Millisecond, leave).Stop()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		v, err = do(ctx, o)
	}()
	ev := vlog.Ev{"e": "ret", "id": o.ID, "ok": err == nil && panicked == "", "panic": panicked != "", "code": "", "msg": panicked,
		"v": map[string]any{}}
	if err != nil {
		ev["msg"] = err.Error()
		var te twirp.Error
		if errors.As(err, &te) {
			ev["code"] = string(te.Code())
		} else {
			ev["code"] = "plain"
		}
	} else if panicked == "" {
		ev["v"] = Fields(v)
	}
	put(ev)
}

func do(ctx context.Context, o op) (any, error) {
	s := &comfoserver.Server{}
	switch o.Op {
	case "GetBootInfo":
		return s.GetBootInfo(ctx, &rpc.Noop{})
	case "GetBypass":
		return s.GetBypass(ctx, &rpc.Noop{})
	case "GetTemps":
		return s.GetTemps(ctx, &rpc.Noop{})
	case "GetFans":
		return s.GetFans(ctx, &rpc.Noop{})
	case "GetFanProfiles":
		return s.GetFanProfiles(ctx, &rpc.Noop{})
	case "GetErrors":
		return s.GetErrors(ctx, &rpc.Noop{})
	case "SetFanSpeed":
		return s.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: u32(o.A[0]), Rel: o.A[1] == 1})
	case "SetFanProfile":
		return s.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: u32(o.A[0]), TargetSpeed: u32(o.A[1])})
	case "SetComfortTemp":
		return s.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: u32(o.A[0])})
	case "FlushCache":
		return s.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(int32(o.A[0]))})
	}
	panic("unknown op " + o.Op)
}

// Fields lists a message's exported fields by name, numbers as integers.
func Fields(v any) map[string]any {
	r := map[string]any{}
	rv := reflect.Indirect(reflect.ValueOf(v))
	if !rv.IsValid() {
		r["nil"] = true
		return r
	}
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		sf := rv.Type().Field(i)
		if !sf.IsExported() || sf.Name == "ReqTime" {
			continue
		}
		switch f.Kind() {
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r[sf.Name] = min(f.Uint(), 1<<30)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r[sf.Name] = f.Int()
		case reflect.Bool:
			r[sf.Name] = f.Bool()
		case reflect.String:
			r[sf.Name] = vlog.Bytes([]byte(f.String()))
		case reflect.Float32, reflect.Float64:
			x := f.Float()
			if x == math.Trunc(x) && math.Abs(x) < 1e6 {
				r[sf.Name] = int64(x)
			} else { // no whole number
				r[sf.Name] = 1000000000 + int64(math.Mod(x*2, 1e6))
			}
		}
	}
	return r
}
