// Command linkdrv runs scenarios against package libcomfo over a simulated connection in
// virtual time and writes the trace of what happened.
//
//	linkdrv SCENARIOS.ndjson TRACE.ndjson
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ti-mo/comfo/libcomfo"
	"github.com/ti-mo/comfo/zzverif/vlog"
	"github.com/ti-mo/comfo/zzverif/vsync"
)

type op struct {
	ID  int    `json:"id"`
	Gap int64  `json:"gap"` // microseconds to wait before the call
	At  int64  `json:"at"`  // and not before this time
	Op  string `json:"op"`
	A   []int  `json:"a"`
}

type scenario struct {
	ID      string            `json:"id"`
	Tag     string            `json:"tag"`
	Seed    int64             `json:"seed"`
	Stream  bool              `json:"stream"`
	Lanes   [][]op            `json:"lanes"`
	Replies [][]vlog.Seg      `json:"replies"` // per request, in the order the unit receives them
	Auto    bool              `json:"auto"`    // requests beyond Replies are answered properly
	Delay   int64             `json:"delay"`   // of automatic answers
	State   map[string][]int  `json:"state"`   // payload per request code, for automatic answers
	WFault  map[string]string `json:"wfault"`  // by index of the write
	Pre     []vlog.Seg        `json:"pre"`     // sent by the unit of its own accord
}

const hang = 90 * time.Second

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := vlog.Open(os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if !run(&s) {
			break
		}
	}
	vlog.Close()
}

func frame(cmd byte, data []byte) []byte {
	out := []byte{7, 0xF0, 0, cmd, byte(len(data))}
	sum := int(cmd) + len(data) + 173
	for _, b := range data {
		sum += int(b)
		if b == 7 {
			out = append(out, 7)
		}
		out = append(out, b)
	}
	return append(out, byte(sum), 7, 0x0F)
}

func run(s *scenario) bool {
	vlog.Reset()
	vlog.Put(vlog.Ev{"e": "begin", "id": s.ID, "tag": s.Tag})
	vsync.Seed(s.Seed)
	defer vsync.Seed(0)
	c := &vlog.Conn{Stream: s.Stream}
	if s.Seed != 0 {
		c.Yield = vsync.Yield
	}
	var over atomic.Bool // no more events of this scenario
	defer func() {
		over.Store(true)
		c.Finish()
	}()
	send := func(n int, segs []vlog.Seg) {
		go func() {
			for _, g := range segs {
				time.Sleep(time.Duration(g.D) * time.Microsecond)
				if over.Load() {
					return
				}
				vlog.Put(vlog.Ev{"e": "s", "n": n, "b": append([]int{}, g.B...), "err": g.Err})
				c.Deliver(vlog.ToBytes(g.B), g.Err)
			}
		}()
	}
	state := map[byte][]byte{}
	for k, v := range s.State {
		var x int
		fmt.Sscan(k, &x)
		state[byte(x)] = vlog.ToBytes(v)
	}
	n := 0
	answer := func(cmd byte, data []byte, junk bool) {
		n++
		vlog.Put(vlog.Ev{"e": "q", "n": n, "cmd": int(cmd), "d": vlog.Bytes(data), "junk": junk})
		if n <= len(s.Replies) {
			send(n, s.Replies[n-1])
			return
		}
		if !s.Auto || junk {
			return
		}
		reply := []byte{7, 0xF3}
		if cmd == 207 && len(data) == 8 && len(state[205]) == 14 {
			p := append([]byte(nil), state[205]...)
			p[0], p[1], p[2], p[3], p[4], p[5], p[10], p[11] = data[0], data[1], data[2], data[3], data[4], data[5], data[6], data[7]
			state[205] = p
		} else if len(data) == 0 {
			reply = append(reply, frame(cmd+1, state[cmd])...)
		}
		send(n, []vlog.Seg{{D: s.Delay, B: vlog.Bytes(reply)}})
	}
	d := &vlog.Deframer{
		Req:  func(cmd byte, data []byte) { answer(cmd, data, false) },
		Ack:  func() {},
		Junk: func() { vlog.Put(vlog.Ev{"e": "junk"}) },
	}
	c.OnWrite = d.Feed
	c.WFault = func(i int, p []byte) string { return s.WFault[fmt.Sprint(i)] }
	send(0, s.Pre)

	keep := &keeper{}
	var wg sync.WaitGroup
	for _, lane := range s.Lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range lane {
				time.Sleep(time.Duration(max(o.Gap, o.At-vlog.Now())) * time.Microsecond)
				call(o, c, keep)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		keep.look()
		vlog.Put(vlog.Ev{"e": "end"})
		return true
	case <-time.After(hang):
		vlog.Put(vlog.Ev{"e": "hang"})
		return false
	}
}

// keeper holds on to what calls returned.
type keeper struct {
	mu   sync.Mutex
	ids  []int
	vals map[int]func() any
}

func (k *keeper) add(id int, f func() any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.vals == nil {
		k.vals = map[int]func() any{}
	}
	k.ids = append(k.ids, id)
	k.vals[id] = f
}

// look shows what was returned once more.
func (k *keeper) look() {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, id := range k.ids {
		vlog.Put(vlog.Ev{"e": "look", "id": id, "v": k.vals[id]()})
	}
}

func call(o op, c io.ReadWriter, keep *keeper) {
	a := append([]int{}, o.A...)
	vlog.Serve(o.ID)
	defer vlog.Serve(0)
	vlog.Put(vlog.Ev{"e": "call", "id": o.ID, "op": o.Op, "a": a})
	var v any = map[string]any{}
	var err error
	panicked := ""
	kept := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		var again func() any
		v, again, err = do(o, c)
		if err == nil && again != nil {
			kept = true
			keep.add(o.ID, again)
		}
	}()
	ev := vlog.Ev{"e": "ret", "id": o.ID, "ok": err == nil && panicked == "", "panic": panicked != "", "err": "", "v": v, "kept": kept}
	if err != nil {
		ev["err"] = err.Error()
	}
	if panicked != "" {
		ev["err"] = "PANIC " + panicked
	}
	vlog.Put(ev)
}

// do makes the call. The function it returns yields the value again, as it is then.
func do(o op, c io.ReadWriter) (any, func() any, error) {
	none := map[string]any{}
	switch o.Op {
	case "GetTemperatures":
		v, err := libcomfo.GetTemperatures(c)
		return Fields(v), nil, err
	case "GetBypass":
		v, err := libcomfo.GetBypass(c)
		return Fields(v), nil, err
	case "GetFans":
		v, err := libcomfo.GetFans(c)
		return Fields(v), nil, err
	case "GetHours":
		v, err := libcomfo.GetHours(c)
		return Fields(v), nil, err
	case "GetBootloader":
		v, err := libcomfo.GetBootloader(c)
		return Fields(v), nil, err
	case "GetFirmware":
		v, err := libcomfo.GetFirmware(c)
		return Fields(v), nil, err
	case "GetFanProfiles":
		v, err := libcomfo.GetFanProfiles(c)
		return Fields(v), nil, err
	case "GetErrors":
		v, err := libcomfo.GetErrors(c)
		return Fields(v), nil, err
	case "SetComfort":
		return none, nil, libcomfo.SetComfort(uint8(o.A[0]), c)
	case "SetSpeed":
		return none, nil, libcomfo.SetSpeed(uint8(o.A[0]), c)
	case "SetFanProfile":
		return none, nil, libcomfo.SetFanProfile(uint8(o.A[0]), uint8(o.A[1]), c)
	case "SetFanProfiles": // OutAway OutLow OutMid OutHigh InAway InLow InMid InHigh, then the rest
		x := make([]uint8, 12)
		for i, v := range o.A {
			x[i] = uint8(v)
		}
		fp := &libcomfo.FanProfiles{OutAway: x[0], OutLow: x[1], OutMid: x[2], OutHigh: x[3],
			InAway: x[4], InLow: x[5], InMid: x[6], InHigh: x[7],
			InFanActive: x[8] == 1, CurrentOut: x[9], CurrentIn: x[10], CurrentMode: x[11]}
		return none, nil, libcomfo.SetFanProfiles(fp, c)
	case "Query": // command, expect, data...
		p, err := libcomfo.QueryPacket(libcomfo.Packet{Command: uint8(o.A[0]), Expect: o.A[1] == 1, Data: vlog.ToBytes(o.A[2:])}, c)
		f := func() any { return map[string]any{"Command": int(p.Command), "Data": vlog.Bytes(p.Data)} }
		return f(), f, err
	case "Decode": // code, data...
		d := vlog.ToBytes(o.A[1:])
		r, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: uint8(o.A[0]), Data: d})
		if err != nil {
			return none, nil, err
		}
		f := func() any { return Fields(r) }
		return f(), f, nil
	case "Write": // command, data...
		ok, err := libcomfo.WritePacket(libcomfo.Packet{Command: uint8(o.A[0]), Data: vlog.ToBytes(o.A[1:])}, c)
		return map[string]any{"ok": ok}, nil, err
	}
	panic("unknown op " + o.Op)
}

// Fields lists a struct's exported fields by name, numbers as integers.
func Fields(v any) map[string]any {
	r := map[string]any{}
	rv := reflect.Indirect(reflect.ValueOf(v))
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		name := rv.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r[name] = f.Uint()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r[name] = f.Int()
		case reflect.Bool:
			r[name] = f.Bool()
		case reflect.String:
			r[name] = vlog.Bytes([]byte(f.String()))
		case reflect.Float32, reflect.Float64:
			x := f.Float()
			if x == math.Trunc(x) && math.Abs(x) < 1e6 {
				r[name] = int64(x)
			} else { // no whole number
				r[name] = 1000000000 + int64(math.Mod(x*2, 1e6))
			}
		}
	}
	return r
}
