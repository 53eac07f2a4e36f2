// Command racedrv uses package comfoserver from many goroutines at once, in real time and
// under the race detector, with a unit that answers at once or now and then not.
//
//	racedrv SEED MILLISECONDS
//
// It prints how many calls were made and how many requests the unit received. Apart from the
// connection nothing in it is shared between goroutines, so as not to order what the server
// leaves unordered.
package main

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"strconv"
	"time"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
)

// unit answers requests. Writers and readers meet in its channels only.
type unit struct {
	r    *rand.Rand
	in   chan []byte
	out  chan []byte
	rest []byte
	done chan int
}

func (u *unit) Write(p []byte) (int, error) {
	u.in <- append([]byte{}, p...)
	return len(p), nil
}

func (u *unit) Read(p []byte) (int, error) {
	if len(u.rest) == 0 {
		u.rest = <-u.out
	}
	n := copy(p, u.rest)
	u.rest = u.rest[n:]
	return n, nil
}

func (u *unit) Close() error { return nil }

func frame(cmd byte, data []byte) []byte {
	out := []byte{7, 0xF0, 0, cmd, byte(len(data))}
	sum := int(cmd) + len(data) + 173
	for _, b := range data {
		sum += int(b)
		if b == 7 {
			out = append(out, 7)
		}
		out = append(out, b)
	}
	return append(out, byte(sum), 7, 0x0F)
}

// serve is the unit's side.
func (u *unit) serve(stop <-chan struct{}) {
	speed, comfort := byte(2), byte(80)
	ramp := time.Time{} // the fans run at another speed until then
	d := []byte{30, 50, 70, 30, 50, 70, 90, 90}
	var buf []byte
	n := 0
	fill := func(k int) []byte {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(u.r.Intn(256))
		}
		return b
	}
	for {
		select {
		case <-stop:
			u.done <- n
			return
		case p := <-u.in:
			buf = append(buf, p...)
		}
		for len(buf) >= 2 {
			if buf[1] == 0xF3 {
				buf = buf[2:]
				continue
			}
			// up to the end mark outside doubled sevens
			end, i := 0, 2
			for i+1 < len(buf) {
				if buf[i] == 7 {
					if buf[i+1] == 0x0F {
						end = i + 2
						break
					}
					i++
				}
				i++
			}
			if end == 0 {
				break
			}
			var m []byte
			for i := 2; i < end-2; i++ {
				m = append(m, buf[i])
				if buf[i] == 7 {
					i++
				}
			}
			buf = buf[end:]
			n++
			cmd, data := m[1], m[3:len(m)-1]
			var out []byte
			pct := [][2]byte{{}, {d[3], d[0]}, {d[4], d[1]}, {d[5], d[2]}, {d[7], d[6]}}[speed]
			switch cmd {
			case 153:
				speed, out = data[0], []byte{7, 0xF3}
				if u.r.Intn(3) == 0 {
					ramp = time.Now().Add(time.Duration(u.r.Intn(700)) * time.Millisecond)
				}
			case 211:
				comfort, out = data[0], []byte{7, 0xF3}
			case 207:
				copy(d, data)
				out = []byte{7, 0xF3}
			default:
				var p []byte
				switch cmd {
				case 11:
					if time.Now().Before(ramp) {
						pct = [2]byte{pct[0] ^ 1, pct[1] ^ 2}
					}
					p = append([]byte{pct[0], pct[1]}, 9, byte(u.r.Intn(256)), 8, 1)
				case 103:
					p = append(fill(3), []byte("ComfoAir  ")...)
					p[3+u.r.Intn(10)] = byte('a' + u.r.Intn(26))
				case 205:
					p = append(append([]byte{}, d[:6]...), byte(u.r.Intn(100)), byte(u.r.Intn(100)), speed, 1, d[6], d[7], 0, 0)
				case 209:
					p = append([]byte{comfort}, fill(8)...)
				case 217:
					p = fill(17)
				default:
					p = fill(7)
				}
				out = append([]byte{7, 0xF3}, frame(cmd+1, p)...)
			}
			if u.r.Intn(400) == 0 {
				out = []byte{7, 0x0F} // refused
			}
			u.out <- out
		}
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	ms, _ := strconv.Atoi(os.Args[2])
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	u := &unit{r: rand.New(rand.NewSource(seed)), in: make(chan []byte, 16), out: make(chan []byte, 16), done: make(chan int, 1)}
	stop := make(chan struct{})
	go u.serve(stop)
	comfoserver.StartCaches(u)
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	type job struct {
		pause int // microseconds at most
		f     func(r *rand.Rand)
	}
	s := &comfoserver.Server{}
	ctx := context.Background()
	no := &rpc.Noop{}
	flush := func(ks ...int32) func(*rand.Rand) {
		return func(r *rand.Rand) {
			s.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(ks[r.Intn(len(ks))])})
		}
	}
	speed := func(r *rand.Rand) {
		s.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: uint32(r.Intn(5)), Rel: false})
	}
	step := func(r *rand.Rand) {
		s.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Rel: r.Intn(2) == 0})
	}
	profile := func(r *rand.Rand) {
		s.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: uint32(r.Intn(6)), TargetSpeed: uint32(10 + r.Intn(95))})
	}
	comfort := func(r *rand.Rand) {
		s.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: uint32(r.Intn(112))})
	}
	jobs := []job{
		{200, func(*rand.Rand) { s.GetBootInfo(ctx, no) }},
		{200, func(*rand.Rand) { s.GetBypass(ctx, no) }},
		{200, func(*rand.Rand) { s.GetTemps(ctx, no) }},
		{200, func(*rand.Rand) { s.GetFans(ctx, no) }},
		{200, func(*rand.Rand) { s.GetFanProfiles(ctx, no) }},
		{200, func(*rand.Rand) { s.GetErrors(ctx, no) }},
		{3000, flush(0)}, {3000, flush(1, 2)}, {3000, flush(3, 4)}, {20000, flush(10, 5)},
		{5000, speed}, {5000, step}, {5000, profile}, {5000, profile}, {5000, comfort}, {5000, comfort},
		// the same again, rarely enough for the line to be free in between
		{90000, comfort}, {90000, profile}, {90000, speed}, {90000, step}, {400000, flush(10)},
	}
	total := make(chan int, len(jobs))
	for i, j := range jobs {
		go func() {
			r := rand.New(rand.NewSource(seed*100 + int64(i)))
			n := 0
			for time.Now().Before(end) {
				j.f(r)
				n++
				time.Sleep(time.Duration(r.Intn(j.pause)) * time.Microsecond)
			}
			total <- n
		}()
	}
	calls := 0
	limit := time.After(time.Until(end) + 60*time.Second)
	for range jobs {
		select {
		case n := <-total:
			calls += n
		case <-limit:
			fmt.Println("HANG")
			return
		}
	}
	close(stop)
	fmt.Println("CALLS", calls, "REQUESTS", <-u.done)
}
