package zzverif

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	sd "github.com/unit-io/unitdb/server/internal/pkg/stats"
)

// ---- metrics sent to a statsd server (P34) ----------------------------------------

type sdSink struct {
	c     *net.UDPConn
	mu    sync.Mutex
	lines []string
	over  string // a packet that is too large
	max   int
	done  chan bool
}

func newSdSink(addr string, max int) *sdSink {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		panic(err)
	}
	c, err := net.ListenUDP("udp", a)
	if err != nil {
		return nil
	}
	c.SetReadBuffer(4 << 20)
	s := &sdSink{c: c, max: max, done: make(chan bool)}
	go func() {
		defer close(s.done)
		buf := make([]byte, 1<<16)
		for {
			n, err := c.Read(buf)
			if err != nil {
				return
			}
			p := string(buf[:n])
			if p == "END" {
				return
			}
			ls := strings.Split(p, "\n")
			s.mu.Lock()
			if n+1 > max && len(ls) > 1 && s.over == "" {
				s.over = p
			}
			s.lines = append(s.lines, ls...)
			s.mu.Unlock()
		}
	}()
	return s
}

func (s *sdSink) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.lines)
}

// close takes what was sent before and ends the server.
func (s *sdSink) close() []string {
	c, err := net.DialUDP("udp", nil, s.c.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	defer c.Close()
	for {
		c.Write([]byte("END"))
		select {
		case <-s.done:
			s.c.Close()
			return s.lines
		case <-time.After(100 * time.Millisecond):
		}
	}
}

type nolog struct{}

func (nolog) Printf(string, ...interface{}) {}

// sdTag formats tags as the formats of InfluxDB and Datadog have them.
func sdTags(dog bool, tags [][2]string) string {
	if len(tags) == 0 {
		return ""
	}
	var p []string
	for _, t := range tags {
		if dog {
			p = append(p, t[0]+":"+t[1])
		} else {
			p = append(p, t[0]+"="+t[1])
		}
	}
	if dog {
		return "|#" + strings.Join(p, ",")
	}
	return "," + strings.Join(p, ",")
}

func statsdCase(j *Job, r *Rep, i int) {
	rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
	r.Case(i, "")
	max := 16 + rng.Intn(200)
	if rng.Intn(3) == 0 {
		max = 1432
	}
	dog := rng.Intn(2) == 0
	prefix := []string{"", "app.", "a.very.long.prefix.of.metrics."}[rng.Intn(3)]
	flush := []time.Duration{0, time.Millisecond, 5 * time.Millisecond, 100 * time.Millisecond}[rng.Intn(4)]
	pool, loops, queue := rng.Intn(4), 1, 4096
	if rng.Intn(4) == 0 {
		loops = 2 + rng.Intn(2)
	}
	lossy, down := rng.Intn(5) == 0, rng.Intn(8) == 0
	if lossy {
		queue = rng.Intn(3)
	}
	rec := time.Duration(0)
	if rng.Intn(3) == 0 {
		rec = time.Duration(1+rng.Intn(10)) * time.Millisecond
	}
	sink := newSdSink("127.0.0.1:0", max)
	addr := sink.c.LocalAddr().String()
	var def [][2]string
	var defTags []sd.Tag
	tag := func() ([2]string, sd.Tag) {
		k := fmt.Sprintf("k%d", rng.Intn(100))
		switch v := rng.Intn(1000) - 500; rng.Intn(3) {
		case 0:
			return [2]string{k, strconv.Itoa(v)}, sd.IntTag(k, v)
		case 1:
			n := int64(v) << 40
			return [2]string{k, strconv.FormatInt(n, 10)}, sd.Int64Tag(k, n)
		}
		v := strings.Repeat("v", rng.Intn(12))
		return [2]string{k, v}, sd.StringTag(k, v)
	}
	for k := rng.Intn(3); k > 0; k-- {
		a, b := tag()
		def, defTags = append(def, a), append(defTags, b)
	}
	style := sd.TagFormatInfluxDB
	if dog {
		style = sd.TagFormatDatadog
	}
	gor := runtime.NumGoroutine()
	s := sd.New(&sd.Config{Addr: addr, Size: 50}, sd.MetricPrefix(prefix), sd.MaxPacketSize(max), sd.FlushInterval(flush), sd.BufPoolCapacity(pool), sd.SendQueueCapacity(queue),
		sd.SendLoopCount(loops), sd.TagStyle(style), sd.DefaultTags(defTags...), sd.ReconnectInterval(rec), sd.RetryTimeout(5*time.Millisecond), sd.Logger(nolog{}),
		sd.ReportInterval(time.Duration(rng.Intn(2))*time.Millisecond))
	desc := fmt.Sprintf("packets of %d, flush %v, pool %d, queue %d, %d senders, reconnect %v, prefix %q, dog %v, default tags %v", max, flush, pool, queue, loops, rec, prefix, dog, def)
	type ev struct {
		line string
		do   func()
	}
	want := map[string]int{} // line: goroutine<<20 | place
	G := 1 + rng.Intn(6)
	seq := make([]int, G)
	gen := func(g int) ev {
		n := seq[g]
		seq[g]++
		name := fmt.Sprintf("m%d.%d%s", g, n, strings.Repeat("x", rng.Intn(20)*rng.Intn(2)))
		if rng.Intn(40) == 0 {
			name += strings.Repeat("y", max)
			if rng.Intn(4) == 0 {
				name += strings.Repeat("y", 1000+rng.Intn(3000))
			}
		}
		ts, tags := append([][2]string{}, def...), []sd.Tag{}
		for k := rng.Intn(4) * rng.Intn(2); k > 0; k-- {
			a, b := tag()
			ts, tags = append(ts, a), append(tags, b)
		}
		t, line := sdTags(dog, ts), ""
		put := func(val, typ string) string {
			if dog {
				return prefix + name + ":" + val + "|" + typ + t
			}
			return prefix + name + t + ":" + val + "|" + typ
		}
		v := rng.Int63n(1000) - 500
		if rng.Intn(4) == 0 {
			v = rng.Int63() - rng.Int63()
		}
		if v == 0 {
			v = 1
		}
		var do func()
		switch k := rng.Intn(5); {
		case k == 0:
			line, do = put(strconv.FormatInt(v, 10), "c"), func() { s.Incr(name, v, tags...) }
		case k == 1:
			line, do = put(strconv.FormatInt(-v, 10), "c"), func() { s.Decr(name, v, tags...) }
		case k == 2:
			line, do = put(strconv.FormatInt(v, 10), "ms"), func() { s.Timing(name, v, tags...) }
		case k == 3 && !dog:
			d := time.Duration(v & (1<<50 - 1))
			line, do = prefix+t+" "+name+"="+strconv.FormatInt(int64(d), 10), func() { s.PrecisionTiming(name, d, tags...) }
		default:
			val := strings.Repeat("z", 1+rng.Intn(8))
			line, do = put(val, "s"), func() { s.SetAdd(name, val, tags...) }
		}
		want[line] = g<<20 | n
		return ev{line, do}
	}
	// What is in flight must fit into the receive buffer of the socket, that holds some 150 packets.
	total := 0
	late := false
	wave := func(lost bool) {
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			var es []ev
			for k := rng.Intn(100 / G); k > 0; k-- {
				es = append(es, gen(g))
			}
			total += len(es)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, e := range es {
					e.do()
				}
			}()
		}
		wg.Wait()
		if flush > 0 && !lossy && !lost {
			for t := time.Now(); sink.count() < total; time.Sleep(200 * time.Microsecond) {
				if time.Since(t) > 20*time.Second {
					late = true
					return
				}
			}
		}
	}
	waves := 1
	if flush > 0 {
		waves += rng.Intn(6)
	}
	lost := false
	var got []string
	for k := 0; k < waves && !late; k++ {
		if down && k == waves/2 {
			// The server is away for a while. What is sent meanwhile may be lost, and a packet that finds the server back.
			got = append(got, sink.close()...)
			lost = true
			wave(true)
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			if sink = newSdSink(addr, max); sink == nil {
				s.Unregister()
				r.Add("port_taken", 1)
				return
			}
			// It must come to be served again.
			ok := false
			for t := time.Now(); time.Since(t) < 20*time.Second; time.Sleep(2 * time.Millisecond) {
				e := gen(0)
				e.do()
				total++
				if flush == 0 && total > 300 { // nothing makes it leave but more of them
					break
				}
				if sink.count() > 0 {
					ok = true
					break
				}
			}
			if flush > 0 && !ok {
				r.Viol("not-again", "no metric arrives in 20 s after the server is back; %s", desc)
				return
			}
			r.Add("server_away", 1)
			continue
		}
		wave(lost)
	}
	if late {
		r.Viol("late", "%d of %d metrics arrived 20 s after they were sent; %s", sink.count(), total, desc)
		return
	}
	fin := make(chan bool)
	go func() { s.Unregister(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(60 * time.Second):
		r.Viol("unregister", "Unregister does not return within 60 s; %s", desc)
		return
	}
	// Everything must be with the server now.
	over := sink.over
	got = append(got, sink.close()...)
	if over == "" {
		over = sink.over
	}
	if over != "" {
		r.Viol("packet-size", "a packet of several metrics has %d bytes; %s | %.300q", len(over), desc, over)
		return
	}
	seen := map[string]bool{}
	last := make([]int, G)
	for k := range last {
		last[k] = -1
	}
	for _, l := range got {
		p, ok := want[l]
		switch {
		case !ok:
			r.Viol("altered", "a metric %.200q arrives that was not sent; %s", l, desc)
			return
		case seen[l]:
			r.Viol("twice", "metric %.200q arrives twice; %s", l, desc)
			return
		case loops == 1 && rec == 0 && p&(1<<20-1) <= last[p>>20]:
			r.Viol("order", "metric %.200q of a goroutine arrives after a later one; %s", l, desc)
			return
		}
		seen[l] = true
		last[p>>20] = p & (1<<20 - 1)
	}
	if !lossy && !lost && len(seen) != total {
		r.Viol("lost", "%d of %d metrics arrive; %s", len(seen), total, desc)
		return
	}
	for t := time.Now(); runtime.NumGoroutine() > gor; time.Sleep(time.Millisecond) {
		if time.Since(t) > 20*time.Second {
			r.Viol("goroutines", "goroutines remain after Unregister: %d, there were %d; %s", runtime.NumGoroutine(), gor, desc)
			return
		}
	}
	r.Add("metrics_sent", int64(total))
	r.Add("metrics_received", int64(len(got)))
	if lossy {
		r.Add("metrics_overflown", int64(total-len(got)))
	}
	r.Add("cases", 1)
	r.Seen("clients", desc+fmt.Sprint(total, G))
	if i < 2 {
		r.Sample(map[string]interface{}{"client": desc, "metrics": total})
	}
}

func init() {
	reg("statsd", false, func(j *Job, r *Rep) {
		j.cases(func(i int) { statsdCase(j, r, i) })
	})
}
