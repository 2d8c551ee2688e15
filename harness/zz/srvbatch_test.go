package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"time"
)

// ---- batches and delays ----

type timed struct {
	c       *cli
	payload string
	at      time.Time
	lo, hi  time.Duration
	notify  bool
	what    string
}

const batchTick = 101 * time.Millisecond // the server looks for due batches every 100 ms, times are in ms

// timing notes when a message is due at each client that has one subscription for it.
func (s *scen) timing(c *cli, mode int32, m pubMsg) (ts []timed) {
	for _, o := range s.clis {
		if !o.open || o.contract != c.contract {
			continue
		}
		var one *sub
		n := 0
		for t, x := range o.subs {
			if matches(t, m.topic) {
				one = x
				n++
			}
		}
		if n != 1 {
			continue
		}
		x := timed{c: o, payload: m.payload, at: time.Now()}
		dur := time.Duration(o.bDur) * time.Millisecond
		delay := time.Duration(one.delay) * time.Millisecond
		switch {
		case mode > 0 && one.mode > 0:
			x.notify = true
			x.what = "with a NOTIFY"
		case one.mode == 2 || one.delay > 0:
			x.lo, x.hi, x.what = delay-time.Millisecond, delay+dur+batchTick, "in a batch"
			if o.bCount < 1000 || o.bBytes < 1<<20 {
				x.lo = 0 // a batch that is full is sent before
			}
			if int(o.bBytes) < len(m.payload) || o.bCount == 0 {
				x.lo, x.hi, x.what = 0, 0, "at once, as it fills a batch"
			}
		default:
			x.what = "at once"
		}
		ts = append(ts, x)
	}
	return
}

func (s *scen) checkTimed(ts []timed) {
	for _, x := range ts {
		x.c.mu.Lock()
		g := x.c.s.got[x.payload]
		if g != nil && g.n == 1 {
			d := g.at[0].Sub(x.at)
			if d < x.lo || d > x.hi {
				s.viol("delivery-time", "%s received %s after %v, it is to be delivered %s, after %v to %v (batch duration %d ms, thresholds %d messages, %d bytes)", x.c.name, short(x.payload), d, x.what, x.lo, x.hi, x.c.bDur, x.c.bCount, x.c.bBytes)
			}
			s.r.Add("delivery times checked", 1)
			s.r.Seen("deliveries", fmt.Sprint(x.what, x.lo > 0))
		}
		x.c.mu.Unlock()
	}
}

// checkSizes checks that no batch is larger than the client asked for.
func (s *scen) checkSizes() {
	for _, c := range s.clis {
		c.mu.Lock()
		for _, b := range c.batches {
			n, size := len(b), 0
			for _, l := range b[:n-1] {
				size += l
			}
			if n > 1 && (n-1 > int(c.bCount) || size > int(c.bBytes)) {
				s.viol("batch-size", "%s received %d messages in one PUBLISH, %d bytes before the last one: its thresholds are %d messages and %d bytes", c.name, n, size, c.bCount, c.bBytes)
			}
			s.r.Add("batches received", 1)
			s.r.Add("messages received in batches", int64(n))
		}
		c.batches = nil
		c.mu.Unlock()
	}
}

// volley publishes messages at one instant to a topic: those that fill batches of a
// subscriber are delivered at once.
func (s *scen) volley(c *cli) {
	topic := s.stat[s.rng.Intn(len(s.stat))]
	c.keyed(topic, "w")
	s.quiet()
	s.pass(8 * time.Second) // nothing is pending
	s.quiet()
	s.account(false)
	n := 1 + s.rng.Intn(40)
	at := time.Now()
	var ps []string
	for k := 0; k < n; {
		var ms []pubMsg
		for x := 1 + s.rng.Intn(5); x > 0 && k < n; x-- {
			p := s.payload()
			ps = append(ps, p)
			ms = append(ms, pubMsg{topic, p})
			k++
		}
		c.publish(0, ms, nil)
	}
	s.quiet()
	for _, o := range s.clis {
		if !o.open || o.contract != c.contract {
			continue
		}
		o.mu.Lock()
		match := 0
		var one *sub
		for t, x := range o.subs {
			if matches(t, topic) {
				match++
				one = x
			}
		}
		if match == 1 && (one.mode == 2 || one.delay > 0) {
			left, bytes := 0, 0
			for _, p := range ps {
				if g := o.s.got[p]; g == nil {
					left++
					bytes += len(p)
				} else if !g.at[0].Equal(at) {
					s.viol("harness", "time passed")
				}
			}
			if left > int(o.bCount) || bytes > int(o.bBytes) {
				s.viol("full-batch-waits", "%s: %d messages with %d bytes of %d published at once are pending, its thresholds are %d messages and %d bytes", o.name, left, bytes, n, o.bCount, o.bBytes)
			}
			s.r.Add("volleys checked", 1)
			s.r.Seen("volleys", fmt.Sprint(left > 0, left < n))
		}
		o.mu.Unlock()
	}
	s.r.Add("volleys", 1)
}

func srvBatch(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 2, perContract: 4, topics: 4, wild: i%2 == 1, secure: 20, batch: true, delays: true, modes: 3}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		s := newScen(j, r, i, cfg)
		if s == nil {
			return
		}
		for _, c := range s.clis {
			for _, t := range s.stat {
				c.keyed(t, "w")
			}
		}
		for n := j.Int("ops", 50); n > 0 && r.nviol == 0; n-- {
			c := s.pick()
			r.Add("operations", 1)
			switch k := s.rng.Intn(20); {
			case k < 6:
				c.subscribe(s.subT[s.rng.Intn(len(s.subT))], []int32{0, 2, 2, 1}[s.rng.Intn(4)], s.delay())
				s.settle()
			case k < 7:
				if t := s.someSub(c); t != "" {
					c.unsubscribe(t)
					s.settle()
				}
			case k < 10:
				s.volley(c)
				s.pass(5 * time.Second)
				s.quiet()
			default:
				var ts []timed
				for m := 1 + s.rng.Intn(25); m > 0; m-- {
					c := s.pick()
					mode := []int32{0, 0, 0, 1, 2}[s.rng.Intn(5)]
					ms := s.pubs(1 + s.rng.Intn(3))
					for _, x := range ms {
						ts = append(ts, s.timing(c, mode, x)...)
					}
					c.publish(mode, ms, nil)
					if s.rng.Intn(2) == 0 {
						s.quiet()
						s.pass(time.Duration(s.rng.Intn(400)) * time.Millisecond)
						s.quiet()
					}
				}
				s.settle()
				s.checkTimed(ts)
			}
			s.quiet()
			s.checkSizes()
		}
		s.settle()
		s.account(true)
		s.stop()
		os.RemoveAll(s.dir)
	})
}

var _ = rand.Intn

func init() {
	reg("srvbatch", true, srvBatch)
}
