package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"testing/synctest"
	"time"
)

// srvTopics draws topics of a depth and length that are told apart by their hashes.
func srvTopics(rng *rand.Rand, n int, wild bool) (stat, subs []string) {
	al := []string{"teams", "alpha", "channel1", "bravo22", "x"}
	seen := map[string]bool{}
	for len(stat) < n {
		d := 1 + rng.Intn(4)
		ps := make([]string, d)
		for i := range ps {
			ps[i] = al[rng.Intn(len(al))]
		}
		if d == 1 {
			ps[0] = "single-" + ps[0]
		}
		t := strings.Join(ps, ".")
		if !seen[t] {
			seen[t] = true
			stat = append(stat, t)
		}
	}
	subs = append(subs, stat...)
	for i := 0; wild && i < 2+rng.Intn(3); i++ {
		ps := strings.Split(stat[rng.Intn(n)], ".")
		switch {
		case rng.Intn(6) == 0:
			ps = []string{"..."}
		case rng.Intn(2) == 0:
			ps[rng.Intn(len(ps))] = "*"
		default:
			if k := rng.Intn(len(ps)); k > 0 {
				ps = ps[:k]
			}
			ps[len(ps)-1] += "..."
		}
		if t := strings.Join(ps, "."); !seen[t] {
			seen[t] = true
			subs = append(subs, t)
		}
	}
	return
}

type srvCfg struct {
	contracts, perContract int
	topics                 int
	wild                   bool
	secure                 int // percent of clients
	batch                  bool
	delays                 bool
	rejoin, restart        bool
	modes                  int // subscription and publish modes below this
}

type scen struct {
	*world
	cfg        srvCfg
	stat, subT []string
}

// newScen starts a server and connects clients of some contracts.
func newScen(j *Job, r *Rep, i int, cfg srvCfg) *scen {
	rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
	w := &world{r: r, rng: rng, dir: srvDir(j, i), mem: 1 << 20, kinds: !cfg.rejoin && !cfg.restart, nets: j.Bool("net")}
	s := &scen{world: w, cfg: cfg}
	s.stat, s.subT = srvTopics(rng, cfg.topics, cfg.wild)
	time.Sleep(time.Duration(rng.Int63n(int64(time.Second)))) // the virtual clock starts at a full second
	if !w.start(i, w.dir) {
		return nil
	}
	nc := 1 + rng.Intn(cfg.contracts)
	for k := 0; k < nc; k++ {
		var first *cli
		for n := 1 + rng.Intn(cfg.perContract); n > 0; n-- {
			c := w.newCli(fmt.Sprintf("c%d.%d", k, n), k)
			c.insecure = rng.Intn(100) >= cfg.secure
			if rng.Intn(3) == 0 {
				c.chunk = 1 + rng.Intn(40)
			}
			c.sessKey = int32(1 + len(w.clis))
			if rng.Intn(2) == 0 && first == nil {
				c.sessKey = 0
			}
			if cfg.batch {
				c.bDur = int32(1 + rng.Intn(900))
				c.bCount = int32(rng.Intn(12))
				c.bBytes = int32(rng.Intn(4000))
				if rng.Intn(3) == 0 {
					c.bCount, c.bBytes = 1000, 1<<20
				}
			}
			if first == nil {
				if !c.register(nil) {
					return nil
				}
				first = c
			} else {
				w.pass(time.Second)
				c.register(first)
				w.pass(time.Second) // IDs are told apart by the second
			}
			c.connect(false)
			w.quiet()
			if rng.Intn(2) == 0 {
				for _, t := range s.stat {
					c.keyed(t, "w")
				}
				for _, t := range s.subT {
					c.keyed(t, "r")
				}
			}
		}
	}
	w.r.Add("server runs", 1)
	return s
}

func (s *scen) pick() *cli { return s.clis[s.rng.Intn(len(s.clis))] }

func (s *scen) up() (cs []*cli) {
	for _, c := range s.clis {
		if c.open {
			cs = append(cs, c)
		}
	}
	return
}

func (s *scen) mode() int32 { return int32(s.rng.Intn(s.cfg.modes)) }

func (s *scen) delay() int32 {
	if s.cfg.delays && s.rng.Intn(3) == 0 {
		return int32(s.rng.Intn(3000))
	}
	return 0
}

func (s *scen) someSub(c *cli) string {
	var ts []string
	for _, t := range s.subT {
		if c.subs[t] != nil {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return ""
	}
	return ts[s.rng.Intn(len(ts))]
}

func (s *scen) pubs(n int) (ms []pubMsg) {
	for ; n > 0; n-- {
		ms = append(ms, pubMsg{s.stat[s.rng.Intn(len(s.stat))], s.payload()})
	}
	return
}

// settle lets pass the time that batches take and accounts for what was received.
func (s *scen) settle() {
	s.quiet()
	if s.cfg.batch || s.cfg.delays {
		s.pass(5 * time.Second)
	}
	s.quiet()
	s.checkAcks()
	s.account(false)
}

// burst lets several clients act at the same time.
func (s *scen) burst() {
	cs := s.up()
	s.rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	if n := 2 + s.rng.Intn(3); len(cs) > n {
		cs = cs[:n]
	}
	for _, c := range cs { // keys are requested before
		for _, t := range s.stat {
			c.keyed(t, "w")
		}
		for _, t := range s.subT {
			c.keyed(t, "r")
		}
	}
	changing := map[string]bool{}
	var subs, acts, notes []func()
	for _, c := range cs {
		c := c
		if s.rng.Intn(3) == 0 {
			if t := s.someSub(c); t != "" && s.rng.Intn(2) == 0 {
				changing[c.name+"|"+t] = true
				acts = append(acts, func() { c.sendUnsub(t) })
				notes = append(notes, func() { c.noteUnsub(t) })
			} else {
				t := s.subT[s.rng.Intn(len(s.subT))]
				if c.subs[t] == nil {
					changing[c.name+"|"+t] = true
				}
				m, d := s.mode(), s.delay()
				subs = append(subs, func() { c.subscribe(t, m, d) })
			}
			continue
		}
		for n := 1 + s.rng.Intn(6); n > 0; n-- {
			m, ms := s.mode(), s.pubs(1+s.rng.Intn(3))
			acts = append(acts, func() {
				c.publish(m, ms, func(o *cli, t string) bool { return changing[o.name+"|"+t] })
			})
		}
	}
	s.rng.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
	// A subscription that starts counts from the start of the burst, one that ends
	// until its end: messages for either may or may not be delivered.
	for _, f := range append(append(subs, acts...), notes...) {
		f()
	}
	s.r.Add("bursts", 1)
	s.settle()
}

func (c *cli) pongs() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.pings
}

func (s *scen) step() {
	c := s.pick()
	if !c.open {
		return
	}
	s.r.Add("operations", 1)
	switch k := s.rng.Intn(20); {
	case k < 5:
		c.subscribe(s.subT[s.rng.Intn(len(s.subT))], s.mode(), s.delay())
		if s.rng.Intn(8) == 0 {
			s.quiet()
		} else {
			s.settle()
		}
	case k < 7:
		if t := s.someSub(c); t != "" {
			c.unsubscribe(t)
			s.settle()
		}
	case k < 14:
		s.quiet()
		c.publish(s.mode(), s.pubs(1+s.rng.Intn(3)), nil)
		if s.rng.Intn(3) == 0 {
			s.settle()
		} else {
			s.quiet()
		}
	case k < 16:
		s.quiet()
		n := c.pongs()
		c.send(6, 0, nil)
		s.quiet()
		if m := c.pongs(); m != n+1 {
			s.viol("ping", "%s: %d answers to a PINGREQ", c.name, m-n)
		}
	default:
		s.burst()
	}
}

// slow has a client stop reading for less than the 30 s for which the server waits to
// hand over a message, while others publish.
func (s *scen) slow() {
	c := s.pick()
	if !c.open {
		return
	}
	s.settle()
	if s.rng.Intn(2) == 0 {
		// Something that it surely gets.
		c.subscribe(s.stat[s.rng.Intn(len(s.stat))], s.mode(), 0)
		s.settle()
	}
	c.reads(false)
	d := time.Duration(0)
	for n := 1 + s.rng.Intn(25); n > 0; n-- {
		o := s.pick()
		if o == c || !o.open || o.contract != c.contract && s.rng.Intn(4) > 0 {
			continue
		}
		ready := true // a key is requested before
		ms := s.pubs(1 + s.rng.Intn(3))
		for _, m := range ms {
			if !o.insecure && o.keys[m.topic+"|w"] == "" {
				ready = false
			}
		}
		if ready {
			o.publish(s.mode(), ms, nil)
			s.r.Add("publishes while a subscriber does not read", 1)
		}
		if s.rng.Intn(3) == 0 && d < 20*time.Second {
			t := time.Duration(s.rng.Int63n(int64(3 * time.Second)))
			d += t
			time.Sleep(t)
		}
	}
	if s.rng.Intn(2) == 0 {
		t := time.Duration(s.rng.Int63n(int64(25*time.Second - d)))
		time.Sleep(t)
	}
	c.reads(true)
	s.r.Add("pauses of subscribers", 1)
	s.settle()
}

func srvRoute(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 3, perContract: 4, topics: 6, wild: i%2 == 1, secure: 40, batch: i%3 == 2, delays: i%4 == 3, modes: 3}
		if j.Bool("bursts") {
			cfg.perContract = 6
		}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		s := newScen(j, r, i, cfg)
		if s == nil {
			return
		}
		for n := j.Int("ops", 60); n > 0 && r.nviol == 0; n-- {
			if j.Bool("bursts") {
				s.burst()
			} else if s.rng.Intn(10) == 0 {
				s.slow()
			} else {
				s.step()
			}
		}
		s.settle()
		s.account(true)
		s.stop()
		os.RemoveAll(s.dir)
	})
}

// ---- reliable delivery and sessions ----

// leaveNow ends a connection. What was published since the messages in firm may or
// may not have reached the session.
func (s *scen) leaveNow(c *cli, polite bool, firm map[string]int) {
	c.leave(polite)
	c.mu.Lock()
	for p, n := range c.s.want {
		if firm != nil && n > firm[p] {
			c.s.may[p] += n - firm[p]
			if firm[p] == 0 {
				delete(c.s.want, p)
			} else {
				c.s.want[p] = firm[p]
			}
		}
	}
	c.mu.Unlock()
	s.r.Add("connections left", 1)
}

// rejoin opens a connection again.
func (s *scen) rejoin(c *cli, clean bool) {
	if clean {
		// What was not delivered is given up.
		c.mu.Lock()
		for p, n := range c.s.want {
			g := c.s.got[p]
			if g == nil {
				delete(c.s.want, p)
			} else if g.n < n {
				c.s.want[p] = g.n
			}
		}
		for p := range c.s.may {
			if g := c.s.got[p]; g == nil {
				delete(c.s.may, p)
			}
		}
		c.mu.Unlock()
		s.r.Add("clean sessions", 1)
	} else {
		s.r.Add("sessions resumed", 1)
		c.mu.Lock()
		s.r.Add("messages pending when a session was resumed", int64(len(c.s.ids)))
		if len(c.s.ids) > 0 {
			s.r.Seen("states of messages pending when a session was resumed", stateSet(c.s.ids))
		}
		c.mu.Unlock()
	}
	before := len(c.s.seen)
	c.connect(clean)
	s.quiet()
	if clean && len(c.s.seen) > before {
		s.viol("delivered-to-clean-session", "%s received %v after it connected with a clean session", c.name, shorts(c.s.seen[before:]))
	}
}

func stateSet(ids map[int32]*slot) string {
	n := [6]int{}
	for _, sl := range ids {
		k := sl.state
		if n[k]++; n[k] > 2 {
			n[k] = 2
		}
	}
	return fmt.Sprint(n)
}

func firmOf(c *cli) map[string]int {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := map[string]int{}
	for p, n := range c.s.want {
		m[p] = n
	}
	return m
}

// cut lets connections end while messages are on their way.
func (s *scen) cut() {
	s.settle()
	cs := s.up()
	if len(cs) < 2 {
		return
	}
	firm := map[*cli]map[string]int{}
	for _, c := range cs {
		firm[c] = firmOf(c)
		for _, t := range s.stat {
			c.keyed(t, "w")
		}
	}
	s.rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	k := 1 + s.rng.Intn(len(cs)-1)
	for n := 1 + s.rng.Intn(10); n > 0; n-- {
		c := cs[k+s.rng.Intn(len(cs)-k)]
		c.publish(s.mode(), s.pubs(1+s.rng.Intn(3)), nil)
	}
	for _, c := range cs[:k] {
		for n := s.rng.Intn(300); n > 0; n-- {
			runtime.Gosched()
		}
		s.leaveNow(c, s.rng.Intn(3) == 0, firm[c])
	}
	s.r.Add("cuts", 1)
	s.settle()
}

func (s *scen) restart(kill bool) {
	s.settle()
	s.pass(3 * time.Second)
	s.quiet()
	old := s.srv
	dir := s.dir
	if kill {
		dir = s.dir + "k"
		if err := copyDir(s.dir, dir); err != nil {
			s.r.Viol("harness", "copy: %v", err)
			return
		}
	}
	for _, c := range s.up() {
		s.leaveNow(c, false, nil)
	}
	synctest.Wait()
	old.close()
	synctest.Wait()
	if kill {
		os.RemoveAll(s.dir)
		s.dir = dir
		s.r.Add("restarts after a kill", 1)
	} else {
		s.r.Add("restarts", 1)
	}
	s.logf("restart kill=%v", kill)
	s.start(0, s.dir)
}

func srvRel(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 2, perContract: 3, topics: 4, secure: 20, rejoin: true, restart: j.Bool("restart"), modes: 3, batch: i%4 == 3}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		s := newScen(j, r, i, cfg)
		if s == nil {
			return
		}
		for n := j.Int("ops", 70); n > 0 && r.nviol == 0 && s.srv != nil; n-- {
			c := s.pick()
			s.r.Add("operations", 1)
			switch k := s.rng.Intn(20); {
			case !c.open:
				if k < 12 {
					s.rejoin(c, s.rng.Intn(6) == 0)
					for _, t := range s.stat {
						if s.rng.Intn(2) == 0 {
							c.subscribe(t, s.mode(), 0)
						}
					}
					s.settle()
				}
			case k < 2:
				c.subscribe(s.stat[s.rng.Intn(len(s.stat))], s.mode(), 0)
				s.settle()
			case k < 5:
				c.mu.Lock()
				c.holdNotify = s.rng.Intn(2) == 0
				c.holdReceipt = s.rng.Intn(2) == 0
				c.holdAck = s.rng.Intn(2) == 0
				c.mu.Unlock()
			case k < 12:
				for m := 1 + s.rng.Intn(4); m > 0; m-- {
					c.publish(s.mode(), s.pubs(1+s.rng.Intn(2)), nil)
				}
				s.settle()
			case k < 13:
				c.release()
				s.settle()
			case k < 15:
				s.settle()
				s.leaveNow(c, s.rng.Intn(2) == 0, nil)
				s.quiet()
			case k < 18:
				s.cut()
			default:
				if cfg.restart && s.rng.Intn(2) == 0 {
					s.restart(s.rng.Intn(3) > 0)
				}
			}
		}
		if r.nviol == 0 {
			for _, c := range s.clis {
				if c.open {
					c.release()
				} else {
					c.holdNotify, c.holdReceipt, c.holdAck = false, false, false
					s.rejoin(c, false)
				}
			}
			s.settle()
			s.pass(5 * time.Second)
			s.quiet()
			s.account(true)
		}
		s.stop()
		os.RemoveAll(s.dir)
	})
}

func init() {
	reg("srvrel", true, srvRel)
	reg("srvroute", true, srvRoute)
}
