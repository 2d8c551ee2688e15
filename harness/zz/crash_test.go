package zzverif

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/unit-io/unitdb"
)

// ---- recording of file operations --------------------------------------

type fop struct {
	op, name, name2 string
	b               []byte
	off             int64
	at              time.Time
}

func (o fop) String() string {
	switch o.op {
	case "write":
		return fmt.Sprintf("write %s [%d,+%d)", o.name, o.off, len(o.b))
	case "rename":
		return "rename " + o.name + " " + o.name2
	case "truncate":
		return fmt.Sprintf("truncate %s %d", o.name, o.off)
	}
	return o.op + " " + o.name
}

// recorder collects the operations under a directory that change files.
type recorder struct {
	mu  sync.Mutex
	dir string
	ops []fop
	bad string
}

func (rc *recorder) hook(op, name, name2 string, b []byte, off int64) error {
	n, ok := rc.rel(name)
	if !ok || op == "sync" || op == "opened" {
		return nil
	}
	o := fop{op: op, name: n, off: off, at: time.Now()}
	if op == "write" {
		o.b = append([]byte(nil), b...)
	}
	rc.mu.Lock()
	defer rc.mu.Unlock()
	if op == "rename" {
		if o.name2, ok = rc.rel(name2); !ok {
			rc.bad = "rename out of the directory"
		}
	}
	rc.ops = append(rc.ops, o)
	return nil
}

func (rc *recorder) rel(name string) (string, bool) {
	if name == rc.dir {
		return "", true
	}
	if !strings.HasPrefix(name, rc.dir+"/") {
		return "", false
	}
	return filepath.Clean(name[len(rc.dir)+1:]), true
}

func (rc *recorder) len() int {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	return len(rc.ops)
}

// fstate is the content of a directory; nil marks a directory.
type fstate map[string][]byte

func (s fstate) apply(o fop) {
	switch o.op {
	case "mkdir":
		if o.name != "" {
			s[o.name] = nil
		}
	case "open":
		f, ok := s[o.name]
		if !ok && o.off&int64(os.O_CREATE) != 0 || ok && o.off&int64(os.O_TRUNC) != 0 {
			f = []byte{}
			s[o.name] = f
		}
	case "write":
		f, ok := s[o.name]
		if !ok {
			return // written through a descriptor of a file that was removed
		}
		end := int(o.off) + len(o.b)
		n := len(f)
		if end > n {
			n = end
		}
		g := make([]byte, n)
		copy(g, f)
		copy(g[o.off:], o.b)
		s[o.name] = g
	case "truncate":
		f, ok := s[o.name]
		if !ok {
			return
		}
		g := make([]byte, o.off)
		copy(g, f)
		s[o.name] = g
	case "rename":
		if f, ok := s[o.name]; ok {
			delete(s, o.name)
			s[o.name2] = f
		}
	case "remove":
		delete(s, o.name)
	}
}

func (s fstate) clone() fstate {
	c := fstate{}
	for k, v := range s {
		c[k] = v // contents are never changed in place
	}
	return c
}

func (s fstate) write(dir string) error {
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	var names []string
	for n := range s {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := filepath.Join(dir, n)
		if s[n] == nil {
			if err := os.MkdirAll(p, 0777); err != nil {
				return err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
			return err
		}
		if err := os.WriteFile(p, s[n], 0666); err != nil {
			return err
		}
	}
	return nil
}

// differs compares the state with a directory.
func (s fstate) differs(dir string) string {
	seen := map[string]bool{}
	why := ""
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		n := p[len(dir)+1:]
		seen[n] = true
		f, ok := s[n]
		switch {
		case !ok:
			why = "not recorded: " + n
		case fi.IsDir() != (f == nil):
			why = "kind of " + n
		case !fi.IsDir():
			b, _ := os.ReadFile(p)
			if !bytes.Equal(b, f) {
				why = fmt.Sprintf("content of %s (%d bytes, recorded %d)", n, len(b), len(f))
			}
		}
		return nil
	})
	for n := range s {
		if !seen[n] {
			why = "only recorded: " + n
		}
	}
	return why
}

// ---- crash enumeration --------------------------------------------------

// cev tells when an operation on an entry began and was acknowledged.
type cev struct {
	from, ack int
	at        time.Time
}

func (v *cev) class(k int, torn bool, t time.Time, d time.Duration) int {
	b := k
	if torn {
		b++
	}
	switch {
	case v == nil || v.from >= b && v.ack > k:
		return evNo // had not begun: nothing of it was written
	case v.ack <= k && t.Sub(v.at) >= d:
		return evYes
	}
	return evMaybe
}

const (
	evNo = iota
	evMaybe
	evYes
)

type crashEnt struct {
	put, del *cev
	batch    bool
	atomic   bool
	delBatch bool
}

type crasher struct {
	r     *Rep
	rng   *rand.Rand
	base  string
	cfg   *engCfg
	e     *eng // the history
	info  map[*ment]*crashEnt
	junk  map[string]bool // payloads of aborted batches that were written explicitly
	seq   int
	stop  bool
	desc  string
	strip bool
}

func (c *crasher) viol(sig, f string, a ...interface{}) {
	if c.stop {
		return
	}
	c.stop = true
	c.r.Viol(sig, "%s | %s | history: %s", c.desc, fmt.Sprintf(f, a...), strings.Join(c.e.log, "; "))
}

// judge opens the database on a state a crash left and compares it with what
// was acknowledged. k is the crash point, t its time.
func (c *crasher) judge(st fstate, k int, torn bool, t time.Time, depth int) {
	c.seq++
	dir := filepath.Join(c.base, fmt.Sprintf("c%d", c.seq))
	if err := st.write(dir); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	nested := depth == 0 && c.rng.Intn(12) == 0
	rc := &recorder{dir: dir}
	if nested {
		setFSHook(rc.hook)
	}
	done := c.r.Guard("recovery")
	db, err := func() (db *unitdb.DB, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		return unitdb.Open(dir, c.cfg.opts...)
	}()
	if err != nil {
		setFSHook(nil)
		sig := "open-after-crash"
		if strings.HasPrefix(err.Error(), "panic") {
			sig = "panic-after-crash"
		}
		c.viol(sig, "Open after the crash: %v", err)
		done()
		return
	}
	if nested {
		time.Sleep(2 * time.Second)
		setFSHook(nil)
	}
	done()
	defer c.r.Guard("after recovery")()
	c.r.Add("recoveries", 1)
	e := newEng(c.r, c.rng, dir, c.cfg)
	e.db = db
	e.pfx = fmt.Sprintf("n%d_", c.seq)
	e.log = append(append([]string{}, c.e.log...), "CRASH "+c.desc)
	for p := range c.e.ever {
		e.ever[p] = true
	}
	// keep away from the edges of expiry
	for again := true; again; {
		again = false
		for m := range c.info {
			if d := m.exp - time.Now().Unix(); m.exp != 0 && d >= -2 && d <= 2 {
				again = true
			}
		}
		if again {
			time.Sleep(time.Second)
		}
	}
	now := time.Now()
	for _, tp := range c.cfg.topics {
		for _, ct := range c.cfg.contracts {
			got, err := db.Get(unitdb.NewQuery([]byte(tp)).WithContract(ct).WithLimit(10000))
			c.r.Add("recovered_gets", 1)
			if err != nil {
				c.viol("get-after-crash", "Get(%s,c%x) after the crash: %v", tp, ct, err)
				return
			}
			by := map[string]*ment{}
			for m := range c.info {
				if m.topic == tp && m.contract == ct {
					by[m.payload] = m
				}
			}
			var last *ment
			seen := map[*ment]bool{}
			var all []string
			for _, b := range got {
				all = append(all, string(b))
			}
			for _, p := range all {
				m := by[p]
				if m == nil {
					if c.junk[p] {
						continue
					}
					if c.e.ever[p] {
						c.viol("crash-extra", "Get(%s,c%x) returns %q, which was never put there: %s", tp, ct, short(p), shorts(all))
					} else {
						c.viol("crash-corrupt", "Get(%s,c%x) returns %q, which was never put: %s", tp, ct, short(p), shorts(all))
					}
					return
				}
				in := c.info[m]
				if seen[m] {
					c.viol("crash-duplicate", "Get(%s,c%x) returns %q twice: %s", tp, ct, short(p), shorts(all))
					return
				}
				seen[m] = true
				if in.put.class(k, torn, t, 0) == evNo {
					c.viol("crash-future", "Get(%s,c%x) returns %q, put after the crash", tp, ct, short(p))
					return
				}
				if in.del.class(k, torn, t, time.Second) == evYes {
					c.viol("crash-undeleted", "Get(%s,c%x) returns %q, deleted %v before the crash: %s", tp, ct, short(p), t.Sub(in.del.at), shorts(all))
					return
				}
				if m.exp != 0 && m.exp < now.Unix() {
					c.viol("crash-expired", "Get(%s,c%x) returns %q, expired: %s", tp, ct, short(p), shorts(all))
					return
				}
				if last != nil && last.seq <= m.seq {
					c.viol("crash-order", "Get(%s,c%x) is not newest first at %q: %s", tp, ct, short(p), shorts(all))
					return
				}
				last = m
			}
			for _, m := range c.e.m.ents {
				if m.topic != tp || m.contract != ct || seen[m] || m.exp != 0 && m.exp < now.Unix() {
					continue
				}
				in := c.info[m]
				d := time.Second
				if in.batch {
					d = 0
				}
				if in.put.class(k, torn, t, d) == evYes && in.del.class(k, torn, t, 0) == evNo {
					c.viol("crash-lost", "Get(%s,c%x) lacks %q (seq %d), acknowledged %v before the crash: %s", tp, ct, short(m.payload), m.seq, t.Sub(in.put.at), shorts(all))
					return
				}
			}
			for m := range seen {
				e.m.ents = append(e.m.ents, &ment{seq: m.seq, id: m.id, topic: m.topic, contract: m.contract, payload: m.payload,
					exp: m.exp, put: m.put, at: m.at, enc: m.enc})
			}
			c.r.Add("recovered_messages", int64(len(all)))
		}
	}
	// batches are recovered as a whole
	type cnt struct{ in, out int }
	groups := map[int]*cnt{}
	have := map[string]bool{}
	for _, m := range e.m.ents {
		have[m.payload] = true
		if m.seq > e.m.seq {
			e.m.seq = m.seq
		}
	}
	for _, m := range c.e.m.ents {
		in := c.info[m]
		if m.group == 0 || !in.atomic || m.exp != 0 && m.exp < now.Unix() || in.del != nil {
			continue
		}
		g := groups[m.group]
		if g == nil {
			g = &cnt{}
			groups[m.group] = g
		}
		if have[m.payload] {
			g.in++
		} else {
			g.out++
		}
	}
	for _, m := range c.e.m.ents {
		if g := groups[m.group]; g != nil && g.in > 0 && g.out > 0 {
			c.viol("crash-batch", "%d of %d messages of the batch of %q are there", g.in, g.in+g.out, short(m.payload))
			return
		}
	}
	if len(groups) > 0 {
		c.r.Add("batches_judged", int64(len(groups)))
	}
	if len(c.junk) > 0 {
		// What is left of written and aborted batches would be in the way of the model.
		db.Close()
		return
	}
	if nested {
		// Crash again while the database recovers.
		n := len(rc.ops)
		for i := 0; i < 6 && n > 0 && !c.stop; i++ {
			j := c.rng.Intn(n + 1)
			s2 := st.clone()
			for _, o := range rc.ops[:j] {
				s2.apply(o)
			}
			d0 := c.desc
			c.desc += fmt.Sprintf(", then after %d of %d operations of the recovery", j, n)
			c.r.Add("nested_crashes", 1)
			c.judge(s2, k, torn, t, 1)
			c.desc = d0
		}
		if c.stop {
			return
		}
	}
	// Go on with the recovered database.
	e.ordered()
	n := 2 + c.rng.Intn(8)
	for i := 0; i < n && !e.bad; i++ {
		e.step()
		e.tick()
	}
	if !e.bad {
		e.checkAll()
	}
	if !e.bad && e.db != nil && c.rng.Intn(2) == 0 {
		e.reopen()
	}
	if e.bad {
		c.stop = true
	}
	if e.db != nil {
		if err := e.db.Close(); err != nil && !e.bad {
			c.viol("close-after-crash", "Close: %v", err)
		}
	}
}

// ordered is for histories whose limits are judged loosely.
func (e *eng) ordered() { e.cfg.ordered = false }

func init() {
	reg("crash", true, func(j *Job, r *Rep) {
		if setFSHook == nil {
			panic("the crash monitor needs the os variant")
		}
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			cfg := &engCfg{
				topics:    pickTopics(rng, 1+rng.Intn(3)),
				contracts: []uint32{master},
				opts:      []unitdb.Options{unitdb.WithMutable()},
				payload: func(rng *rand.Rand, u string) string {
					if rng.Intn(8) == 0 {
						return mixPayload(rng, u)
					}
					return u + "~" + strings.Repeat("ab", rng.Intn(30))
				},
				put: j.Int("put", 20), putc: j.Int("putc", 0), ttl: j.Int("ttl", 0), maxTTL: []int{30, 300, 3000}[rng.Intn(3)], batch: j.Int("batch", 0), abort: j.Int("abort", 0),
				del: j.Int("del", 0), newid: j.Int("newid", 0), sleep: j.Int("sleep", 10), sync: j.Int("sync", 2),
				reopen: j.Int("reopen", 0), enc: j.Int("enc", 0), bdel: j.Int("bdel", 0),
				purge: j.Int("purge", 0), allids: j.Bool("allids"), deldup: j.Int("deldup", 0),
				maxSleep: time.Duration(j.Int("maxsleep", 2500)) * time.Millisecond,
				deflimit: 1000,
				ops:      j.Int("ops", 30),
			}
			if j.Int("free", 0) > 0 {
				cfg.opts = append(cfg.opts, unitdb.WithFreeBlockSize(int64(1+rng.Intn(j.Int("free", 0)))))
			}
			if j.Bool("bgexp") {
				cfg.opts = append(cfg.opts, unitdb.WithBackgroundKeyExpiry())
			}
			if j.Bool("config") {
				cfg.opts = append(cfg.opts, randomConfig(rng)...)
			}
			if cfg.putc > 0 {
				cfg.contracts = append(cfg.contracts, 0xdeadbeef)
			}
			if n := j.Int("ntopics", 0); n > 0 {
				cfg.topics = pickTopics(rng, n)
			}
			if j.Bool("small") {
				cfg.payload = func(rng *rand.Rand, u string) string { return u + "~" + strings.Repeat("ab", rng.Intn(8)) }
			}
			r.Case(i, strings.Join(cfg.topics, ","))
			base := filepath.Join(j.Dir, fmt.Sprintf("x%d", i))
			os.MkdirAll(base, 0777)
			dir := filepath.Join(base, "db")
			rc := &recorder{dir: dir}
			e := newEng(r, rng, dir, cfg)
			c := &crasher{r: r, rng: rng, base: base, cfg: cfg, e: e, info: map[*ment]*crashEnt{}, junk: map[string]bool{}}
			setFSHook(rc.hook)
			if e.open() {
				for n := 0; n < cfg.ops && !e.bad; n++ {
					done := r.Guard("operation")
					a, n0, nlog := rc.len(), len(e.m.ents), len(e.log)
					var live []*ment
					for _, m := range e.m.ents {
						if !m.deleted {
							live = append(live, m)
						}
					}
					u0 := e.uniq
					e.step()
					ev := &cev{a, rc.len(), time.Now()}
					line := ""
					if nlog < len(e.log) {
						line = e.log[nlog]
						e.log[nlog] += fmt.Sprintf("@%d-%d", a, ev.ack)
					}
					for _, m := range e.m.ents[n0:] {
						c.info[m] = &crashEnt{put: ev, batch: m.group > 0, atomic: m.group > 0 && !strings.Contains(line, "write=true")}
					}
					if strings.Contains(line, "abort=true,write=true") {
						for u := u0 + 1; u <= e.uniq; u++ {
							for p := range e.ever {
								if strings.HasPrefix(p, fmt.Sprintf("m%d~", u)) {
									c.junk[p] = true
								}
							}
						}
					}
					for _, m := range live {
						if m.deleted {
							c.info[m].del = ev
							c.info[m].delBatch = strings.HasPrefix(line, "batch-del")
						}
					}
					done()
					e.tick()
				}
			}
			if !e.bad {
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Millisecond)
				if rng.Intn(2) == 0 {
					if err := e.db.Close(); err != nil {
						e.viol("close-error", "Close: %v", err)
					}
					e.db = nil
				}
			}
			end := time.Now()
			nops := rc.len()
			if !e.bad {
				// The recording must explain the directory, or the crash states mean nothing.
				st := fstate{}
				for _, o := range rc.ops[:nops] {
					st.apply(o)
				}
				if why := st.differs(dir); why != "" || rc.bad != "" {
					panic("recording does not explain the directory: " + why + rc.bad)
				}
			}
			setFSHook(nil)
			if e.db != nil {
				e.db.Close()
			}
			r.Add("file_operations", int64(nops))
			maxPts := j.Int("points", 400)
			step := 1
			if nops > maxPts {
				step = (nops + maxPts - 1) / maxPts
			}
			st := fstate{}
			for k := 0; k <= nops && !e.bad && !c.stop; k++ {
				t := end
				if k < nops {
					t = rc.ops[k].at
				}
				if step == 1 || rng.Intn(step) == 0 || k < nops && len(rc.ops[k].b) > 4096 && rng.Intn(4) == 0 {
					o := fop{op: "end"}
					if k < nops {
						o = rc.ops[k]
					}
					r.Add("crash_points", 1)
					f := o.name
					if strings.HasSuffix(f, ".log") || strings.HasSuffix(f, ".tmp") {
						f = filepath.Ext(f)
					}
					r.Seen("crash_kinds", o.op+" "+f)
					lo := k - 14
					if lo < 0 {
						lo = 0
					}
					before := ""
					for x := lo; x < k; x++ {
						before += fmt.Sprintf(" %d:%v", x, rc.ops[x])
					}
					c.desc = fmt.Sprintf("crash before file operation %d/%d (%s), after%s", k, nops, o, before)
					c.judge(st.clone(), k, false, t, 0)
					if o.op == "write" && !c.stop {
						// torn at a page boundary: the write was under way when the process died
						var cuts []int
						for x := (int(o.off)/4096 + 1) * 4096; x < int(o.off)+len(o.b); x += 4096 {
							cuts = append(cuts, x-int(o.off))
						}
						if len(cuts) > 0 {
							x := cuts[rng.Intn(len(cuts))]
							s2 := st.clone()
							s2.apply(fop{op: "write", name: o.name, off: o.off, b: o.b[:x]})
							c.desc = fmt.Sprintf("crash within file operation %d/%d (%s) after %d bytes, after%s", k, nops, o, x, before)
							r.Add("torn_writes", 1)
							c.judge(s2, k, true, t, 0)
						}
					}
				}
				if k < nops {
					st.apply(rc.ops[k])
				}
			}
			if i == j.From {
				l := e.log
				if len(l) > 25 {
					l = l[:25]
				}
				r.Sample(map[string]interface{}{"case": i, "topics": cfg.topics, "first_ops": l, "file_operations": nops})
			}
			r.Add("cases", 1)
			r.Seen("histories", strings.Join(e.log, ";"))
			os.RemoveAll(base)
		})
	})
}
