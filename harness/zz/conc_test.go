package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
)

type fsHookFn func(op, name, name2 string, b []byte, off int64) error

// setFSHook is nil unless the harness is built with the os overlay.
var setFSHook func(h fsHookFn)

// centry is an entry put by a worker. The stamps are positions in the total
// order of starts and ends of operations; 0 means never.
type centry struct {
	topic      string
	contract   uint32
	payload    string
	seq0, seq1 int64 // the operation that assigned its sequence
	put0, put1 int64 // the operation that made it visible
	del0, del1 int64
	id         []byte
	bad        bool // the operation failed (only while the DB is being closed)
	aborted    bool // of an aborted batch: visible, if at all, before the batch ended
	batch      int
}

type cget struct {
	topic    string
	contract uint32
	limit    int
	t0, t1   int64
	got      []string
}

type cworker struct {
	c         *conc
	id        int
	rng       *rand.Rand
	n         int
	es        []*centry
	gets      []cget
	ids       [][]byte
	nget, nop int64
	nshared   int64
}

type conc struct {
	r        *Rep
	j        *Job
	dir      string
	opts     []unitdb.Options
	db       *unitdb.DB
	clk      int64
	record   bool
	closing  int32
	topics   []string
	contract []uint32
	round    int
	all      []*centry // of earlier rounds
	bad      int32
	real     bool                     // real time: pauses are short
	queries  map[string]*unitdb.Query // queries that are made once and used by all goroutines
}

func (c *conc) viol(sig, f string, a ...interface{}) {
	if atomic.AddInt32(&c.bad, 1) > 3 {
		return
	}
	c.r.Viol(sig, f, a...)
}

func (c *conc) now() int64 {
	if !c.record {
		return 1
	}
	return atomic.AddInt64(&c.clk, 1)
}

func (w *cworker) payload() string {
	w.n++
	u := fmt.Sprintf("r%d.w%d.%d", w.c.round, w.id, w.n)
	switch w.rng.Intn(12) {
	case 0:
		b := make([]byte, w.rng.Intn(5000))
		w.rng.Read(b)
		return u + "~" + string(b)
	case 1:
		return u + "~" + strings.Repeat("q", w.rng.Intn(6000))
	}
	return u + "~" + strings.Repeat(u, w.rng.Intn(4))
}

func (w *cworker) entry() *centry {
	return &centry{topic: w.c.topics[w.rng.Intn(len(w.c.topics))], contract: w.c.contract[w.rng.Intn(len(w.c.contract))], payload: w.payload()}
}

// failed judges the error of an operation: only a DB that is being closed returns one.
func (w *cworker) failed(what string, err error) bool {
	if err == nil {
		return false
	}
	if atomic.LoadInt32(&w.c.closing) == 0 {
		w.c.viol("conc-error:"+what, "%s returned %v while nothing closed the DB", what, err)
	}
	return true
}

func (w *cworker) put(reserved bool) bool {
	c := w.c
	e := w.entry()
	en := unitdb.NewEntry([]byte(e.topic), []byte(e.payload)).WithContract(e.contract)
	if reserved {
		e.seq0 = c.now()
		e.id = c.db.NewID()
		e.seq1 = c.now()
		w.ids = append(w.ids, e.id)
		en.WithID(e.id)
		if w.rng.Intn(3) == 0 {
			w.pause()
		}
	}
	e.put0 = c.now()
	err := c.db.PutEntry(en)
	e.put1 = c.now()
	if !reserved {
		e.seq0, e.seq1 = e.put0, e.put1
	}
	e.bad = w.failed("PutEntry", err)
	w.es = append(w.es, e)
	return !e.bad
}

func (w *cworker) batch(abort bool) bool {
	c := w.c
	n := 1 + w.rng.Intn(8)
	var es []*centry
	t0 := c.now()
	errWant := errAbort
	if !abort {
		errWant = nil
	}
	wr := w.rng.Intn(4) == 0
	slow := w.rng.Intn(3) == 0
	err := c.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
		for i := 0; i < n; i++ {
			e := w.entry()
			e.put0, e.aborted, e.batch = t0, abort, w.id*1000000+w.n
			e.seq0 = c.now()
			err := b.PutEntry(unitdb.NewEntry([]byte(e.topic), []byte(e.payload)).WithContract(e.contract))
			e.seq1 = c.now()
			es = append(es, e)
			if err != nil {
				return err
			}
			if slow && w.rng.Intn(3) == 0 {
				w.pause()
			}
			if wr && i == n/2 {
				if err := b.Write(); err != nil {
					return err
				}
			}
		}
		return errWant
	})
	t1 := c.now()
	bad := false
	if abort && err == errAbort {
		err = nil
	}
	if w.failed("Batch", err) {
		bad = true
	}
	for _, e := range es {
		e.put1, e.bad = t1, bad
		w.es = append(w.es, e)
	}
	return !bad
}

func (w *cworker) del() bool {
	c := w.c
	var cand []*centry
	for _, e := range w.es {
		if e.id != nil && !e.bad && e.del0 == 0 {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		return true
	}
	e := cand[w.rng.Intn(len(cand))]
	e.del0 = c.now()
	var err error
	if w.rng.Intn(4) == 0 {
		err = c.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			return b.DeleteEntry(unitdb.NewEntry([]byte(e.topic), nil).WithID(e.id).WithContract(e.contract))
		})
	} else {
		err = c.db.DeleteEntry(unitdb.NewEntry([]byte(e.topic), nil).WithID(e.id).WithContract(e.contract))
	}
	if w.failed("DeleteEntry", err) {
		return false
	}
	e.del1 = c.now()
	return true
}

func (w *cworker) get() bool {
	c := w.c
	g := cget{topic: c.topics[w.rng.Intn(len(c.topics))], contract: c.contract[w.rng.Intn(len(c.contract))]}
	q := unitdb.NewQuery([]byte(g.topic)).WithContract(g.contract)
	g.limit = 100000
	switch w.rng.Intn(8) {
	case 0, 1:
		g.limit = 1 + w.rng.Intn(20)
	case 2, 3:
		// a query that is made once and used by all
		q = c.queries[fmt.Sprintf("%x|%s", g.contract, g.topic)]
		w.nshared++
	}
	if g.limit < 100000 || q.Limit == 0 {
		q.WithLimit(g.limit)
	}
	g.t0 = c.now()
	got, err := c.db.Get(q)
	g.t1 = c.now()
	if w.failed("Get", err) {
		return false
	}
	if c.record {
		g.got = strs(got)
		w.gets = append(w.gets, g)
	}
	w.nget++
	return true
}

func (w *cworker) pause() {
	switch w.rng.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(w.rng.Intn(3000)) * time.Microsecond)
	default:
		d := time.Duration(w.rng.Intn(400)) * time.Millisecond
		if w.c.real {
			d /= 20
		}
		time.Sleep(d)
	}
}

func (w *cworker) run(ops int) {
	c := w.c
	j := c.j
	wt := []int{j.Int("put", 20), j.Int("newid", 6), j.Int("batch", 3), j.Int("abort", 1), j.Int("del", 3), j.Int("get", 14), j.Int("sync", 1), j.Int("stat", 2), j.Int("pause", 14)}
	tot := 0
	for _, x := range wt {
		tot += x
	}
	for i := 0; i < ops; i++ {
		k, op := w.rng.Intn(tot), 0
		for ; k >= wt[op]; op++ {
			k -= wt[op]
		}
		ok := true
		switch op {
		case 0:
			ok = w.put(false)
		case 1:
			ok = w.put(true)
		case 2:
			ok = w.batch(false)
		case 3:
			ok = w.batch(true)
		case 4:
			ok = w.del()
		case 5:
			ok = w.get()
		case 6:
			ok = !w.failed("Sync", c.db.Sync())
		case 7:
			c.db.Count()
			c.db.NewContract()
			if _, err := c.db.FileSize(); err != nil {
				ok = !w.failed("FileSize", err)
			}
			if w.rng.Intn(4) == 0 {
				c.db.Varz()
			}
		case 8:
			w.pause()
		}
		w.nop++
		if !ok {
			return
		}
	}
}

// judge checks one recorded query against all entries of its topic.
func (c *conc) judge(g cget, es []*centry, closed int64, phase string) {
	by := map[string]*centry{}
	for _, e := range es {
		by[e.payload] = e
	}
	seen := map[string]bool{}
	fail := func(sig, f string, a ...interface{}) {
		c.viol("conc-"+sig, "%s: Get(%s,c%x,limit=%d) at [%d,%d]: %s; got %d: %s", phase, g.topic, g.contract, g.limit, g.t0, g.t1, fmt.Sprintf(f, a...), len(g.got), shorts(g.got))
	}
	if len(g.got) > g.limit {
		fail("limit", "more entries than the limit")
	}
	var maxSeq0 int64
	for i := len(g.got) - 1; i >= 0; i-- {
		p := g.got[i]
		e := by[p]
		switch {
		case e == nil:
			fail("unknown", "%q was never put there", short(p))
			return
		case seen[p]:
			fail("duplicate", "%q is returned twice", short(p))
			return
		case e.put0 > g.t1:
			fail("future", "%q was put later, at [%d,%d]", short(p), e.put0, e.put1)
			return
		case e.del1 != 0 && e.del1 < g.t0:
			fail("deleted", "%q was deleted at [%d,%d]", short(p), e.del0, e.del1)
			return
		case e.aborted && !e.bad && e.put1 < g.t0 && (closed == 0 || e.put1 < closed):
			fail("aborted", "%q belongs to a batch aborted at %d", short(p), e.put1)
			return
		case e.seq1 < maxSeq0:
			fail("order", "%q (sequence of [%d,%d]) is returned before one with a later sequence", short(p), e.seq0, e.seq1)
			return
		}
		seen[p] = true
		if e.seq0 > maxSeq0 {
			maxSeq0 = e.seq0
		}
	}
	if len(g.got) == g.limit {
		return
	}
	for _, e := range es {
		if e.bad || e.aborted || seen[e.payload] || e.put1 > g.t0 || (e.del0 != 0 && e.del0 < g.t1) {
			continue
		}
		if closed != 0 && e.put1 > closed {
			continue // overlapped with Close
		}
		fail("missing", "%q put at [%d,%d] (batch %d) is not returned (closed at %d)", short(e.payload), e.put0, e.put1, e.batch, closed)
		return
	}
}

func (c *conc) open() bool {
	db, err := unitdb.Open(c.dir, c.opts...)
	if err != nil {
		c.viol("open-error", "Open: %v", err)
		return false
	}
	c.db = db
	return true
}

// quiet compares every topic with what is expected once nothing else runs.
func (c *conc) quiet(phase string, es []*centry, closed int64, order map[string][]string) {
	per := map[string][]*centry{}
	for _, e := range es {
		k := fmt.Sprintf("%x|%s", e.contract, e.topic)
		per[k] = append(per[k], e)
	}
	for k, l := range per {
		g := cget{topic: l[0].topic, contract: l[0].contract, limit: 100000, t0: 1 << 60, t1: 1 << 61}
		got, err := c.db.Get(unitdb.NewQuery([]byte(g.topic)).WithContract(g.contract).WithLimit(g.limit))
		if err != nil {
			c.viol("get-error", "%s: Get(%s): %v", phase, g.topic, err)
			return
		}
		g.got = strs(got)
		c.r.Add("quiet_gets", 1)
		c.r.Add("messages_compared", int64(len(g.got)))
		c.judge(g, l, closed, phase)
		if order != nil {
			if o, ok := order[k]; ok && !equalS(o, g.got) {
				c.viol("conc-changed", "%s: Get(%s,c%x) changed from %d %s to %d %s while nothing was written", phase, g.topic, g.contract, len(o), shorts(o), len(g.got), shorts(g.got))
			}
			order[k] = g.got
		}
	}
}

func (c *conc) runRound(seed int64) bool {
	j := c.j
	n := j.Int("workers", 6)
	atomic.StoreInt32(&c.closing, 0)
	ws := make([]*cworker, n)
	var wg sync.WaitGroup
	for i := range ws {
		ws[i] = &cworker{c: c, id: i, rng: rand.New(rand.NewSource(seed*131 + int64(i)))}
		wg.Add(1)
		go func(w *cworker) {
			defer wg.Done()
			w.run(j.Int("ops", 60))
		}(ws[i])
	}
	var closed int64
	var closeErr error
	doClose := j.Bool("close")
	rng := rand.New(rand.NewSource(seed * 77))
	if doClose {
		d := time.Duration(rng.Intn(4000)) * time.Millisecond
		if c.real {
			d /= 10
		}
		time.Sleep(d)
		atomic.StoreInt32(&c.closing, 1)
		closed = c.now()
		closeErr = c.db.Close()
	}
	wg.Wait()
	if closeErr != nil {
		c.viol("close-error", "Close: %v", closeErr)
		return false
	}
	if !c.record {
		closed = 0 // stamps are not recorded: entries are only known to be there or not
	}
	// Reserved ids are never given out twice.
	seen := map[uint64]int{}
	for _, w := range ws {
		for _, id := range w.ids {
			s := message.ID(id).Sequence()
			if o, ok := seen[s]; ok {
				c.viol("conc-newid", "NewID gave sequence %d to workers %d and %d", s, o, w.id)
			}
			seen[s] = w.id
		}
		c.r.Add("ids", int64(len(w.ids)))
		c.r.Add("conc_gets", w.nget)
		c.r.Add("shared_queries", w.nshared)
		c.r.Add("conc_ops", w.nop)
	}
	per := map[string][]*centry{}
	for _, w := range ws {
		for _, e := range w.es {
			c.all = append(c.all, e)
			if !c.record && doClose {
				// without stamps it is not known what preceded Close
				e.bad = true
			}
			c.r.Add("conc_puts", 1)
			if e.del1 != 0 {
				c.r.Add("conc_deletes", 1)
			}
		}
	}
	for _, e := range c.all {
		k := fmt.Sprintf("%x|%s", e.contract, e.topic)
		per[k] = append(per[k], e)
	}
	sig := make([]string, 0, 64)
	for _, w := range ws {
		for _, g := range w.gets {
			c.judge(g, per[fmt.Sprintf("%x|%s", g.contract, g.topic)], closed, "concurrent")
			c.r.Add("conc_gets_judged", 1)
			if len(g.got) > 0 {
				sig = append(sig, short(g.got[0]))
			}
		}
	}
	if c.record {
		c.r.Seen("schedules", strings.Join(sig, ","))
	} else {
		mix := ""
		for _, w := range ws {
			mix += fmt.Sprintf("%d/%d/%d ", w.nop, w.nget, len(w.es))
		}
		c.r.Seen("race_mix", mix)
	}
	if doClose {
		if !c.open() {
			return false
		}
	}
	order := map[string][]string{}
	c.quiet("quiescent", c.all, closed, order)
	if closed != 0 {
		// what survived is what is there from now on
		live := map[string]bool{}
		for _, l := range order {
			for _, p := range l {
				live[p] = true
			}
		}
		for _, e := range c.all {
			if e.bad || e.put1 > closed || (e.del0 != 0 && e.del1 == 0) {
				e.bad = true
				if live[e.payload] {
					e.bad, e.del0, e.del1, e.put1, e.aborted = false, 0, 0, closed, false
				}
			}
		}
	}
	if c.real {
		time.Sleep(200 * time.Millisecond)
	} else {
		time.Sleep(3 * time.Second)
	}
	if err := c.db.Sync(); err != nil {
		c.viol("sync-error", "Sync: %v", err)
	}
	c.quiet("synced", c.all, 0, order)
	if err := c.db.Close(); err != nil {
		c.viol("close-error", "Close: %v", err)
		return false
	}
	if !c.open() {
		return false
	}
	if !doClose {
		want := 0
		for _, e := range c.all {
			if !e.aborted && e.del1 == 0 {
				want++
			}
		}
		if got := c.db.Count(); got != uint64(want) && !j.Bool("nocount") {
			c.viol("conc-count", "Count() = %d with %d entries put and not deleted, round %d", got, want, c.round)
		}
		c.r.Add("counts_checked", 1)
	}
	c.quiet("reopened", c.all, 0, order)
	c.r.Add("rounds", 1)
	return atomic.LoadInt32(&c.bad) == 0
}

func init() {
	reg("conc", true, func(j *Job, r *Rep) { concJob(j, r, false) })
	// the same in real time: delayed file operations overlap with timers
	reg("concreal", false, func(j *Job, r *Rep) { concJob(j, r, true) })
}

func concJob(j *Job, r *Rep, real bool) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*7000003 + int64(i)))
		r.Case(i, "conc")
		defer r.Guard("concurrent history")()
		c := &conc{r: r, j: j, dir: filepath.Join(j.Dir, fmt.Sprintf("c%d", i)), opts: []unitdb.Options{unitdb.WithMutable()}, record: !j.Bool("norecord"), real: real}
		c.contract = []uint32{master}
		if j.Bool("contracts") {
			c.contract = append(c.contract, 7)
		}
		if j.Bool("config") {
			c.opts = append(c.opts, randomConfig(rng)...)
		}
		if setFSHook != nil && j.Int("delay", 0) > 0 {
			// File operations take a while, so that others run in the middle of a sync.
			n := uint32(j.Int("delay", 0))
			var k uint32
			var delayed int64
			defer func() { r.Add("delayed_file_ops", atomic.LoadInt64(&delayed)) }()
			s := rng.Uint32() | 1
			setFSHook(func(op, name, name2 string, b []byte, off int64) error {
				x := atomic.AddUint32(&k, 1) * 2654435761 * s
				if (x>>16)%n == 0 {
					if real {
						time.Sleep(time.Duration(x%8) * time.Millisecond)
					} else {
						// Virtual time cannot pass here: locks are held.
						for y := x % 400; y > 0; y-- {
							runtime.Gosched()
						}
					}
					atomic.AddInt64(&delayed, 1)
				} else if (x>>16)%n == 1 {
					runtime.Gosched()
				}
				return nil
			})
			defer setFSHook(nil)
		}
		if !c.open() {
			return
		}
		for c.round = 0; c.round < j.Int("rounds", 3); c.round++ {
			c.topics = treeTopics(rng, 1+rng.Intn(j.Int("ntopics", 8)), false)
			if rng.Intn(2) == 0 {
				for k := range c.topics {
					c.topics[k] = fmt.Sprintf("%s.r%d", c.topics[k], c.round)
				}
			}
			sort.Strings(c.topics)
			c.queries = map[string]*unitdb.Query{}
			for _, tp := range c.topics {
				for _, ct := range c.contract {
					c.queries[fmt.Sprintf("%x|%s", ct, tp)] = unitdb.NewQuery([]byte(tp)).WithContract(ct).WithLimit(100000)
				}
			}
			if !c.runRound(rng.Int63()) {
				break
			}
		}
		if atomic.LoadInt32(&c.bad) == 0 {
			if err := c.db.Close(); err != nil {
				c.viol("close-error", "Close: %v", err)
			}
		}
		if i == j.From {
			r.Sample(map[string]interface{}{"case": i, "topics": c.topics, "workers": j.Int("workers", 6), "entries": len(c.all)})
		}
		r.Add("cases", 1)
		os.RemoveAll(c.dir)
	})
}
