package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb/memdb"
)

// ---- memdb against a reference model (P16, P18) ------------------------------

// mver is a version of a key: the value it has in a time block.
type mver struct {
	val   string
	batch bool
	at    int    // order of puts
	old   []mver // overwritten within the time block, but written to logs of their own
}

type mmodel struct {
	blocks map[int64]map[uint64]mver // time ID -> key -> version
}

func (m *mmodel) put(t int64, k uint64, v mver) {
	b := m.blocks[t]
	if b == nil {
		b = map[uint64]mver{}
		m.blocks[t] = b
	}
	if o, ok := b[k]; ok {
		v.old = append(append([]mver{}, o.old...), mver{val: o.val, batch: o.batch, at: o.at})
	}
	b[k] = v
}

func (m *mmodel) ids() (ts []int64) {
	for t, b := range m.blocks {
		if len(b) > 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] > ts[j] })
	return
}

// get is the value of the most recent time block that has the key.
func (m *mmodel) get(k uint64) (string, bool) {
	for _, t := range m.ids() {
		if v, ok := m.blocks[t][k]; ok {
			return v.val, true
		}
	}
	return "", false
}

func (m *mmodel) del(k uint64) bool {
	ok := false
	for _, b := range m.blocks {
		if _, has := b[k]; has {
			ok = true
			delete(b, k)
		}
	}
	return ok
}

func (m *mmodel) size() (n int) {
	for _, b := range m.blocks {
		n += len(b)
	}
	return
}

// versions of a key, most recent put first, and those that a restart may keep: the
// last put of shared time blocks and the last one of batches, if those cannot be told apart.
func (m *mmodel) versions(k uint64) (vs []mver) {
	for _, b := range m.blocks {
		if v, ok := b[k]; ok {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].at > vs[j].at })
	return
}

func (m *mmodel) keys() map[uint64]bool {
	ks := map[uint64]bool{}
	for _, b := range m.blocks {
		for k := range b {
			ks[k] = true
		}
	}
	return ks
}

func (m *mmodel) clone() *mmodel {
	c := &mmodel{blocks: map[int64]map[uint64]mver{}}
	for t, b := range m.blocks {
		for k, v := range b {
			c.put(t, k, v)
		}
	}
	return c
}

type memh struct {
	r         *Rep
	rng       *rand.Rand
	dir       string
	opts      []memdb.Options
	logIv, bd time.Duration
	db        *memdb.DB
	m         *mmodel
	n         int
	log       []string
	bad       bool
	space     int // keys
	seq       int
	nodel     bool
	uniq      bool // no key is put twice
	next      uint64
}

func (h *memh) viol(sig, f string, a ...interface{}) {
	if h.bad {
		return
	}
	h.bad = true
	l := h.log
	if len(l) > h.r.job.Int("logs", 120) {
		l = l[len(l)-h.r.job.Int("logs", 120):]
	}
	h.r.Viol(sig, "%s | logInterval=%v blockDuration=%v dir=%s history: %s", fmt.Sprintf(f, a...), h.logIv, h.bd, filepath.Base(h.dir), strings.Join(l, "; "))
}

func (h *memh) logf(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func (h *memh) key() uint64 {
	if h.uniq {
		h.next++
		return h.next * 0x9e3779b97f4a7c15
	}
	if h.rng.Intn(20) == 0 {
		return []uint64{0, 1, 1<<64 - 1, 1 << 63, 1<<32 - 1}[h.rng.Intn(5)]
	}
	k := uint64(h.rng.Intn(h.space))
	if h.rng.Intn(2) == 0 {
		return k * 0x9e3779b97f4a7c15
	}
	return k
}

func (h *memh) val() string {
	h.n++
	s := fmt.Sprintf("v%d~", h.n)
	switch h.rng.Intn(12) {
	case 0:
		return ""
	case 1:
		return s + strings.Repeat("x", h.rng.Intn(5000))
	}
	return s + strings.Repeat("ab", h.rng.Intn(20))
}

func (h *memh) open() bool {
	done := h.r.Guard("memdb.Open")
	db, err := memdb.Open(h.opts...)
	done()
	if err != nil {
		h.viol("open-error", "Open: %v", err)
		return false
	}
	h.db = db
	return true
}

// settle waits until all is written to the log, and no time block is current that has entries.
func (h *memh) settle() { time.Sleep(h.bd + 4*h.logIv + 50*time.Millisecond) }

// check compares everything with the model.
func (h *memh) check() {
	if h.bad {
		return
	}
	h.r.Add("checks", 1)
	if n := h.db.Size(); n != int64(h.m.size()) {
		h.viol("size", "Size is %d, expected %d", n, h.m.size())
		return
	}
	want := map[uint64]int{}
	for _, b := range h.m.blocks {
		for k := range b {
			want[k]++
		}
	}
	got := map[uint64]int{}
	for _, k := range h.db.Keys() {
		got[k]++
	}
	for k, n := range got {
		if want[k] != n {
			h.viol("keys", "Keys has %d %d times, expected %d", k, n, want[k])
			return
		}
	}
	for k, n := range want {
		if got[k] != n {
			h.viol("keys", "Keys has %d %d times, expected %d", k, got[k], n)
			return
		}
	}
	ks := h.m.keys()
	for i := 0; i < 3; i++ {
		ks[h.key()] = true
	}
	for k := range ks {
		h.get(k)
	}
	for t, b := range h.m.blocks {
		for k, v := range b {
			d, err := h.db.Lookup(t, k)
			h.r.Add("lookups_checked", 1)
			if err != nil || string(d) != v.val {
				h.viol("lookup", "Lookup(%d,%d)=%.60q,%v expected %.60q", t, k, d, err, v.val)
				return
			}
		}
	}
}

func (h *memh) get(k uint64) {
	if h.bad {
		return
	}
	d, err := h.db.Get(k)
	v, ok := h.m.get(k)
	h.r.Add("gets_checked", 1)
	switch {
	case ok && err != nil:
		h.viol("get-lost", "Get(%d) fails (%v), expected %.60q", k, err, v)
	case ok && string(d) != v:
		h.viol("get-value", "Get(%d)=%.60q expected %.60q", k, d, v)
	case !ok && err == nil:
		h.viol("get-ghost", "Get(%d)=%.60q expected nothing", k, d)
	}
	for i := range d {
		d[i] = '#' // results belong to the caller
	}
}

func (h *memh) put() {
	k, v := h.key(), h.val()
	b := []byte(v)
	t, err := h.db.Put(k, b)
	for i := range b {
		b[i] = '!' // the argument belongs to the caller
	}
	h.logf("put(%d,%.12q)=%d,%v", k, v, t, err)
	if err != nil {
		h.viol("put-error", "Put: %v", err)
		return
	}
	h.r.Add("puts", 1)
	h.m.put(t, k, mver{val: v, at: h.n})
}

func (h *memh) batch() {
	n := 1 + h.rng.Intn(6)
	abort := h.rng.Intn(4) == 0
	writes := h.rng.Intn(4) == 0
	managed := h.rng.Intn(2) == 0
	c := h.m.clone()
	var ids []string
	fill := func(b *memdb.Batch) error {
		for i := 0; i < n; i++ {
			k, v := h.key(), h.val()
			p := []byte(v)
			t := b.TimeID()
			if err := b.Put(k, p); err != nil {
				h.viol("batch-error", "Batch.Put: %v", err)
				return err
			}
			for i := range p {
				p[i] = '!'
			}
			ids = append(ids, fmt.Sprintf("%d@%d=%.12q", k, t, v))
			c.put(t, k, mver{val: v, batch: true, at: h.n})
			if h.rng.Intn(5) == 0 {
				h.put() // outside of the batch
				if h.bad {
					return nil
				}
				for t, b := range h.m.blocks {
					for k, v := range b {
						if v.at == h.n {
							c.put(t, k, v)
						}
					}
				}
			}
			if writes && h.rng.Intn(2) == 0 {
				if err := b.Write(); err != nil {
					h.viol("batch-error", "Batch.Write: %v", err)
					return err
				}
				ids = append(ids, "write")
			}
			if h.rng.Intn(6) == 0 {
				time.Sleep(time.Duration(h.rng.Int63n(int64(2 * h.logIv))))
			}
		}
		if abort {
			return errAbort
		}
		return nil
	}
	done := h.r.Guard("batch")
	defer done()
	var err error
	if managed {
		var complete <-chan struct{}
		err = h.db.Batch(func(b *memdb.Batch, done <-chan struct{}) error {
			complete = done
			return fill(b)
		})
		select {
		case <-complete:
		default:
			h.viol("batch-complete", "the channel of the batch is not closed once Batch returns")
		}
		if abort && err != errAbort || !abort && err != nil {
			h.viol("batch-error", "Batch returns %v, abort=%v", err, abort)
		}
	} else {
		b := h.db.NewBatch()
		err = fill(b)
		if !h.bad {
			if abort {
				err = b.Abort()
			} else {
				err = b.Commit()
			}
			if err != nil {
				h.viol("batch-error", "Commit or Abort (%v): %v", abort, err)
			}
		}
	}
	h.logf("batch(%s,abort=%v,managed=%v)=%v", strings.Join(ids, " "), abort, managed, err)
	if h.bad {
		return
	}
	if abort {
		h.r.Add("aborts", 1)
		return
	}
	h.r.Add("batches", 1)
	h.m = c
}

func (h *memh) del() {
	k := h.key()
	if ks := h.m.keys(); len(ks) > 0 && h.rng.Intn(4) > 0 {
		var l []uint64
		for k := range ks {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		k = l[h.rng.Intn(len(l))]
	}
	err := h.db.Delete(k)
	h.logf("del(%d)=%v", k, err)
	if ok := h.m.del(k); ok != (err == nil) {
		h.viol("del", "Delete(%d)=%v, the key exists: %v", k, err, ok)
		return
	}
	h.r.Add("dels", 1)
	h.get(k)
}

// iterate looks at the time blocks that are handed over, and frees some of them.
func (h *memh) iterate(settled bool) {
	seen := map[int64]bool{}
	stopAt := -1
	if h.rng.Intn(4) == 0 {
		stopAt = h.rng.Intn(3)
	}
	var free []int64
	// A block that holds deleted keys follows the blocks of those keys, so blocks are freed in order.
	nfree := h.rng.Intn(4)
	if h.rng.Intn(3) == 0 {
		nfree = 100
	}
	late := h.rng.Intn(2) == 0
	err := h.db.BlockIterator(func(t int64, keys []uint64) (bool, error) {
		if seen[t] {
			h.viol("iter-twice", "BlockIterator returns block %d twice", t)
		}
		seen[t] = true
		h.r.Add("blocks_handed", 1)
		b := h.m.blocks[t]
		if len(keys) != len(b) {
			h.viol("iter-keys", "BlockIterator returns %d keys for block %d: %v, expected %d", len(keys), t, keys, len(b))
			return true, nil
		}
		for _, k := range keys {
			if _, ok := b[k]; !ok {
				h.viol("iter-keys", "BlockIterator returns key %d for block %d", k, t)
				return true, nil
			}
		}
		if nfree > 0 || h.nodel && h.rng.Intn(2) == 0 {
			if late {
				free = append(free, t)
			} else if !h.free(t) {
				return true, nil
			}
		}
		nfree--
		stopAt--
		return stopAt == -1, nil
	})
	h.logf("iterate=%d,%v", len(seen), err)
	if err != nil {
		h.viol("iter-error", "BlockIterator: %v", err)
	}
	// Blocks that hold deleted keys of a block that is kept wait for it.
	if settled && stopAt < -1 && !h.bad && (h.nodel || nfree > 0 && !late) {
		for _, t := range h.m.ids() {
			if !seen[t] {
				h.viol("iter-missing", "BlockIterator does not return block %d (%d keys), though all is written", t, len(h.m.blocks[t]))
				return
			}
		}
	}
	for _, t := range free {
		if !h.bad && !h.free(t) {
			return
		}
	}
}

func (h *memh) free(t int64) bool {
	err := h.db.Free(t)
	h.logf("free(%d)=%v", t, err)
	if err != nil {
		h.viol("free-error", "Free(%d): %v", t, err)
		return false
	}
	delete(h.m.blocks, t)
	h.r.Add("frees", 1)
	return true
}

// learn reads a memdb that was opened again, compares it with the model, and
// returns the model with the time IDs its blocks have now.
func (h *memh) learn(db *memdb.DB, m *mmodel, sig, what string) *mmodel {
	c := &mmodel{blocks: map[int64]map[uint64]mver{}}
	err := db.All(func(t int64, keys []uint64) (bool, error) {
		for _, k := range keys {
			d, err := db.Lookup(t, k)
			if err != nil {
				h.viol(sig+"lookup", "%s: Lookup(%d,%d): %v", what, t, k, err)
				return true, nil
			}
			at := -1
			for _, v := range m.versions(k) {
				for _, w := range append([]mver{v}, v.old...) {
					if w.val == string(d) && at < w.at {
						at = w.at
						c.put(t, k, mver{val: w.val, batch: w.batch, at: w.at})
					}
				}
			}
			if at < 0 {
				h.viol(sig+"ghost", "%s: key %d has value %.60q, which it had not (or no more)", what, k, d)
				return true, nil
			}
		}
		return false, nil
	})
	if h.bad {
		return c
	}
	if err != nil {
		h.viol(sig+"all", "%s: All: %v", what, err)
		return c
	}
	for k := range m.keys() {
		vs := m.versions(k)
		v, ok := c.get(k)
		h.r.Add("recovered_checked", 1)
		if !ok {
			h.viol(sig+"lost", "%s: key %d is lost, its value was %.60q", what, k, vs[0].val)
			return c
		}
		// entries of batches and of others are ordered by the time they were written
		fine := v == vs[0].val
		for _, w := range vs[1:] {
			if w.batch != vs[0].batch {
				fine = fine || v == w.val
				break
			}
		}
		if !fine {
			h.viol(sig+"old", "%s: key %d has value %.60q, the most recent one is %.60q", what, k, v, vs[0].val)
			return c
		}
	}
	if n := db.Size(); n != int64(c.size()) {
		h.viol(sig+"size", "%s: Size is %d, All returns %d", what, n, c.size())
	}
	return c
}

func (h *memh) reopen() {
	time.Sleep(time.Microsecond) // time passes
	done := h.r.Guard("memdb.Close")
	err := h.db.Close()
	done()
	if err != nil {
		h.viol("close-error", "Close: %v", err)
		return
	}
	old := h.db
	h.closed(old)
	if h.bad || !h.open() {
		return
	}
	h.logf("reopen")
	h.r.Add("reopens", 1)
	h.m = h.learn(h.db, h.m, "reopen-", "after Close and Open")
	h.check()
	if h.nodel || h.bad {
		return
	}
	// Recovered blocks are handed over and freed before anything else is done, also in several sessions.
	n, part := 0, h.rng.Intn(3) == 0
	stop := h.rng.Intn(6)
	err = h.db.All(func(t int64, keys []uint64) (bool, error) {
		if part && n >= stop || h.bad {
			return true, nil
		}
		n++
		return !h.free(t), nil
	})
	h.logf("drain=%d,%v", n, err)
	h.r.Add("drains", 1)
	if err != nil {
		h.viol("drain-error", "All: %v", err)
		return
	}
	if n := h.m.size(); n > 0 && !part && !h.bad {
		h.viol("drain-rest", "All returned all blocks, but %d entries are left", n)
		return
	}
	h.check()
	if part && !h.bad {
		h.reopen()
	}
}

func (h *memh) closed(db *memdb.DB) {
	defer func() {
		if e := recover(); e != nil {
			h.viol("closed-panic", "a call on a closed memdb panics: %v", e)
		}
	}()
	k := h.key()
	if _, err := db.Put(k, []byte("x")); err == nil {
		h.viol("closed-call", "Put on a closed memdb returns no error")
	}
	if _, err := db.Get(k); err == nil {
		h.viol("closed-call", "Get on a closed memdb returns no error")
	}
	if err := db.Delete(k); err == nil {
		h.viol("closed-call", "Delete on a closed memdb returns no error")
	}
	if _, err := db.Lookup(1, k); err == nil {
		h.viol("closed-call", "Lookup on a closed memdb returns no error")
	}
	if err := db.Batch(func(b *memdb.Batch, _ <-chan struct{}) error { return b.Put(k, []byte("x")) }); err == nil {
		h.viol("closed-call", "Batch on a closed memdb returns no error")
	}
	if err := db.Close(); err == nil {
		h.viol("closed-call", "Close of a closed memdb returns no error")
	}
	h.r.Add("closed_calls", 6)
}

// openAt opens a copy of the directory.
func (h *memh) openAt(dir string) (*memdb.DB, error) {
	return memdb.Open(append(append([]memdb.Options{}, h.opts...), memdb.WithLogFilePath(dir))...)
}

// crash looks at what is recovered from a copy of the logs, as they are and with a log that is cut.
func (h *memh) crash() {
	time.Sleep(4*h.logIv + 50*time.Millisecond)
	dir := fmt.Sprintf("%s_c%d", h.dir, h.seq)
	h.seq++
	defer os.RemoveAll(dir)
	if err := copyDir(h.dir, dir); err != nil {
		h.r.Add("copy_errors", 1)
		return
	}
	db, err := h.openAt(dir)
	if err != nil {
		h.viol("crash-open", "Open after a crash: %v", err)
		return
	}
	h.r.Add("crashes", 1)
	h.logf("crash")
	h.learn(db, h.m, "crash-", "after a crash")
	db.Close()
	if h.bad {
		return
	}
	logs, _ := filepath.Glob(filepath.Join(h.dir, "logs", "*.log"))
	if len(logs) == 0 {
		return
	}
	l := logs[h.rng.Intn(len(logs))]
	b, err := os.ReadFile(l)
	if err != nil || len(b) == 0 {
		return
	}
	cut := h.rng.Intn(len(b))
	if h.rng.Intn(2) == 0 {
		cut = len(b) - 1 - h.rng.Intn(min2(len(b), 30))
	}
	// dump returns what is recovered when the log has the contents.
	dump := func(b []byte) map[string]string {
		d := fmt.Sprintf("%s_t%d", h.dir, h.seq)
		h.seq++
		defer os.RemoveAll(d)
		copyDir(h.dir, d)
		p := filepath.Join(d, "logs", filepath.Base(l))
		os.Remove(p)
		if b != nil {
			os.WriteFile(p, b, 0666)
		}
		for i := 0; i < 2; i++ {
			defer func() {
				if e := recover(); e != nil {
					h.viol("cut-panic", "Open with log %s cut to %d of %d bytes panics: %v", filepath.Base(l), cut, len(b), e)
				}
			}()
			db, err := h.openAt(d)
			if err != nil {
				h.viol("cut-open", "Open with log %s cut to %d bytes: %v", filepath.Base(l), cut, err)
				return nil
			}
			m := map[string]string{}
			for _, k := range db.Keys() {
				v, err := db.Get(k)
				m[fmt.Sprint(k)] = fmt.Sprintf("%q,%v", v, err)
			}
			if err := db.Close(); err != nil {
				h.viol("cut-close", "Close: %v", err)
			}
			if i == 1 {
				return m
			}
		}
		return nil
	}
	without := dump(nil)
	if h.bad {
		return
	}
	with := dump(b[:cut])
	if h.bad {
		return
	}
	h.r.Add("cut_logs", 1)
	if d := diffMaps(without, with); d != "" {
		h.viol("cut-log", "log %s cut to %d of %d bytes is not skipped as a whole, or others are lost with it: %s", filepath.Base(l), cut, len(b), d)
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func diffMaps(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s: %.80s, expected %.80s", k, b[k], v)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%s: %.80s, expected nothing", k, v)
		}
	}
	return ""
}

func init() {
	reg("mem", true, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			h := &memh{r: r, rng: rng, dir: filepath.Join(j.Dir, fmt.Sprintf("m%d", i)), m: &mmodel{blocks: map[int64]map[uint64]mver{}}}
			h.logIv = []time.Duration{5, 15, 15, 40, 100, 300}[rng.Intn(6)] * time.Millisecond
			h.bd = []time.Duration{20, 50, 200, 1000, 1000, 3000}[rng.Intn(6)] * time.Millisecond
			h.space = []int{3, 10, 40, 300}[rng.Intn(4)]
			h.opts = []memdb.Options{memdb.WithLogFilePath(h.dir), memdb.WithLogInterval(h.logIv), memdb.WithTimeBlockInterval(h.bd)}
			r.Case(i, fmt.Sprintf("%v %v", h.logIv, h.bd))
			// time blocks start at any time
			time.Sleep(time.Duration(1 + rng.Int63n(int64(3*time.Second))))
			if !h.open() {
				return
			}
			h.uniq = j.Bool("uniq")
			h.nodel = j.Int("del", 12) == 0
			w := map[string]int{"put": 40, "batch": 6, "del": j.Int("del", 12), "sleep": 12, "iter": j.Int("iter", 3), "settle": 2, "reopen": j.Int("reopen", 1), "crash": j.Int("crash", 0), "check": 2}
			var names []string
			for n, c := range w {
				for ; c > 0; c-- {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for k := 0; k < j.Int("ops", 120) && !h.bad; k++ {
				switch names[rng.Intn(len(names))] {
				case "put":
					h.put()
				case "batch":
					h.batch()
				case "del":
					h.del()
				case "sleep":
					d := time.Duration(rng.Int63n(int64(2 * h.logIv)))
					if rng.Intn(4) == 0 {
						d = time.Duration(rng.Int63n(int64(2 * h.bd)))
					}
					time.Sleep(d)
					h.logf("sleep(%v)", d)
				case "iter":
					h.iterate(false)
					h.check()
				case "settle":
					h.settle()
					h.logf("settle")
					h.iterate(true)
					h.check()
				case "reopen":
					h.reopen()
				case "crash":
					h.crash()
				case "check":
					h.check()
				}
			}
			if !h.bad && w["reopen"] > 0 {
				h.reopen()
			}
			if !h.bad {
				h.db.Close()
			}
			r.Add("cases", 1)
			r.Seen("histories", strings.Join(h.log, ";"))
			if i == j.From {
				l := h.log
				if len(l) > 40 {
					l = l[:40]
				}
				r.Sample(map[string]interface{}{"case": i, "ops": l})
			}
			os.RemoveAll(h.dir)
		})
	})
}
