package zzverif

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unit-io/unitdb/wal"
)

// Monitor of the write ahead log (P19): what a WAL that is opened again yields
// is compared with the logs that were written and not applied.

type wlog struct {
	id       int64
	recs     []string
	w0, w1   int // file operations before the write began and after it was acknowledged
	a0, a1   int // the same of its release
	ok       bool
	applied  bool
	replaced bool
}

type walh struct {
	r    *Rep
	rng  *rand.Rand
	dir  string
	buf  int64
	rc   *recorder
	mu   sync.Mutex
	logs map[int64]*wlog
	hist []string
	bad  int32
	fail uint32 // fault rate
	nops uint32
}

func (h *walh) viol(sig, f string, a ...interface{}) {
	if atomic.AddInt32(&h.bad, 1) > 1 {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	l := h.hist
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	h.r.Viol(sig, "%s | history: %s", fmt.Sprintf(f, a...), strings.Join(l, "; "))
}

func (h *walh) logf(f string, a ...interface{}) {
	h.mu.Lock()
	h.hist = append(h.hist, fmt.Sprintf(f, a...))
	h.mu.Unlock()
}

func (h *walh) opts() wal.Options { return wal.Options{Path: h.dir, BufferSize: h.buf} }

func shortRecs(rs []string) string {
	var s []string
	for i, r := range rs {
		if i == 4 {
			s = append(s, fmt.Sprintf("...%d", len(rs)))
			break
		}
		if len(r) > 20 {
			r = fmt.Sprintf("%s...%d", r[:20], len(r))
		}
		s = append(s, r)
	}
	return fmt.Sprintf("%q", s)
}

// read returns what a WAL yields. Some logs are read in part only.
func (h *walh) read(w *wal.WAL, rng *rand.Rand, sig, what string) (map[int64][]string, bool) {
	got := map[int64][]string{}
	rd, err := w.NewReader()
	if err != nil {
		h.viol(sig+"reader", "%s: NewReader: %v", what, err)
		return nil, false
	}
	last := int64(math.MinInt64)
	err = rd.Iterator(func(id int64) (bool, error) {
		if id <= last {
			h.viol(sig+"order", "%s: log %d follows log %d", what, id, last)
		}
		last = id
		n := rd.Count()
		var recs []string
		part := -1
		if rng != nil && rng.Intn(5) == 0 {
			part = rng.Intn(3)
		}
		for part < 0 || len(recs) < part {
			b, ok, err := rd.Next()
			if err != nil {
				h.viol(sig+"next", "%s: Next of log %d: %v", what, id, err)
				return true, nil
			}
			if !ok {
				break
			}
			recs = append(recs, string(b))
		}
		if part < 0 {
			if int(n) != len(recs) {
				h.viol(sig+"count", "%s: Count of log %d is %d, it has %d records", what, id, n, len(recs))
			}
			if _, ok, err := rd.Next(); ok || err != nil {
				h.viol(sig+"end", "%s: Next after the last record of log %d: %v, %v", what, id, ok, err)
			}
		} else if l := h.logs[id]; l != nil && len(recs) == part {
			for i, x := range recs {
				if i >= len(l.recs) || l.recs[i] != x {
					h.viol(sig+"records", "%s: record %d of log %d is %.40q", what, i, id, x)
					return true, nil
				}
			}
			recs = l.recs
			h.r.Add("read_in_part", 1)
		}
		got[id] = recs
		h.r.Add("logs_read", 1)
		h.r.Add("records_read", int64(len(recs)))
		return false, nil
	})
	if err != nil {
		h.viol(sig+"iterator", "%s: Iterator: %v", what, err)
		return nil, false
	}
	return got, true
}

func sameRecs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// compare checks what was read against what is expected.
func (h *walh) compare(got map[int64][]string, sig, what string) {
	for id, recs := range got {
		l := h.logs[id]
		switch {
		case l == nil:
			h.viol(sig+"unknown", "%s: log %d was never written", what, id)
		case l.applied:
			h.viol(sig+"applied", "%s: log %d is there, it was applied", what, id)
		case !l.ok:
			h.viol(sig+"failed", "%s: log %d is there, writing it failed", what, id)
		case !sameRecs(recs, l.recs):
			h.viol(sig+"records", "%s: log %d has %d records %s, written were %d %s", what, id, len(recs), shortRecs(recs), len(l.recs), shortRecs(l.recs))
		}
	}
	for id, l := range h.logs {
		if _, ok := got[id]; !ok && l.ok && !l.applied {
			h.viol(sig+"lost", "%s: log %d (%d records) is lost", what, id, len(l.recs))
		}
	}
}

func (h *walh) newID(rng *rand.Rand) int64 {
	for {
		var id int64
		switch rng.Intn(4) {
		case 0:
			id = rng.Int63n(200)
		case 1:
			id = rng.Int63()
		default:
			id = 1600000000000000000 + rng.Int63n(1000000)
		}
		if _, ok := h.logs[id]; !ok {
			return id
		}
	}
}

// worker writes and applies logs of its own.
func (h *walh) worker(w *wal.WAL, rng *rand.Rand, ops int) {
	var mine []*wlog
	for n := 0; n < ops && atomic.LoadInt32(&h.bad) == 0; n++ {
		if rng.Intn(3) == 0 && len(mine) > 0 {
			l := mine[rng.Intn(len(mine))]
			a0 := h.rc.len()
			err := w.SignalLogApplied(l.id)
			if !l.applied {
				l.a0, l.a1 = a0, h.rc.len()
			}
			l.applied = true
			h.logf("applied(%d)=%v", l.id, err)
			if err != nil {
				h.viol("apply", "SignalLogApplied(%d): %v", l.id, err)
			}
			h.r.Add("applied", 1)
			continue
		}
		lw, err := w.NewWriter()
		if err != nil {
			h.viol("writer", "NewWriter: %v", err)
			return
		}
		l := &wlog{}
		nr := rng.Intn(6)
		if rng.Intn(10) == 0 {
			nr = rng.Intn(200)
		}
		for k := 0; k < nr; k++ {
			var s string
			switch rng.Intn(12) {
			case 0: // an empty record is not kept
			case 1:
				s = strings.Repeat(string(rune('a'+rng.Intn(26))), 1+rng.Intn(6000))
			case 2:
				b := make([]byte, 1+rng.Intn(300))
				rng.Read(b)
				s = string(b)
			default:
				s = fmt.Sprintf("r%d.%d", n, k)
			}
			if rng.Intn(300) == 0 {
				s = strings.Repeat("z", 100000+rng.Intn(300000))
			}
			b := []byte(s)
			if err := <-lw.Append(b); err != nil {
				h.viol("append", "Append of %d bytes: %v", len(b), err)
				return
			}
			for i := range b {
				b[i] = 0xee // the caller uses its buffer again
			}
			if s != "" {
				l.recs = append(l.recs, s)
			}
		}
		h.mu.Lock()
		l.id = h.newID(rng)
		h.logs[l.id] = l
		h.mu.Unlock()
		l.w0 = h.rc.len()
		err = <-lw.SignalInitWrite(l.id)
		l.w1 = h.rc.len()
		h.logf("write(%d: %s)=%v", l.id, shortRecs(l.recs), err)
		switch {
		case err != nil && atomic.LoadUint32(&h.fail) == 0:
			h.viol("write", "SignalInitWrite(%d): %v", l.id, err)
			return
		case err != nil:
			h.r.Add("failed_writes", 1)
			continue
		}
		h.r.Add("written", 1)
		if len(l.recs) == 0 {
			continue // a log without records is not written
		}
		l.ok = true
		mine = append(mine, l)
		if rng.Intn(6) == 0 {
			if err := <-lw.Append([]byte("more")); err == nil {
				h.viol("misuse-append", "Append to log %d after it is written succeeds", l.id)
			}
			if err := <-lw.SignalInitWrite(l.id + 1); err == nil {
				h.viol("misuse-write", "log %d is written twice", l.id)
			}
			h.r.Add("misuses", 1)
		}
	}
}

func walJob(j *Job, r *Rep) {
	hook := setFSHook
	if hook == nil {
		hook = func(h fsHookFn) {} // no crash points and faults
	}
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*3000017 + int64(i)))
		r.Case(i, "wal")
		defer r.Guard("WAL history")()
		base := filepath.Join(j.Dir, fmt.Sprintf("w%d", i))
		h := &walh{r: r, rng: rng, dir: filepath.Join(base, "logs"), logs: map[int64]*wlog{}, rc: &recorder{dir: filepath.Join(base, "logs")}}
		h.buf = []int64{1 << 8, 1 << 20, 1 << 30}[rng.Intn(3)]
		os.MkdirAll(base, 0777)
		defer os.RemoveAll(base)
		faulty := uint32(j.Int("faults", 0))
		var salt = rng.Uint32() | 1
		hook(func(op, name, name2 string, b []byte, off int64) error {
			if n := atomic.LoadUint32(&h.fail); n > 0 && op != "remove" && op != "opened" && strings.HasPrefix(name, h.dir+"/") && !(op == "open" && off&int64(os.O_CREATE) == 0) {
				x := atomic.AddUint32(&h.nops, 1) * 2654435761 * salt
				if (x>>16)%n == 0 {
					h.r.Add("faults", 1)
					return errors.New("injected fault")
				}
			}
			return h.rc.hook(op, name, name2, b, off)
		})
		defer hook(nil)
		foreign := map[string]string{}
		sessions := 1 + rng.Intn(j.Int("sessions", 4))
		for s := 0; s <= sessions && atomic.LoadInt32(&h.bad) == 0; s++ {
			w, err := wal.New(h.opts())
			if err != nil {
				h.viol("open", "New: %v", err)
				return
			}
			h.logf("open")
			var prng *rand.Rand
			if rng.Intn(2) == 0 {
				prng = rng
			}
			if rng.Intn(6) != 0 || s == sessions {
				got, ok := h.read(w, prng, "", "after New")
				if !ok {
					return
				}
				h.compare(got, "", "after New")
				h.r.Add("recoveries", 1)
				if got, ok := h.read(w, nil, "again-", "read again"); ok && len(got) != 0 {
					h.viol("again", "%d logs are yielded again", len(got))
				}
			}
			if atomic.LoadInt32(&h.bad) != 0 || s == sessions {
				w.Close()
				break
			}
			// logs of the session before are applied
			for _, id := range h.ids() {
				l := h.logs[id]
				if l.ok && !l.applied && rng.Intn(3) == 0 {
					l.a0 = h.rc.len()
					if err := w.SignalLogApplied(id); err != nil {
						h.viol("apply", "SignalLogApplied(%d): %v", id, err)
					}
					l.a1 = h.rc.len()
					l.applied = true
					h.logf("applied(%d)", id)
					h.r.Add("applied", 1)
				}
			}
			if rng.Intn(3) == 0 {
				if err := w.SignalLogApplied(rng.Int63()); err != nil {
					h.viol("apply-unknown", "SignalLogApplied of an unknown log: %v", err)
				}
			}
			if faulty > 0 && rng.Intn(3) != 0 {
				atomic.StoreUint32(&h.fail, faulty)
			}
			early, err := w.NewWriter()
			if err == nil {
				err = <-early.Append([]byte("early"))
			}
			if err != nil {
				h.viol("writer", "NewWriter and Append: %v", err)
			}
			var wg sync.WaitGroup
			for k := 1 + rng.Intn(j.Int("workers", 5)); k > 0; k-- {
				wg.Add(1)
				go func(rng *rand.Rand) {
					defer wg.Done()
					h.worker(w, rng, 1+rng.Intn(j.Int("ops", 12)))
				}(rand.New(rand.NewSource(rng.Int63())))
			}
			wg.Wait()
			atomic.StoreUint32(&h.fail, 0)
			if rng.Intn(12) == 0 {
				for _, l := range h.logs {
					if l.ok && !l.applied {
						l.a0 = h.rc.len()
					}
				}
				if rng.Intn(2) == 0 {
					w.Reset()
				} else {
					w.Close()
					o := h.opts()
					o.Reset = true
					if w, err = wal.New(o); err != nil {
						h.viol("open", "New with Reset: %v", err)
						return
					}
					early = nil
				}
				for _, l := range h.logs {
					if l.ok && !l.applied {
						l.a1 = h.rc.len()
						l.applied = true
					}
				}
				h.logf("reset")
				h.r.Add("resets", 1)
			}
			if fs := openFiles(base); len(fs) > 0 {
				h.viol("descriptors", "files are left open: %v", fs)
			}
			done := r.Guard("Close")
			if err := w.Close(); err != nil {
				h.viol("close", "Close: %v", err)
			}
			done()
			h.logf("close")
			before := snapshot(base)
			if _, err := w.NewWriter(); err == nil {
				h.viol("closed-writer", "NewWriter succeeds on a closed WAL")
			}
			if _, err := w.NewReader(); err == nil {
				h.viol("closed-reader", "NewReader succeeds on a closed WAL")
			}
			if err := w.Close(); err == nil {
				h.viol("closed-close", "Close succeeds on a closed WAL")
			}
			if early != nil && rng.Intn(2) == 0 {
				if err := <-early.SignalInitWrite(h.newID(rng)); err == nil {
					h.viol("closed-write", "a log is written to a closed WAL")
				}
			}
			if !sameSnap(before, snapshot(base)) {
				h.viol("closed-change", "calls on a closed WAL change its files")
			}
			h.r.Add("closed_calls", 4)
			if rng.Intn(2) == 0 {
				n := []string{"x.txt", "abc.log", "7.bak", ".log", "900.tmp"}[rng.Intn(5)]
				c := fmt.Sprint(rng.Int63())
				if os.WriteFile(filepath.Join(h.dir, n), []byte(c), 0666) == nil {
					foreign[n] = c
				}
			}
		}
		for n, c := range foreign {
			if b, err := os.ReadFile(filepath.Join(h.dir, n)); err != nil || string(b) != c {
				h.viol("foreign", "file %s of another is changed: %v", n, err)
			}
		}
		if setFSHook != nil && faulty == 0 && len(foreign) == 0 && atomic.LoadInt32(&h.bad) == 0 {
			h.crashes(base, j.Int("points", 60))
		}
		if atomic.LoadInt32(&h.bad) == 0 {
			h.cut(base)
		}
		r.Add("cases", 1)
		r.Seen("histories", strings.Join(h.hist, ";"))
		if i == j.From {
			l := h.hist
			if len(l) > 30 {
				l = l[:30]
			}
			r.Sample(map[string]interface{}{"case": i, "ops": l})
		}
	})
}

// cut opens the WAL with one of its logs cut: it yields nothing of that log, and all of the others.
func (h *walh) cut(base string) {
	var left []int64
	for _, id := range h.ids() {
		if l := h.logs[id]; l.ok && !l.applied {
			left = append(left, id)
		}
	}
	for n := 0; n < 4 && len(left) > 0; n++ {
		id := left[h.rng.Intn(len(left))]
		dir := filepath.Join(base, "cut")
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0777)
		if err := copyDir(h.dir, dir); err != nil {
			panic(err)
		}
		p := filepath.Join(dir, fmt.Sprintf("%d.log", id))
		b, err := os.ReadFile(p)
		if err != nil || len(b) == 0 {
			h.viol("file", "log %d: %v, %d bytes", id, err, len(b))
			return
		}
		at := h.rng.Intn(len(b))
		os.WriteFile(p, b[:at], 0666)
		for k := 0; k < 2; k++ {
			what := fmt.Sprintf("log %d cut to %d of %d bytes", id, at, len(b))
			w, err := wal.New(wal.Options{Path: dir, BufferSize: h.buf})
			if err != nil {
				h.viol("cut-open", "%s: New: %v", what, err)
				return
			}
			got, ok := h.read(w, nil, "cut-", what)
			w.Close()
			if !ok {
				return
			}
			if len(got[id]) != 0 {
				h.viol("cut-records", "%s: it has %d records %s", what, len(got[id]), shortRecs(got[id]))
			}
			got[id] = h.logs[id].recs
			h.compare(got, "cut-", what)
			h.r.Add("cuts", 1)
		}
	}
}

func (h *walh) ids() (ids []int64) {
	for id := range h.logs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	return ids
}

// crashes opens the WAL on states that a crash leaves.
func (h *walh) crashes(base string, points int) {
	setFSHook(nil)
	h.rc.mu.Lock()
	ops := h.rc.ops
	h.rc.mu.Unlock()
	st := fstate{}
	for _, o := range ops {
		st.apply(o)
	}
	if d := st.differs(h.dir); d != "" {
		h.viol("recording", "the recorded operations do not explain the directory: %s", d)
		return
	}
	at := map[int]bool{}
	for len(ops) > 0 && len(at) < points && len(at) < len(ops)+1 {
		at[h.rng.Intn(len(ops)+1)] = true
		if len(ops) <= points {
			for k := 0; k <= len(ops); k++ {
				at[k] = true
			}
		}
	}
	st = fstate{}
	for k := 0; k <= len(ops); k++ {
		if at[k] {
			h.judge(base, st, k, false)
			if k < len(ops) && ops[k].op == "write" && len(ops[k].b) > 1 {
				o := ops[k]
				o.b = o.b[:1+h.rng.Intn(len(o.b)-1)]
				t := st.clone()
				t.apply(o)
				h.judge(base, t, k, true)
			}
			if atomic.LoadInt32(&h.bad) != 0 {
				return
			}
		}
		if k < len(ops) {
			st.apply(ops[k])
		}
	}
}

func (h *walh) judge(base string, st fstate, k int, torn bool) {
	dir := filepath.Join(base, "crash")
	os.RemoveAll(dir)
	if err := st.write(dir); err != nil {
		panic(err)
	}
	what := fmt.Sprintf("after a crash at file operation %d (torn: %v)", k, torn)
	w, err := wal.New(wal.Options{Path: dir, BufferSize: h.buf})
	if err != nil {
		h.viol("crash-open", "%s: New: %v", what, err)
		return
	}
	defer w.Close()
	got, ok := h.read(w, nil, "crash-", what)
	if !ok {
		return
	}
	h.r.Add("crash_points", 1)
	b := k
	if torn {
		b++
	}
	for id, recs := range got {
		l := h.logs[id]
		switch {
		case l == nil || len(l.recs) == 0:
			h.viol("crash-unknown", "%s: log %d was never written", what, id)
		case l.w0 >= b && l.w1 > k:
			h.viol("crash-early", "%s: log %d is there before it is written", what, id)
		case l.applied && l.a1 <= k:
			h.viol("crash-applied", "%s: log %d is there, it was applied", what, id)
		case !sameRecs(recs, l.recs):
			h.viol("crash-records", "%s: log %d has %d records %s, written were %d %s", what, id, len(recs), shortRecs(recs), len(l.recs), shortRecs(l.recs))
		}
	}
	for id, l := range h.logs {
		if _, ok := got[id]; !ok && l.ok && l.w1 <= k && !(l.applied && l.a0 < b) {
			h.viol("crash-lost", "%s: log %d (%d records) is lost", what, id, len(l.recs))
		}
	}
}

func init() { reg("wal", false, walJob) }

var _ = time.Now
