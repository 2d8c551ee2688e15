package zzverif

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/unit-io/unitdb"
)

// ---- one handle at a time, and what Open and Close leave behind (P14) ------

// openFiles counts the descriptors of this process for files below a directory.
func openFiles(dir string) (names []string) {
	des, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, d := range des {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			names = append(names, l[len(dir)+1:])
		}
	}
	sort.Strings(names)
	return
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			m[p] = "dir"
			return nil
		}
		if b, err := os.ReadFile(p); err == nil && !strings.HasSuffix(p, ".lock") {
			m[p] = string(b)
		}
		return nil
	})
	return m
}

func copyDir(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		t := to + p[len(from):]
		if fi.IsDir() {
			return os.MkdirAll(t, 0777)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0666)
	})
}

// workers returns the stacks of goroutines that the database started.
func workers() (gs []string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if k := strings.Index(g, "created by github.com/unit-io/"); k > 0 && !strings.Contains(g[k:], "zzverif") {
			gs = append(gs, g)
		}
	}
	return
}

type life struct {
	*eng
}

// settled checks what a closed database leaves behind.
func (l *life) settled(what string) bool {
	if l.bad {
		return false
	}
	if fs := openFiles(l.dir); len(fs) > 0 {
		l.viol("fd-leak", "after %s %d files are still open: %v", what, len(fs), fs)
		return false
	}
	l.r.Add("fd_checks", 1)
	gs := workers()
	for i := 0; i < 200 && len(gs) > 0; i++ {
		time.Sleep(10 * time.Second)
		gs = workers()
	}
	if len(gs) > 0 {
		l.viol("goroutine-leak", "after %s and 2000s there are %d goroutines of the database\n%s", what, len(gs), strings.Join(gs, "\n\n"))
		return false
	}
	l.r.Add("goroutine_checks", 1)
	return true
}

// tryOpen opens with other options or a fault, and tells whether it panicked.
func (l *life) tryOpen(dir string, opts ...unitdb.Options) (db *unitdb.DB, err error, panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprint(e)
		}
	}()
	db, err = unitdb.Open(dir, opts...)
	return
}

func (l *life) close() bool {
	if l.bad || l.db == nil {
		return false
	}
	if err := l.db.Close(); err != nil {
		l.viol("close-error", "Close: %v", err)
		return false
	}
	old := l.db
	l.db = nil
	l.closed(old)
	return l.settled("Close")
}

// closed calls everything on a closed handle.
func (l *life) closed(db *unitdb.DB) {
	defer func() {
		if e := recover(); e != nil {
			l.viol("closed-panic", "a call on a closed DB panics: %v", e)
		}
	}()
	id := []byte("12345678901234567")
	before := snapshot(l.dir)
	calls := []struct {
		n string
		f func() error
	}{
		{"Close", func() error { return db.Close() }},
		{"Get", func() error { _, err := db.Get(unitdb.NewQuery([]byte(l.pick()))); return err }},
		{"Put", func() error { return db.Put([]byte(l.pick()), []byte("x")) }},
		{"PutEntry", func() error { return db.PutEntry(unitdb.NewEntry([]byte(l.pick()), []byte("x"))) }},
		{"Delete", func() error { return db.Delete(id, []byte(l.pick())) }},
		{"DeleteEntry", func() error { return db.DeleteEntry(unitdb.NewEntry([]byte(l.pick()), nil).WithID(id)) }},
		{"Batch", func() error {
			return db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Put([]byte(l.pick()), []byte("x")) })
		}},
		{"Batch of deletes", func() error {
			return db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Delete(id, []byte(l.pick())) })
		}},
		{"Sync", func() error { return db.Sync() }},
	}
	for _, i := range l.rng.Perm(len(calls)) {
		if l.bad {
			return
		}
		done := l.r.Guard(calls[i].n + " on a closed DB")
		err := calls[i].f()
		done()
		l.r.Add("closed_calls", 1)
		if err == nil {
			l.viol("closed-call", "%s on a closed DB returns no error", calls[i].n)
			return
		}
	}
	db.Count()
	db.NewID()
	db.NewContract()
	db.Varz()
	db.FileSize()
	if after := snapshot(l.dir); !sameSnap(before, after) {
		l.viol("closed-write", "calls on a closed DB changed its files")
	}
}

func sameSnap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// work makes a few operations.
func (l *life) work(n int) {
	for i := 0; i < n && !l.bad && l.db != nil; i++ {
		done := l.r.Guard("operation")
		l.step()
		done()
		l.tick()
	}
}

// second opens a database that is open.
func (l *life) second() {
	time.Sleep(1500 * time.Millisecond) // nothing is left to be written
	before := snapshot(l.dir)
	db, err, p := l.tryOpen(l.dir, l.cfg.opts...)
	l.logf("second open=%v", err)
	l.r.Add("second_opens", 1)
	if p != "" {
		l.viol("open-panic", "Open of a database that is open panics: %s", p)
		return
	}
	if err == nil {
		l.viol("two-handles", "a database that is open is opened again")
		db.Close()
		return
	}
	if !sameSnap(before, snapshot(l.dir)) {
		l.viol("second-writes", "Open of a database that is open fails, but changes its files")
		return
	}
	l.checkAll()
}

// badOpens opens the closed database in ways that fail.
func (l *life) badOpens() {
	for _, n := range []int{0, 1, 16, 31, 33} {
		k := make([]byte, n)
		db, err, p := l.tryOpen(l.dir, append(append([]unitdb.Options{}, l.cfg.opts...), unitdb.WithEncryptionKey(k))...)
		l.logf("open(key of %d)=%v", n, err)
		if p != "" {
			l.viol("open-panic", "Open with a key of %d bytes panics: %s", n, p)
			return
		}
		if err == nil {
			db.Close()
			if n > 0 {
				l.viol("bad-key", "Open with a key of %d bytes succeeds", n)
				return
			}
			continue
		}
		l.r.Add("failed_opens", 1)
		if !l.settled(fmt.Sprintf("Open failed (key of %d bytes)", n)) {
			return
		}
	}
}

var errFault = errors.New("injected fault")

// faults fails a file operation of Open, for every operation of it.
func (l *life) faults(from string) {
	d := l.dir
	defer func() { l.dir = d; setFSHook(nil) }()
	for k := 0; k < 400 && !l.bad; k++ {
		if k > 30 && l.rng.Intn(4) > 0 {
			continue
		}
		l.dir = filepath.Join(filepath.Dir(d), fmt.Sprintf("f%d_%s", k, filepath.Base(d)))
		if err := copyDir(from, l.dir); err != nil {
			l.r.Add("copy_errors", 1)
			return
		}
		os.Remove(filepath.Join(l.dir, "unitdb.lock"))
		lasting := l.rng.Intn(3) == 0
		var n int64
		var which string
		dir := l.dir
		opening := true
		setFSHook(func(op, name, name2 string, b []byte, off int64) error {
			if op == "opened" || op == "sync" || !strings.HasPrefix(name, dir) || !opening {
				return nil
			}
			c := atomic.AddInt64(&n, 1) - 1
			if c == int64(k) || lasting && c > int64(k) && !strings.HasSuffix(name, ".lock") {
				if c == int64(k) {
					which = op + " " + strings.TrimPrefix(name, dir)
				}
				return errFault
			}
			return nil
		})
		db, err, p := l.tryOpen(l.dir, l.cfg.opts...)
		opening = false
		setFSHook(nil)
		if p != "" {
			l.viol("open-panic", "Open panics when operation %d of it (%s) fails: %s", k, which, p)
			return
		}
		if which == "" { // all operations were failed
			if err != nil {
				l.viol("open-error", "Open of a copy: %v", err)
				return
			}
			db.Close()
			os.RemoveAll(l.dir)
			l.r.Add("fault_sweeps", 1)
			return
		}
		l.r.Add("faults", 1)
		f := strings.Fields(which)[0]
		if err == nil {
			l.r.Add("faults_survived", 1)
			l.r.Seen("faults_survived", f)
			db.Close()
			os.RemoveAll(l.dir)
			continue
		}
		l.r.Add("failed_opens", 1)
		l.r.Seen("fault_points", which)
		l.logf("[copy: Open fails, as operation %d of it fails (%s, lasting=%v): %v]", k, which, lasting, err)
		if !l.settled(fmt.Sprintf("Open failed as operation %d of it failed (%s)", k, which)) {
			return
		}
		if !l.open() {
			return
		}
		l.checkAll()
		if l.bad {
			return
		}
		if err := l.db.Close(); err != nil {
			l.viol("close-error", "Close: %v", err)
			return
		}
		l.db = nil
		os.RemoveAll(l.dir)
	}
}

func (l *life) run(ops int) {
	if !l.open() {
		return
	}
	for i := 0; i < 3 && !l.bad; i++ {
		l.work(ops)
		if l.bad {
			return
		}
		l.second()
		l.checkAll()
		from := l.dir + "_copy"
		crash := l.rng.Intn(2) == 0
		if crash && !l.bad {
			// as if it crashed here
			time.Sleep(1500 * time.Millisecond)
			if err := copyDir(l.dir, from); err != nil {
				return
			}
		}
		if !l.close() {
			return
		}
		if !crash {
			copyDir(l.dir, from)
		}
		l.logf("close, crash=%v", crash)
		l.badOpens()
		if l.bad {
			return
		}
		l.faults(from)
		os.RemoveAll(from)
		if l.bad || !l.open() {
			return
		}
		l.logf("reopen")
		l.ids = nil
		l.checkAll()
	}
	l.close()
}

// ---- handles of many goroutines and processes ------------------------------

// holder opens and closes the database again and again. Whoever holds a handle
// also takes a lock of the harness, which fails if another one holds a handle.
type holder struct {
	dir, guard string
	id         string
	rng        *rand.Rand
	rounds     int
	out        func(m map[string]interface{})
	stop       func() bool
	openDelay  time.Duration
}

func (h *holder) run() {
	got := 0
	for k := 0; k < 400*h.rounds && got < h.rounds && !h.stop(); k++ {
		db, err := unitdb.Open(h.dir, unitdb.WithMutable())
		if err != nil {
			h.out(map[string]interface{}{"t": "refused", "e": err.Error()})
			time.Sleep(time.Duration(h.rng.Intn(1500)) * time.Microsecond)
			continue
		}
		got++
		g, err := os.OpenFile(h.guard, os.O_RDWR, 0666)
		if err == nil {
			err = syscall.Flock(int(g.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
		}
		if err != nil {
			h.out(map[string]interface{}{"t": "two", "e": err.Error()})
			return
		}
		p := fmt.Sprintf("%s-%d", h.id, got)
		h.out(map[string]interface{}{"t": "held", "p": p})
		if err := db.Put([]byte("a.b"), []byte(p)); err != nil {
			h.out(map[string]interface{}{"t": "err", "e": "put: " + err.Error()})
		}
		if h.rng.Intn(3) == 0 {
			db.Sync()
		}
		time.Sleep(time.Duration(h.rng.Intn(2000)) * time.Microsecond)
		g.Close()
		if err := db.Close(); err != nil {
			h.out(map[string]interface{}{"t": "err", "e": "close: " + err.Error()})
			return
		}
		h.out(map[string]interface{}{"t": "put", "p": p})
	}
}

// delayHook delays the operations on the lock file, before and after they are done.
func delayHook(rng *rand.Rand) fsHookFn {
	var mu sync.Mutex
	return func(op, name, name2 string, b []byte, off int64) error {
		if strings.HasSuffix(name, ".lock") {
			mu.Lock()
			d := rng.Intn(4000)
			if rng.Intn(3) > 0 {
				d = rng.Intn(200)
			}
			mu.Unlock()
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
		return nil
	}
}

// TestHolder is a process that opens and closes a database.
func TestHolder(t *testing.T) {
	p := os.Getenv("VHOLDER")
	if p == "" {
		t.Skip("no holder")
	}
	var o struct {
		Dir, Guard, ID string
		Seed           int64
		Rounds         int
	}
	if err := json.Unmarshal([]byte(p), &o); err != nil {
		t.Fatal(err)
	}
	w := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	if setFSHook != nil {
		setFSHook(delayHook(rand.New(rand.NewSource(o.Seed + 1))))
	}
	h := &holder{dir: o.Dir, guard: o.Guard, id: o.ID, rng: rand.New(rand.NewSource(o.Seed)), rounds: o.Rounds, stop: func() bool { return false },
		out: func(m map[string]interface{}) {
			b, _ := json.Marshal(m)
			syscall.Write(int(w.Fd()), append(b, '\n'))
		}}
	h.run()
	os.Exit(0)
}

type holderLog struct {
	mu      sync.Mutex
	two     string
	errs    []string
	acked   []string
	refused int
	held    int
	order   []string
}

func (hl *holderLog) add(id string, m map[string]interface{}) {
	hl.mu.Lock()
	defer hl.mu.Unlock()
	s := func(k string) string { v, _ := m[k].(string); return v }
	switch m["t"] {
	case "two":
		if hl.two == "" {
			hl.two = id + ": " + s("e")
		}
	case "err":
		hl.errs = append(hl.errs, id+": "+s("e"))
	case "put":
		hl.acked = append(hl.acked, s("p"))
	case "held":
		hl.held++
		hl.order = append(hl.order, id)
	case "refused":
		hl.refused++
	}
}

// judge looks at the database once all holders are done.
func (hl *holderLog) judge(r *Rep, dir, what string) {
	r.Add("handles", int64(hl.held))
	r.Add("refused_opens", int64(hl.refused))
	r.Seen("schedules", strings.Join(hl.order, ","))
	if hl.two != "" {
		r.Viol("two-handles", "%s: two handles of a database are open at the same time (%s)", what, hl.two)
		return
	}
	if len(hl.errs) > 0 {
		r.Viol("holder-error", "%s: %v", what, hl.errs)
		return
	}
	db, err := unitdb.Open(dir, unitdb.WithMutable())
	if err != nil {
		r.Viol("open-error", "%s: Open once all are done: %v", what, err)
		return
	}
	defer db.Close()
	got, err := db.Get(unitdb.NewQuery([]byte("a.b")).WithLimit(100000))
	if err != nil {
		r.Viol("get-error", "%s: Get: %v", what, err)
		return
	}
	n := map[string]int{}
	for _, p := range strs(got) {
		n[p]++
		if n[p] > 1 {
			r.Viol("duplicate", "%s: %q is returned twice", what, p)
			return
		}
	}
	for _, p := range hl.acked {
		if n[p] == 0 {
			r.Viol("lost", "%s: %q is lost, it was put by a handle that was closed since", what, p)
			return
		}
	}
	r.Add("acked_checked", int64(len(hl.acked)))
}

func init() {
	reg("life", true, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			cfg := &engCfg{topics: pickTopics(rng, 1+rng.Intn(4)), contracts: []uint32{master}, deflimit: 1000,
				opts: append([]unitdb.Options{unitdb.WithMutable()}, randomConfig(rng)...), payload: mixPayload,
				put: 10, putc: 4, batch: 3, newid: 5, del: 3, sleep: 4, sync: 3, ttl: 1, enc: 1, maxSleep: 1500 * time.Millisecond}
			cfg.contracts = append(cfg.contracts, 9)
			dir := filepath.Join(j.Dir, fmt.Sprintf("e%d", i))
			r.Case(i, strings.Join(cfg.topics, ","))
			l := &life{eng: newEng(r, rng, dir, cfg)}
			l.run(j.Int("ops", 25))
			setFSHook(nil)
			r.Add("cases", 1)
			r.Seen("histories", strings.Join(l.log, ";"))
			if i == j.From {
				r.Sample(map[string]interface{}{"case": i, "ops": l.log})
			}
			os.RemoveAll(dir)
		})
	})

	reg("handles", false, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			r.Case(i, "handles")
			dir := filepath.Join(j.Dir, fmt.Sprintf("h%d", i))
			guard := dir + ".guard"
			os.WriteFile(guard, nil, 0666)
			hl := &holderLog{}
			n := 2 + rng.Intn(6)
			var stop int32
			if setFSHook != nil {
				setFSHook(delayHook(rand.New(rand.NewSource(rng.Int63()))))
			}
			if j.Bool("procs") {
				var wg sync.WaitGroup
				var kills int64
				for k := 0; k < n; k++ {
					id := fmt.Sprintf("p%d", k)
					b, _ := json.Marshal(map[string]interface{}{"Dir": dir, "Guard": guard, "ID": id, "Seed": rng.Int63(), "Rounds": j.Int("rounds", 6)})
					cmd := exec.Command(os.Args[0], "-test.run", "^TestHolder$", "-test.timeout=120s")
					cmd.Env = append(os.Environ(), "VHOLDER="+string(b), "VJOB=")
					pr, pw, _ := os.Pipe()
					cmd.Stdout = pw
					var se bytes.Buffer
					cmd.Stderr = &se
					if err := cmd.Start(); err != nil {
						r.Add("start_errors", 1)
						pr.Close()
						pw.Close()
						continue
					}
					pw.Close()
					kill := k > 0 && rng.Intn(2) == 0
					after := time.Duration(5+rng.Intn(120)) * time.Millisecond
					wg.Add(1)
					go func() {
						defer wg.Done()
						if kill {
							t := time.AfterFunc(after, func() { cmd.Process.Kill(); atomic.AddInt64(&kills, 1) })
							defer t.Stop()
						}
						b, _ := io.ReadAll(pr)
						pr.Close()
						err := cmd.Wait()
						for _, line := range bytes.Split(b, []byte("\n")) {
							var m map[string]interface{}
							if json.Unmarshal(line, &m) == nil {
								hl.add(id, m)
							}
						}
						if err != nil && !kill {
							hl.add(id, map[string]interface{}{"t": "err", "e": fmt.Sprintf("process: %v %.1500s", err, se.String())})
						}
					}()
				}
				wg.Wait()
				r.Add("processes", int64(n))
				r.Add("killed", kills)
			} else {
				var wg sync.WaitGroup
				for k := 0; k < n; k++ {
					id := fmt.Sprintf("g%d", k)
					h := &holder{dir: dir, guard: guard, id: id, rng: rand.New(rand.NewSource(rng.Int63())), rounds: j.Int("rounds", 6),
						stop: func() bool { return atomic.LoadInt32(&stop) != 0 }}
					h.out = func(m map[string]interface{}) {
						if m["t"] == "two" {
							atomic.StoreInt32(&stop, 1)
						}
						hl.add(id, m)
					}
					wg.Add(1)
					go func() { defer wg.Done(); h.run() }()
				}
				wg.Wait()
				if fs := openFiles(dir); len(fs) > 0 {
					r.Viol("fd-leak", "files are still open once all handles are closed: %v", fs)
				}
			}
			if setFSHook != nil {
				setFSHook(nil)
			}
			hl.judge(r, dir, fmt.Sprintf("%d holders", n))
			r.Add("cases", 1)
			os.RemoveAll(dir)
			os.Remove(guard)
		})
	})
}
