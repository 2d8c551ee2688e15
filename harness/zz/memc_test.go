package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unit-io/unitdb/memdb"
)

// Monitors of memdb used by many goroutines: histories of keys shared by
// workers are checked for linearizability (memlin), and entries that are
// handed over to a syncer meanwhile are counted (memsync).

type mop struct {
	kind   byte // 'p', 'g', 'd'
	val    string
	ok     bool // the key was there
	t0, t1 int64
	lax    bool // overlaps a delete of the key
}

func (o mop) String() string {
	return fmt.Sprintf("[%d-%d %c %q %v]", o.t0, o.t1, o.kind, o.val, o.ok)
}

// linearizable tells if the operations of one key have an order that respects
// real time and explains all results. The second result is false if the search
// took too long to tell.
func linearizable(ops []mop) (bool, bool) {
	n := len(ops)
	if n > 64 {
		panic("history too long")
	}
	type state struct {
		done uint64
		val  string
	}
	seen := map[state]bool{}
	var rec func(done uint64, val string) bool
	steps := 0
	rec = func(done uint64, val string) bool {
		if done == ^uint64(0)>>(64-uint(n)) {
			return true
		}
		s := state{done, val}
		if seen[s] {
			return false
		}
		seen[s] = true
		steps++
		if steps > 300000 {
			return false
		}
		// the next operation starts before any other one that is left has ended
		end := int64(1) << 62
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.t1 < end {
				end = o.t1
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.t0 > end {
				continue
			}
			nv := val
			switch o.kind {
			case 'p':
				nv = o.val
			case 'g':
				if o.ok && o.val != val || !o.ok && val != "" && !o.lax {
					continue
				}
			case 'd':
				if !o.ok && val != "" || o.ok && val == "" && !o.lax {
					continue
				}
				nv = ""
			}
			if rec(done|1<<uint(i), nv) {
				return true
			}
		}
		return false
	}
	if n == 0 {
		return true, true
	}
	ok := rec(0, "")
	return ok, ok || steps <= 300000
}

func memPause(rng *rand.Rand, d time.Duration) {
	switch rng.Intn(6) {
	case 0:
		time.Sleep(time.Duration(rng.Int63n(int64(d))))
	case 1, 2:
		runtime.Gosched()
	}
}

func memlin(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*900007 + int64(i)))
		r.Case(i, "memlin")
		defer r.Guard("concurrent memdb history")()
		dir := filepath.Join(j.Dir, fmt.Sprintf("l%d", i))
		logIv := []time.Duration{1, 5, 20}[rng.Intn(3)] * time.Millisecond
		bd := []time.Duration{1, 3, 10, 50}[rng.Intn(4)] * time.Millisecond
		db, err := memdb.Open(memdb.WithLogFilePath(dir), memdb.WithLogInterval(logIv), memdb.WithTimeBlockInterval(bd))
		if err != nil {
			r.Viol("lin-open", "Open: %v", err)
			return
		}
		nkeys := 1 + rng.Intn(4)
		nw := 2 + rng.Intn(4)
		keys := make([]uint64, nkeys)
		for k := range keys {
			keys[k] = rng.Uint64()
		}
		var clock int64
		var mu sync.Mutex
		hist := make([][]mop, nkeys)
		var wg sync.WaitGroup
		rounds := j.Int("rounds", 3)
		for round := 0; round < rounds; round++ {
			left := make([]int32, nkeys)
			for k := range left {
				left[k] = 60
			}
			for k := range hist {
				hist[k] = nil
			}
			// values left by the round before
			start := make([]string, nkeys)
			for k := range keys {
				if v, err := db.Get(keys[k]); err == nil {
					start[k] = string(v)
				}
			}
			for w := 0; w < nw; w++ {
				wg.Add(1)
				go func(w int, rng *rand.Rand) {
					defer wg.Done()
					for n := 0; n < j.Int("ops", 40); n++ {
						k := rng.Intn(nkeys)
						if atomic.AddInt32(&left[k], -1) < 0 {
							return
						}
						var o mop
						o.t0 = atomic.AddInt64(&clock, 1)
						switch x := rng.Intn(10); {
						case x < 4:
							o.kind = 'p'
							o.val = fmt.Sprintf("r%dw%dn%d", round, w, n)
							if _, err := db.Put(keys[k], []byte(o.val)); err != nil {
								r.Viol("lin-put", "Put: %v", err)
								return
							}
						case x < 5:
							o.kind = 'd'
							err := db.Delete(keys[k])
							if err != nil && !strings.Contains(err.Error(), "does not exist") {
								r.Viol("lin-del", "Delete: %v", err)
								return
							}
							o.ok = err == nil
						default:
							o.kind = 'g'
							v, err := db.Get(keys[k])
							if err != nil && !strings.Contains(err.Error(), "does not exist") {
								r.Viol("lin-get", "Get: %v", err)
								return
							}
							o.ok = err == nil
							o.val = string(v)
						}
						o.t1 = atomic.AddInt64(&clock, 1)
						mu.Lock()
						hist[k] = append(hist[k], o)
						mu.Unlock()
						memPause(rng, 2*bd)
					}
				}(w, rand.New(rand.NewSource(rng.Int63())))
			}
			wg.Wait()
			for k := range hist {
				ops := hist[k]
				if start[k] != "" {
					ops = append(ops, mop{kind: 'p', val: start[k], t0: -2, t1: -1})
				}
				v, err := db.Get(keys[k])
				ops = append(ops, mop{kind: 'g', val: string(v), ok: err == nil, t0: 1 << 60, t1: 1<<60 + 1})
				sort.Slice(ops, func(a, b int) bool { return ops[a].t0 < ops[b].t0 })
				over := 0
				for a := range ops {
					for b := range ops {
						if a == b || ops[a].t0 > ops[b].t1 || ops[b].t0 > ops[a].t1 {
							continue
						}
						over++
						if ops[b].kind == 'd' {
							ops[a].lax = true
						}
					}
				}
				ok, told := linearizable(ops)
				r.Add("overlaps", int64(over/2))
				r.Add("lin_ops", int64(len(ops)))
				if !told {
					r.Add("undecided", 1)
				} else {
					r.Add("lin_checked", 1)
				}
				if told && !ok {
					r.Viol("lin", "operations on a key have no order that explains their results (logInterval=%v blockInterval=%v): %v", logIv, bd, ops)
				}
				s := ""
				for _, o := range ops {
					s += string(o.kind) + o.val
				}
				r.Seen("schedules", s)
			}
		}
		if err := db.Close(); err != nil {
			r.Viol("lin-close", "Close: %v", err)
		}
		r.Add("cases", 1)
		os.RemoveAll(dir)
	})
}

// mcent is an entry put by a worker with a key of its own.
type mcent struct {
	key        uint64
	val        string
	put0, put1 int64
	del0, del1 int64
	delOK      bool
	batch      *mcbatch
	mu         sync.Mutex
	given      int   // handed over
	give0      int64 // start of the lookup
}

type mcbatch struct {
	commit0, commit1 int64
	abort            bool
}

func memsync(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*1900009 + int64(i)))
		r.Case(i, "memsync")
		defer r.Guard("concurrent memdb history")()
		dir := filepath.Join(j.Dir, fmt.Sprintf("s%d", i))
		logIv := []time.Duration{1, 5, 20}[rng.Intn(3)] * time.Millisecond
		bd := []time.Duration{1, 3, 10, 50}[rng.Intn(4)] * time.Millisecond
		nodel := rng.Intn(3) == 0
		open := func() *memdb.DB {
			db, err := memdb.Open(memdb.WithLogFilePath(dir), memdb.WithLogInterval(logIv), memdb.WithTimeBlockInterval(bd))
			if err != nil {
				r.Viol("sync-open", "Open: %v", err)
				return nil
			}
			return db
		}
		db := open()
		if db == nil {
			return
		}
		var clock int64
		now := func() int64 { return atomic.AddInt64(&clock, 1) }
		var emu sync.RWMutex
		all := map[uint64]*mcent{}
		viol := func(sig, f string, a ...interface{}) {
			r.Viol(sig, f+fmt.Sprintf(" (logInterval=%v blockInterval=%v)", logIv, bd), a...)
		}
		newEnt := func(rng *rand.Rand, w int) *mcent {
			e := &mcent{key: rng.Uint64()}
			e.val = fmt.Sprintf("w%d-%x", w, e.key)
			if rng.Intn(10) == 0 {
				e.val += strings.Repeat("y", rng.Intn(3000))
			}
			emu.Lock()
			all[e.key] = e
			emu.Unlock()
			return e
		}
		find := func(k uint64) *mcent {
			emu.RLock()
			defer emu.RUnlock()
			return all[k]
		}
		var freeing sync.Map // key -> true once its block is being freed
		// hand takes one entry over.
		hand := func(t int64, k uint64, t0 int64, d []byte, err error, from string) {
			e := find(k)
			if e == nil {
				viol("sync-unknown", "%s: key %d was never put", from, k)
				return
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			if err != nil {
				if e.del0 == 0 {
					viol("sync-lookup", "%s: Lookup of key %d in block %d: %v, though it is not deleted", from, k, t, err)
				}
				return
			}
			if string(d) != e.val {
				viol("sync-value", "%s: key %d is handed over with value %.40q, expected %.40q", from, k, d, e.val)
			}
			e.given++
			if e.given > 1 {
				viol("sync-twice", "%s: key %d is handed over %d times", from, k, e.given)
			}
			if e.delOK && e.del1 < t0 {
				viol("sync-deleted", "%s: key %d is handed over though it was deleted before", from, k)
			}
			if e.batch != nil {
				if e.batch.abort {
					viol("sync-aborted", "%s: key %d of an aborted batch is handed over", from, k)
				} else if e.batch.commit0 == 0 {
					viol("sync-uncommitted", "%s: key %d is handed over before its batch is committed", from, k)
				}
			}
			r.Add("handed", 1)
		}
		var stop int32
		var swg, wg sync.WaitGroup
		drain := func(rng *rand.Rand) {
			err := db.BlockIterator(func(t int64, keys []uint64) (bool, error) {
				for _, k := range keys {
					t0 := now()
					d, err := db.Lookup(t, k)
					var c []byte
					if err == nil {
						c = append(c, d...)
					}
					hand(t, k, t0, c, err, "BlockIterator")
					if rng.Intn(8) == 0 {
						runtime.Gosched()
					}
				}
				for _, k := range keys {
					freeing.Store(k, true)
				}
				r.Add("blocks_freed", 1)
				if err := db.Free(t); err != nil {
					// all its entries could be deleted meanwhile
					if nodel {
						viol("sync-free", "Free: %v", err)
					}
				}
				return false, nil
			})
			if err != nil {
				viol("sync-iterate", "BlockIterator: %v", err)
			}
		}
		swg.Add(1)
		go func(rng *rand.Rand) {
			defer swg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				drain(rng)
				time.Sleep(time.Duration(rng.Int63n(int64(3 * bd))))
			}
		}(rand.New(rand.NewSource(rng.Int63())))
		nw := 2 + rng.Intn(4)
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int, rng *rand.Rand) {
				defer wg.Done()
				var mine []*mcent
				var batches []*memdb.Batch
				var pend [][]*mcent
				finish := func(n int) {
					b, es := batches[n], pend[n]
					batches = append(batches[:n], batches[n+1:]...)
					pend = append(pend[:n], pend[n+1:]...)
					mb := &mcbatch{}
					if len(es) > 0 {
						mb = es[0].batch
					}
					if mb.abort {
						if err := b.Abort(); err != nil {
							viol("sync-abort", "Abort: %v", err)
						}
						r.Add("aborted", 1)
						for _, e := range es {
							if v, err := db.Get(e.key); err == nil {
								viol("sync-abort-get", "Get(%d)=%.30q after its batch is aborted", e.key, v)
							}
						}
						return
					}
					for _, e := range es {
						e.mu.Lock()
					}
					mb.commit0 = now()
					for _, e := range es {
						e.mu.Unlock()
					}
					err := b.Commit()
					if err != nil {
						viol("sync-commit", "Commit: %v", err)
						return
					}
					mb.commit1 = now()
					r.Add("committed", 1)
					mine = append(mine, es...)
				}
				for n := 0; n < j.Int("ops", 80); n++ {
					switch x := rng.Intn(20); {
					case x < 10:
						e := newEnt(rng, w)
						e.put0 = now()
						if _, err := db.Put(e.key, []byte(e.val)); err != nil {
							viol("sync-put", "Put: %v", err)
							return
						}
						e.mu.Lock()
						e.put1 = now()
						e.mu.Unlock()
						mine = append(mine, e)
						r.Add("puts", 1)
					case x < 12:
						if len(batches) < 2 {
							b := db.NewBatch()
							mb := &mcbatch{abort: rng.Intn(3) == 0}
							var es []*mcent
							for k := rng.Intn(5); k >= 0; k-- {
								e := newEnt(rng, w)
								e.batch = mb
								if err := b.Put(e.key, []byte(e.val)); err != nil {
									viol("sync-bput", "batch Put: %v", err)
									return
								}
								es = append(es, e)
								memPause(rng, bd)
								if rng.Intn(4) == 0 && k > 0 {
									if err := b.Write(); err != nil {
										viol("sync-write", "batch Write: %v", err)
										return
									}
								}
							}
							batches = append(batches, b)
							pend = append(pend, es)
						} else {
							finish(rng.Intn(2))
						}
					case x < 14:
						if nodel || len(mine) == 0 {
							break
						}
						e := mine[len(mine)-1-rng.Intn(min2(len(mine), 12))]
						if e.del0 != 0 {
							break
						}
						e.mu.Lock()
						e.del0 = now()
						e.mu.Unlock()
						err := db.Delete(e.key)
						e.mu.Lock()
						e.del1 = now()
						e.delOK = err == nil
						given := e.given
						e.mu.Unlock()
						if err != nil {
							if given == 0 {
								viol("sync-del", "Delete(%d): %v, though the key was neither handed over nor deleted", e.key, err)
							}
						} else if v, err := db.Get(e.key); err == nil {
							viol("sync-del-get", "Get(%d)=%.30q after Delete", e.key, v)
						}
						r.Add("dels", 1)
					default:
						if len(mine) == 0 {
							break
						}
						e := mine[len(mine)-1-rng.Intn(min2(len(mine), 12))]
						v, err := db.Get(e.key)
						_, f := freeing.Load(e.key)
						switch {
						case err == nil && string(v) != e.val:
							viol("sync-get-value", "Get(%d)=%.40q, expected %.40q", e.key, v, e.val)
						case err == nil && e.delOK:
							viol("sync-get-deleted", "Get(%d)=%.40q after Delete", e.key, v)
						case err != nil && !e.delOK && !f:
							viol("sync-get-lost", "Get(%d): %v, though its block is not free and it is not deleted", e.key, err)
						}
						r.Add("gets", 1)
					}
					memPause(rng, 2*bd)
				}
				for len(batches) > 0 {
					finish(0)
				}
			}(w, rand.New(rand.NewSource(rng.Int63())))
		}
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		swg.Wait()
		// what is left is still there, and comes back when the DB is opened again
		if rng.Intn(2) == 0 {
			time.Sleep(bd + 4*logIv + 50*time.Millisecond)
			drain(rng)
			drain(rng)
			for end := time.Now().Add(30 * time.Second); db.Size() != 0 && time.Now().Before(end); {
				// the log could be late on a busy machine
				time.Sleep(bd + 50*time.Millisecond)
				drain(rng)
			}
			if n := db.Size(); n != 0 {
				viol("sync-left", "%d entries are left after all blocks are handed over", n)
			}
		} else {
			n := 0
			for _, e := range all {
				v, err := db.Get(e.key)
				gone := e.given > 0 || e.delOK || e.batch != nil && e.batch.abort
				if gone != (err != nil) || err == nil && string(v) != e.val {
					viol("sync-rest", "Get(%d)=%.30q,%v, expected to be gone: %v", e.key, v, err, gone)
				}
				if !gone {
					n++
				}
			}
			if s := int(db.Size()); s != n {
				viol("sync-size", "Size()=%d with %d entries left", s, n)
			}
			r.Add("left", int64(n))
		}
		if err := db.Close(); err != nil {
			viol("sync-close", "Close: %v", err)
		}
		if db = open(); db == nil {
			return
		}
		err := db.All(func(t int64, keys []uint64) (bool, error) {
			for _, k := range keys {
				t0 := now()
				d, err := db.Lookup(t, k)
				hand(t, k, t0, d, err, "All after Close and Open")
				r.Add("recovered", 1)
			}
			return false, db.Free(t)
		})
		if err != nil {
			viol("sync-all", "All: %v", err)
		}
		s := ""
		for _, e := range all {
			gone := e.delOK || e.batch != nil && e.batch.abort
			if !gone && e.given != 1 {
				viol("sync-lost", "key %d (batch: %v) is handed over %d times in the end", e.key, e.batch != nil, e.given)
			}
		}
		r.Seen("schedules", fmt.Sprint(i, clock, len(all), s))
		if err := db.Close(); err != nil {
			viol("sync-close", "Close: %v", err)
		}
		if i == j.From {
			r.Sample(map[string]interface{}{"case": i, "workers": nw, "entries": len(all), "logInterval": logIv.String(), "blockInterval": bd.String()})
		}
		r.Add("cases", 1)
		os.RemoveAll(dir)
	})
}

func init() {
	reg("memlin", true, memlin)
	reg("memsync", true, memsync)
	reg("memlinreal", false, memlin)
	reg("memsyncreal", false, memsync)
}
