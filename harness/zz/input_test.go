package zzverif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
)

// ---- arguments that cannot be served (P15) -----------------------------------

const hostileContract = uint32(77)

type hput struct {
	topic    string // without options
	contract uint32
	payload  string
}

type input struct {
	*eng
	mutable bool
	puts    []hput
	used    []resID
}

// guarded runs a call, a panic is a violation.
func (in *input) guarded(what string, f func() error) (err error) {
	defer in.r.Guard(what)()
	defer func() {
		if e := recover(); e != nil {
			in.viol("panic", "%s panics: %v\n%s", what, e, debug.Stack())
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	err = f()
	in.logf("%s=%v", what, err)
	return
}

// topicOf makes a topic, and tells whether it is acceptable and could be read with a query for the same topic.
func (in *input) topicOf() (topic []byte, ok, static bool) {
	rng := in.rng
	switch rng.Intn(12) {
	case 0:
		return nil, false, false
	case 1:
		return []byte{}, false, false
	case 2:
		return bytes.Repeat([]byte("a"), 65537+rng.Intn(3)*70000), false, false
	case 3:
		b := bytes.Repeat([]byte("b"), 65536-rng.Intn(2))
		b[rng.Intn(60000)+1] = '.'
		return b, true, true
	case 4: // too many parts, or as many as there could be
		n := 252 + rng.Intn(5)
		if rng.Intn(3) == 0 {
			n = 300 + rng.Intn(800)
		}
		sep := "."
		if rng.Intn(4) == 0 {
			sep = ".."
		}
		t := strings.Repeat("p"+sep, n-1) + "q"
		static = true
		switch rng.Intn(4) {
		case 0:
			t += "..."
			static = false
		case 1:
			t = strings.Replace(t, "p", "*", 1+rng.Intn(n))
			static = false
		}
		return []byte(t), n <= 254, static && n <= 254
	case 5:
		return []byte(strings.Repeat("?", 1+rng.Intn(4))), false, false
	case 6:
		return []byte([]string{"?ttl=5h", "a?", "a?ttl", "a?=", "a?ttl=", "a?&&", "a??b?c", "a?ttl=1h?last=3", "a?x=1&y=2"}[rng.Intn(9)]), true, false
	case 7:
		return []byte([]string{".", "..", "...", "....", "*", "*.*", "*...", "a.*...", "a*", "*a", "a..b", ".a", "a."}[rng.Intn(13)]), true, false
	case 8, 9:
		b := make([]byte, 1+rng.Intn(40))
		const al = "ab.*?&=\x00\xff/+# \n"
		for i := range b {
			b[i] = al[rng.Intn(len(al))]
		}
		if rng.Intn(2) == 0 {
			rng.Read(b)
		}
		key := ""
		for _, p := range strings.Split(string(b), "?") {
			if p != "" {
				key = p
				break
			}
		}
		opt := strings.Contains(string(b), "?")
		wild := strings.HasSuffix(key, "...")
		for _, p := range strings.Split(key, ".") {
			wild = wild || strings.HasSuffix(p, "*")
		}
		return b, key != "", key != "" && !opt && !wild
	}
	return []byte(fmt.Sprintf("h%d.%c", rng.Intn(6), 'a'+rng.Intn(3))), true, true
}

// idOf makes an ID, and tells whether an entry could be put with it.
func (in *input) idOf() (id []byte, set, ok bool) {
	rng := in.rng
	switch rng.Intn(9) {
	case 0, 1:
		return nil, false, true
	case 2:
		id := in.db.NewID()
		in.r.Add("ids", 1)
		if rng.Intn(3) == 0 {
			id = append(id, 1, 2, 3)
		}
		return id, true, true
	case 3:
		return []byte{}, true, false
	case 4:
		b := make([]byte, 1+rng.Intn(15))
		rng.Read(b)
		return b, true, false
	case 5: // no sequence
		id := in.db.NewID()
		binary.LittleEndian.PutUint64(id[8:], 0)
		return id, true, false
	case 6, 7: // a sequence that was not handed out
		id := in.db.NewID()
		s := message.ID(id).Sequence()
		binary.LittleEndian.PutUint64(id[8:], []uint64{s + 1, s + 300, s + 1000000, 1 << 31, 1 << 40, 1 << 62, ^uint64(0)}[rng.Intn(7)])
		return id, true, false
	}
	id = make([]byte, 16)
	rng.Read(id)
	id[15] |= 0x80
	return id, true, false
}

func clip(b []byte) string { return short(fmt.Sprintf("%q", b)) }

var (
	oversizedOnce sync.Once
	oversizedBuf  []byte
)

// oversized returns a payload that is just too long. It is shared by all cases and never written, so it takes no memory.
func oversized(rng *rand.Rand) []byte {
	oversizedOnce.Do(func() {
		var err error
		if oversizedBuf, err = syscall.Mmap(-1, 0, 1<<30+1+4096, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON); err != nil {
			panic("harness: " + err.Error())
		}
	})
	return oversizedBuf[:1<<30+1+rng.Intn(2)*4096]
}

// put calls Put, PutEntry or those of a batch.
func (in *input) put() {
	rng := in.rng
	topic, tok, static := in.topicOf()
	id, idset, idok := in.idOf()
	p := []byte(in.payload())
	pok := true
	switch rng.Intn(8) {
	case 0:
		p, pok = nil, false
	case 1:
		p, pok = []byte{}, false
	case 2:
		if rng.Intn(10) == 0 {
			p, pok = oversized(rng), false
			in.r.Add("oversized_payloads", 1)
		}
	}
	contract := hostileContract
	ok := tok && pok
	plain := rng.Intn(3) == 0
	batch := rng.Intn(3) == 0
	if !plain {
		ok = ok && (!idset || idok)
	} else {
		contract = master
	}
	what := fmt.Sprintf("put(%s,payload %d,id %x,plain=%v,batch=%v)", clip(topic), len(p), id, plain, batch)
	en := unitdb.NewEntry(topic, p).WithContract(contract)
	if idset && !plain {
		en.WithID(id)
	}
	var inner error
	err := in.guarded(what, func() error {
		if !batch {
			if plain {
				inner = in.db.Put(topic, p)
			} else {
				inner = in.db.PutEntry(en)
			}
			return inner
		}
		return in.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			if plain {
				inner = b.Put(topic, p)
			} else {
				inner = b.PutEntry(en)
			}
			return nil // the batch goes on without it
		})
	})
	in.r.Add("puts_judged", 1)
	if in.bad {
		return
	}
	if batch && err != nil {
		in.viol("batch-error", "batch that went on after a refused entry: %v", err)
		return
	}
	if (inner == nil) != ok {
		in.viol("accept", "%s returned %v, acceptable: topic %v, payload %v, id %v", what, inner, tok, pok, !idset || idok || plain)
		return
	}
	if inner == nil {
		in.r.Add("accepted", 1)
		if static {
			in.puts = append(in.puts, hput{string(topic), contract, string(p)})
		}
		return
	}
	in.r.Add("refused", 1)
	if plain || rng.Intn(2) == 0 {
		return
	}
	// what was wrong with the entry is put right, and it is put again.
	if !tok {
		en.Topic = []byte(fmt.Sprintf("h%d.%c", rng.Intn(6), 'a'+rng.Intn(3)))
		static = true
	} else if rng.Intn(3) == 0 {
		en.Topic = []byte(fmt.Sprintf("again%d", rng.Intn(50)))
		static = true
	}
	topic = en.Topic
	if !pok {
		p = []byte(in.payload())
		en.WithPayload(p)
	}
	if idset && !idok {
		if rng.Intn(2) == 0 {
			en.WithID(in.db.NewID())
		} else {
			en.WithID(nil)
		}
	}
	err = in.guarded(fmt.Sprintf("put again(%s)", clip(topic)), func() error { return in.db.PutEntry(en) })
	if err != nil {
		in.viol("accept", "an entry that was refused is still refused once it is put right: %v", err)
		return
	}
	in.r.Add("put_right", 1)
	if static {
		in.puts = append(in.puts, hput{string(topic), contract, string(p)})
	}
}

// remove calls Delete, DeleteEntry or that of a batch with something that is to be refused, or has nothing to delete.
func (in *input) remove() {
	rng := in.rng
	topic, tok, _ := in.topicOf()
	id, _, _ := in.idOf()
	must := !in.mutable || !tok || len(id) < 16
	if rng.Intn(4) == 0 && len(in.m.ents) > 0 {
		// an entry that exists, and a topic that is none
		m := in.m.ents[rng.Intn(len(in.m.ents))]
		if m.id != nil {
			id = m.id
			if in.mutable {
				topic, tok = [][]byte{nil, {}, []byte("??"), bytes.Repeat([]byte("x"), 70000)}[rng.Intn(4)], false
				must = true
			} else {
				topic = []byte(m.topic)
				must = true
			}
		}
	}
	what := fmt.Sprintf("delete(%s,id %x)", clip(topic), id)
	how := rng.Intn(3)
	var inner error
	in.guarded(what, func() error {
		switch how {
		case 0:
			inner = in.db.Delete(id, topic)
		case 1:
			inner = in.db.DeleteEntry(unitdb.NewEntry(topic, nil).WithID(id).WithContract(hostileContract))
		case 2:
			return in.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
				inner = b.DeleteEntry(unitdb.NewEntry(topic, nil).WithID(id).WithContract(hostileContract))
				return nil
			})
		}
		return inner
	})
	in.r.Add("deletes_judged", 1)
	if must && inner == nil && !in.bad {
		in.viol("delete-accept", "%s (%d) returned no error: mutable %v, topic acceptable %v, id of %d bytes", what, how, in.mutable, tok, len(id))
	}
}

// query calls Get.
func (in *input) query() {
	rng := in.rng
	topic, tok, _ := in.topicOf()
	q := unitdb.NewQuery(topic).WithContract([]uint32{0, hostileContract, master, 5}[rng.Intn(4)])
	limit := []int{0, -1, -1 << 40, 1, 7, 1 << 40}[rng.Intn(6)]
	q.WithLimit(limit)
	switch rng.Intn(4) {
	case 0:
		q.WithLast([]string{"", "x", "-5m", "10m", "5", "999999999h", "1h1h"}[rng.Intn(7)])
	}
	var items [][]byte
	what := fmt.Sprintf("get(%s,limit %d)", clip(topic), limit)
	err := in.guarded(what, func() (err error) {
		items, err = in.db.Get(q)
		return
	})
	in.r.Add("gets_judged", 1)
	if in.bad {
		return
	}
	if (err == nil) != tok {
		in.viol("get-accept", "%s returned %d items and %v, topic acceptable %v", what, len(items), err, tok)
		return
	}
	if limit > 0 && len(items) > limit {
		in.viol("get-limit", "%s returned %d items", what, len(items))
	}
	for _, it := range items {
		if !in.ever[string(it)] {
			in.viol("get-unknown", "%s returned a payload that was never put: %s", what, clip(it))
		}
	}
}

// accepted checks that what was accepted can be read.
func (in *input) checkAccepted() {
	if in.bad {
		return
	}
	type key struct {
		t string
		c uint32
	}
	all := map[key]map[string]int{}
	for _, h := range in.puts {
		k := key{h.topic, h.contract}
		if all[k] == nil {
			all[k] = map[string]int{}
		}
		all[k][h.payload]++
	}
	for k, want := range all {
		got, err := in.db.Get(unitdb.NewQuery([]byte(k.t)).WithContract(k.c).WithLimit(100000))
		if err != nil {
			in.viol("accepted-error", "Get(%s): %v", clip([]byte(k.t)), err)
			return
		}
		have := map[string]int{}
		for _, g := range got {
			have[string(g)]++
			if !in.ever[string(g)] {
				in.viol("accepted-unknown", "Get(%s) returned a payload that was never put: %s", clip([]byte(k.t)), clip(g))
				return
			}
		}
		for p, n := range want {
			if have[p] != n {
				in.viol("accepted-missing", "Get(%s,c%x) returns %s %d times, it was put %d times; %d reopens", clip([]byte(k.t)), k.c, short(p), have[p], n, in.reopens)
				return
			}
		}
		in.r.Add("accepted_checked", int64(len(want)))
	}
}

func (in *input) tryOpen(dir string, opts ...unitdb.Options) (db *unitdb.DB, err error, panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprint(e)
		}
	}()
	db, err = unitdb.Open(dir, opts...)
	return
}

// options opens the database with options that cannot be served, or hardly.
func (in *input) options() {
	rng := in.rng
	if err := in.db.Close(); err != nil {
		in.viol("close-error", "Close: %v", err)
		return
	}
	in.db = nil
	var o unitdb.Options
	what := ""
	must := false
	switch rng.Intn(5) {
	case 4:
		n := []int{0, -1, -1 << 40, 1}[rng.Intn(4)]
		o, what = unitdb.WithMaxQueryLimit(n), fmt.Sprintf("max query limit %d", n)
	case 0:
		n := []int{0, 1, 16, 31, 33, 64}[rng.Intn(6)]
		o, what, must = unitdb.WithEncryptionKey(make([]byte, n)), fmt.Sprintf("key of %d bytes", n), true
	case 1:
		o, what = unitdb.WithMaxSyncDuration(time.Second, 0), "no background sync"
	case 2:
		o, what = unitdb.WithMaxSyncDuration(0, 1), "sync duration 0"
	case 3:
		n := []int{0, -1, -1000}[rng.Intn(3)]
		o, what = unitdb.WithDefaultQueryLimit(n), fmt.Sprintf("query limit %d", n)
	}
	db, err, pan := in.tryOpen(in.dir, append(append([]unitdb.Options{}, in.cfg.opts...), o)...)
	in.logf("open with %s=%v", what, err)
	in.r.Add("options_judged", 1)
	if pan != "" {
		in.viol("panic", "Open with %s panics: %s", what, pan)
		return
	}
	if (err != nil) != must {
		in.viol("open-accept", "Open with %s returns %v", what, err)
		return
	}
	if db != nil {
		in.db = db
		for i := 0; i < 3 && !in.bad; i++ {
			in.guarded("put with "+what, func() error {
				p := in.payload()
				in.puts = append(in.puts, hput{"opt.x", hostileContract, p})
				return in.db.PutEntry(unitdb.NewEntry([]byte("opt.x"), []byte(p)).WithContract(hostileContract))
			})
			in.query()
			time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
		}
		if !in.bad {
			if err := db.Close(); err != nil {
				in.viol("close-error", "Close: %v", err)
			}
		}
		in.db = nil
	}
	if !in.bad && in.open() {
		in.reopens++
		in.resync()
		in.checkAll()
		in.checkAccepted()
	}
}

// resync takes over the sequence of the database.
func (in *input) resync() {
	in.m.seq = message.ID(in.db.NewID()).Sequence()
}

func init() {
	reg("input", true, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			cfg := &engCfg{
				topics:    pickTopics(rng, 3),
				contracts: []uint32{5, 9},
				payload:   mixPayload,
				putc:      10, newid: 8, sleep: 5, sync: 2,
				deflimit: 1000,
				maxSleep: 2500 * time.Millisecond,
			}
			mutable := rng.Intn(3) > 0
			if mutable {
				cfg.opts = append(cfg.opts, unitdb.WithMutable())
				cfg.del, cfg.bdel = 3, 0
			}
			cfg.opts = append(cfg.opts, randomConfig(rng)...)
			dir := filepath.Join(j.Dir, fmt.Sprintf("in%d", i))
			r.Case(i, fmt.Sprintf("mutable=%v", mutable))
			e := newEng(r, rng, dir, cfg)
			in := &input{eng: e, mutable: mutable}
			if !e.open() {
				return
			}
			for k := 0; k < j.Int("ops", 60) && !e.bad; k++ {
				switch rng.Intn(10) {
				case 0, 1, 2:
					in.put()
				case 3, 4:
					in.remove()
				case 5, 6:
					in.query()
				case 7:
					if rng.Intn(6) == 0 {
						in.options()
					} else {
						in.put()
					}
				default:
					e.step()
				}
				if e.bad || e.db == nil {
					break
				}
				in.resync()
				e.tick()
				e.check(e.pick(), e.contract(), 0)
				if rng.Intn(10) == 0 {
					in.checkAccepted()
				}
			}
			for k := 0; k < 2 && !e.bad && e.db != nil; k++ {
				time.Sleep(4 * time.Second)
				if err := e.db.Sync(); err != nil {
					e.viol("sync-error", "Sync: %v", err)
				}
				e.checkAll()
				in.checkAccepted()
				if !e.bad {
					e.reopen()
				}
			}
			if e.db != nil && !e.bad {
				in.checkAccepted()
				if err := e.db.Close(); err != nil {
					e.viol("close-error", "Close: %v", err)
				}
			}
			if i == j.From {
				l := e.log
				if len(l) > 25 {
					l = l[:25]
				}
				r.Sample(map[string]interface{}{"case": i, "first_ops": l})
			}
			r.Add("cases", 1)
			r.Seen("histories", strings.Join(e.log, ";"))
			os.RemoveAll(dir)
		})
	})
}
