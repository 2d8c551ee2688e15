package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
)

// ---- reference model -------------------------------------------------

type ment struct {
	seq      uint64
	id       []byte
	topic    string
	contract uint32
	payload  string
	exp      int64 // unix seconds, 0: never
	put      time.Time
	at       time.Time // when its id was made
	deleted  bool
	enc      bool
	maybe    bool // may or may not exist (in flight at a crash)
	group    int  // batch group, 0: none
}

type resID struct {
	id []byte
	at time.Time
}

type model struct {
	seq  uint64
	ents []*ment
}

const master = message.MasterContract

// matches tells whether a message stored under topic st is to be returned for
// a query for topic q (both without options).
func matches(st, q string) bool {
	if st == q {
		return true
	}
	if strings.Contains(q, "*") || strings.HasSuffix(q, "...") {
		return false // the monitors only query wildcard topics for their own entries
	}
	multi := strings.HasSuffix(st, "...")
	if multi {
		st = strings.TrimRight(st, ".")
	}
	var sp []string
	if st != "" {
		sp = strings.Split(st, ".")
	}
	qp := strings.Split(q, ".")
	if multi {
		if len(qp) <= len(sp) {
			return false
		}
	} else if len(qp) != len(sp) {
		return false
	}
	for i, p := range sp {
		if p != "*" && p != qp[i] {
			return false
		}
	}
	return true
}

// expect returns the live entries for a query, newest first, and the payloads of
// those that may or may not be returned, as they are within a second of their
// expiry or of the cutoff. A cutoff other than zero limits it to entries made after it.
func (m *model) expect(topic string, contract uint32, now, cutoff time.Time) (out []*ment, unsure map[string]bool) {
	for _, e := range m.ents {
		if e.deleted || e.contract != contract || !matches(e.topic, topic) {
			continue
		}
		edge, live := false, true
		if !cutoff.IsZero() {
			d := e.at.Sub(cutoff)
			edge = edge || d > -1500*time.Millisecond && d < 1500*time.Millisecond
			live = live && d >= 0
		}
		if e.exp != 0 {
			d := e.exp - now.Unix()
			edge = edge || d >= -1 && d <= 1
			live = live && d > 0
			if d < -1 {
				edge = false
			}
		}
		switch {
		case edge:
			if unsure == nil {
				unsure = map[string]bool{}
			}
			unsure[e.payload] = true
		case live:
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].seq > out[j].seq })
	return
}

// without removes the unsure payloads from a result.
func without(ss []string, unsure map[string]bool) []string {
	if len(unsure) == 0 {
		return ss
	}
	var r []string
	for _, s := range ss {
		if !unsure[s] {
			r = append(r, s)
		}
	}
	return r
}

// limitOK judges a limited answer when entries may have become visible in
// another order than their sequence (batches and reserved ids): it must hold
// exactly limit live entries, newest first, and may only omit an entry in
// favour of one that is not older by more than the sync granularity.
func limitOK(live []*ment, got []string, limit int) string {
	by := map[string]*ment{}
	for _, e := range live {
		by[e.payload] = e
	}
	if len(got) != limit {
		return fmt.Sprintf("%d entries instead of the limit", len(got))
	}
	in := map[*ment]bool{}
	var last *ment
	var oldest time.Time
	for _, p := range got {
		e := by[p]
		if e == nil {
			return "holds an entry that is not live: " + short(p)
		}
		if in[e] {
			return "holds an entry twice: " + short(p)
		}
		in[e] = true
		if last != nil && last.seq <= e.seq {
			return "is not newest first at " + short(p)
		}
		last = e
		if oldest.IsZero() || e.put.Before(oldest) {
			oldest = e.put
		}
	}
	for _, e := range live {
		if !in[e] && last != nil && e.seq > last.seq && e.put.Sub(oldest) > 2500*time.Millisecond {
			return "omits " + short(e.payload) + " for an entry that is older by " + e.put.Sub(oldest).String()
		}
	}
	return ""
}

func payloads(es []*ment) []string {
	var r []string
	for _, e := range es {
		r = append(r, e.payload)
	}
	return r
}

func short(s string) string {
	if i := strings.IndexByte(s, '~'); i > 0 && len(s) > 40 {
		return fmt.Sprintf("%s~[%d]", s[:i], len(s))
	}
	if len(s) > 60 {
		return fmt.Sprintf("%s..[%d]", s[:24], len(s))
	}
	return s
}

func shorts(ss []string) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, s := range ss {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i >= 60 {
			fmt.Fprintf(&b, "...+%d", len(ss)-i)
			break
		}
		fmt.Fprintf(&b, "%q", short(s))
	}
	b.WriteByte(']')
	return b.String()
}

func strs(bs [][]byte) []string {
	var r []string
	for _, b := range bs {
		r = append(r, string(b))
	}
	return r
}

func equalS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diffClass classifies how a result differs from what was expected.
func diffClass(got, want []string, everPut map[string]bool) string {
	w := map[string]int{}
	for _, s := range want {
		w[s]++
	}
	g := map[string]int{}
	dup, extra, unknown := false, false, false
	for _, s := range got {
		g[s]++
		if g[s] > 1 && w[s] < g[s] {
			dup = true
		} else if w[s] == 0 {
			extra = true
			if !everPut[s] {
				unknown = true
			}
		}
	}
	missing := false
	for s := range w {
		if g[s] == 0 {
			missing = true
		}
	}
	switch {
	case unknown:
		return "corrupt"
	case dup:
		return "duplicate"
	case extra && missing:
		return "wrong-entries"
	case extra:
		return "extra"
	case missing:
		return "missing"
	}
	return "order"
}

// ---- engine driver ---------------------------------------------------

type engCfg struct {
	topics    []string
	queries   []string // extra query topics
	contracts []uint32
	opts      []unitdb.Options
	payload   func(rng *rand.Rand, uniq string) string
	// op weights
	put, putc, ttl, batch, abort, del, newid, sleep, sync, reopen, enc int
	bdel, deldup, last                                                 int
	purge, maxTTL                                                      int
	bgexp, allids                                                      bool
	deflimit, maxlimit                                                 int
	maxSleep                                                           time.Duration
	ops                                                                int
	checkEvery                                                         int
	ordered                                                            bool
}

type eng struct {
	r       *Rep
	rng     *rand.Rand
	dir     string
	cfg     *engCfg
	db      *unitdb.DB
	m       model
	uniq    int
	pfx     string
	log     []string
	ever    map[string]bool
	bad     bool
	ids     []resID         // ids handed out, not used yet
	pool    []*pent         // entries put before, to be put again
	queries []*unitdb.Query // queries made before, to be made again
	gen     int
	grp     int

	syncs, reopens, checks int
}

func (e *eng) logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	e.log = append(e.log, s)
	if os.Getenv("VTRACE") != "" {
		fmt.Fprintln(os.Stderr, s)
	}
}

func (e *eng) tail() string {
	l := e.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	return strings.Join(l, "; ")
}

func (e *eng) viol(sig, f string, a ...interface{}) {
	if e.bad {
		return
	}
	e.bad = true
	e.r.Viol(sig, "%s | history: %s", fmt.Sprintf(f, a...), e.tail())
}

func (e *eng) open() bool {
	db, err := unitdb.Open(e.dir, e.cfg.opts...)
	if err != nil {
		e.viol("open-error", "Open: %v", err)
		return false
	}
	e.db = db
	e.tick()
	return true
}

func (e *eng) pick() string { return e.cfg.topics[e.rng.Intn(len(e.cfg.topics))] }
func (e *eng) contract() uint32 {
	return e.cfg.contracts[e.rng.Intn(len(e.cfg.contracts))]
}

func (e *eng) payload() string {
	e.uniq++
	u := fmt.Sprintf("%s%d", e.pfx, e.uniq)
	p := u
	if e.cfg.payload != nil {
		p = e.cfg.payload(e.rng, u)
	}
	e.ever[p] = true
	return p
}

func mixPayload(rng *rand.Rand, u string) string {
	switch rng.Intn(10) {
	case 0:
		return u + "~" + strings.Repeat("z", rng.Intn(9000)) // compressible
	case 1:
		b := make([]byte, rng.Intn(9000))
		rng.Read(b)
		return u + "~" + string(b)
	case 2:
		b := make([]byte, rng.Intn(200))
		rng.Read(b)
		return u + "~" + string(b)
	}
	return u + "~" + strings.Repeat("ab", rng.Intn(30))
}

func (e *eng) put(topic string, contract uint32, enc bool, ttl time.Duration, useID bool) {
	p := e.payload()
	if e.again(p, useID, e.db.PutEntry) {
		return
	}
	pe := e.entry(topic, p, contract)
	en := pe.en
	me := &ment{topic: topic, contract: contract, payload: p, put: time.Now(), at: time.Now(), enc: enc}
	e.entryOpts(pe, me, ttl, useID)
	err := e.db.PutEntry(en)
	e.putDone(pe)
	e.logf("put(%s,c%x,%q,ttl=%v,enc=%v,id=%v)=%v", topic, contract, short(p), ttl, enc, me.id != nil, err)
	if err != nil {
		e.viol("put-error", "PutEntry(%s): %v", topic, err)
		return
	}
	e.r.Add("puts", 1)
	e.m.ents = append(e.m.ents, me)
}

// pent is an entry that was put, and could be put again.
type pent struct {
	en       *unitdb.Entry
	topic    string
	contract uint32
	enc      bool
	ttl      time.Duration
	inTopic  bool // its time to live is part of the topic
	whole    bool // its slices were left alone
	payload  []byte
	id       []byte
}

// entry makes an entry, or takes one that was put before.
func (e *eng) entry(topic, p string, contract uint32) *pent {
	if n := len(e.pool); n > 0 && e.rng.Intn(4) == 0 {
		k := e.rng.Intn(n)
		pe := e.pool[k]
		e.pool = append(e.pool[:k], e.pool[k+1:]...)
		if !pe.inTopic {
			pe.en.ExpiresAt = 0 // was set by the monitor
		}
		pe.en.Encryption = false
		pe.en.Topic, pe.topic, pe.inTopic = []byte(topic), topic, false
		pe.payload = []byte(p)
		pe.en.WithPayload(pe.payload).WithContract(contract)
		pe.contract = contract
		e.r.Add("entries_reused", 1)
		return pe
	}
	pe := &pent{en: unitdb.NewEntry([]byte(topic), nil), topic: topic, contract: contract, payload: []byte(p)}
	pe.en.WithPayload(pe.payload)
	if contract != master || e.rng.Intn(2) == 0 {
		pe.en.WithContract(contract)
	}
	return pe
}

// putDone is called once the put of an entry returned: its slices could be modified, and it could be put again.
func (e *eng) putDone(pe *pent) {
	pe.whole = e.rng.Intn(2) == 0
	if !pe.whole {
		spoil(pe.en.Topic)
		e.r.Add("arguments_overwritten", 1)
	}
	spoil(pe.payload)
	spoil(pe.id)
	pe.payload, pe.id = nil, nil
	if len(e.pool) < 8 {
		e.pool = append(e.pool, pe)
	}
}

// again puts an entry that was put before with another payload and nothing else changed.
func (e *eng) again(p string, useID bool, put func(*unitdb.Entry) error) bool {
	if len(e.pool) == 0 || e.rng.Intn(4) > 0 {
		return false
	}
	k := e.rng.Intn(len(e.pool))
	pe := e.pool[k]
	if !pe.whole || pe.ttl > 0 && !pe.inTopic {
		return false
	}
	me := &ment{topic: pe.topic, contract: pe.contract, payload: p, put: time.Now(), at: time.Now(), enc: pe.enc}
	pe.payload = []byte(p)
	pe.en.WithPayload(pe.payload)
	if pe.ttl > 0 {
		me.exp = time.Now().Add(pe.ttl).Unix()
	}
	e.entryID(pe, me, useID)
	err := put(pe.en)
	spoil(pe.payload)
	spoil(pe.id)
	pe.payload, pe.id = nil, nil
	e.logf("put again(%s,c%x,%q,ttl=%v,id=%v)=%v", pe.topic, pe.contract, short(p), pe.ttl, me.id != nil, err)
	if err != nil {
		e.viol("put-error", "PutEntry(%s) of an entry that was put before: %v", pe.topic, err)
		return true
	}
	e.r.Add("puts", 1)
	e.r.Add("entries_put_again", 1)
	if pe.ttl > 0 {
		e.r.Add("entries_put_again_ttl", 1)
	}
	e.m.ents = append(e.m.ents, me)
	return true
}

// spoil overwrites a slice that may be modified.
func spoil(b []byte) {
	for i := range b {
		b[i] = 0xb5
	}
}

func spoilAll(bs [][]byte) {
	for _, b := range bs {
		spoil(b)
	}
}

// entryID sets ID of an entry, and its sequence in the model.
func (e *eng) entryID(pe *pent, me *ment, useID bool) {
	if useID && len(e.ids) > 0 {
		k := e.rng.Intn(len(e.ids))
		id := e.ids[k]
		e.ids = append(e.ids[:k], e.ids[k+1:]...)
		pe.id = append([]byte(nil), id.id...)
		pe.en.WithID(pe.id)
		me.id, me.at = id.id, id.at
		me.seq = message.ID(id.id).Sequence()
	} else {
		e.m.seq++
		me.seq = e.m.seq
	}
}

// entryOpts sets encryption, time to live and ID of an entry, and its sequence in the model.
func (e *eng) entryOpts(pe *pent, me *ment, ttl time.Duration, useID bool) {
	en := pe.en
	pe.enc, pe.ttl = me.enc, ttl
	if me.enc {
		en.WithEncryption()
	}
	if ttl > 0 {
		switch e.rng.Intn(4) {
		case 0:
			en.ExpiresAt = uint32(time.Now().Add(ttl).Unix())
		case 1:
			en.WithTTL(ttl.String())
		case 2:
			en.Topic = []byte(me.topic + "?ttl=" + ttl.String())
			pe.inTopic = true
		case 3:
			en.Topic = []byte(fmt.Sprintf("%s?ttl=%d", me.topic, int(ttl.Seconds())))
			pe.inTopic = true
		}
		me.exp = time.Now().Add(ttl).Unix()
	}
	e.entryID(pe, me, useID)
}

func (e *eng) ttlDur() time.Duration {
	n := 20
	if e.cfg.maxTTL > 0 {
		n = e.cfg.maxTTL
	}
	return time.Duration(2+e.rng.Intn(n)) * time.Second
}

func (e *eng) batch(abort bool) {
	n := 1 + e.rng.Intn(12)
	e.grp++
	g := e.grp
	var es []*ment
	writes := e.rng.Intn(4) == 0
	err := e.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
		bc := master
		if len(e.cfg.contracts) > 1 && e.rng.Intn(2) == 0 {
			bc = e.contract()
			b.SetOptions(unitdb.WithBatchContract(bc))
		}
		if e.cfg.enc > 0 && e.rng.Intn(4) == 0 {
			b.SetOptions(unitdb.WithBatchEncryption())
		}
		for i := 0; i < n; i++ {
			t := e.pick()
			p := e.payload()
			me := &ment{topic: t, payload: p, put: time.Now(), at: time.Now(), group: g}
			var err error
			if e.rng.Intn(2) == 0 {
				me.contract = bc
				e.m.seq++
				me.seq = e.m.seq
				tb, pb := []byte(t), []byte(p)
				err = b.Put(tb, pb)
				spoil(tb)
				spoil(pb)
			} else {
				me.contract = e.contract()
				pe := e.entry(t, p, me.contract)
				pe.en.WithContract(me.contract)
				ttl := time.Duration(0)
				if e.cfg.ttl > 0 && e.rng.Intn(3) == 0 {
					ttl = e.ttlDur()
				}
				me.enc = e.cfg.enc > 0 && e.rng.Intn(3) == 0
				e.entryOpts(pe, me, ttl, e.rng.Intn(2) == 0)
				err = b.PutEntry(pe.en)
				e.putDone(pe)
			}
			if err != nil {
				return fmt.Errorf("batch put: %v", err)
			}
			es = append(es, me)
			if writes && i == n/2 {
				if err := b.Write(); err != nil {
					return fmt.Errorf("batch write: %v", err)
				}
			}
		}
		if abort {
			return errAbort
		}
		return nil
	})
	e.logf("batch(n=%d,abort=%v,write=%v,last=%q)=%v", n, abort, writes, short(es[len(es)-1].payload), err)
	if abort {
		e.r.Add("batch_aborts", 1)
		if err != errAbort {
			e.viol("batch-error", "Batch returned %v instead of the function's error", err)
		}
		return
	}
	if err != nil {
		e.viol("batch-error", "Batch: %v", err)
		return
	}
	e.r.Add("batches", 1)
	e.r.Add("puts", int64(n))
	e.m.ents = append(e.m.ents, es...)
}

var errAbort = fmt.Errorf("abort requested")

// limit is the limit that applies to a query made with the given one.
func (e *eng) limit(l int) int {
	if l == 0 {
		l = e.cfg.deflimit
	}
	if e.cfg.maxlimit > 0 && l > e.cfg.maxlimit {
		l = e.cfg.maxlimit
	}
	return l
}

// candidates are the live entries that could be deleted.
func (e *eng) candidates() (c []*ment) {
	for _, m := range e.m.ents {
		if m.id != nil && !m.deleted {
			c = append(c, m)
		}
	}
	return
}

func (e *eng) del() {
	c := e.candidates()
	if len(c) == 0 {
		return
	}
	m := c[e.rng.Intn(len(c))]
	var err error
	if m.contract == master && e.rng.Intn(2) == 0 {
		err = e.db.Delete(m.id, []byte(m.topic))
	} else {
		id, topic := append([]byte(nil), m.id...), []byte(m.topic)
		err = e.db.DeleteEntry(unitdb.NewEntry(topic, nil).WithID(id).WithContract(m.contract))
		spoil(id)
		spoil(topic)
	}
	e.logf("del(%s,%q)=%v", m.topic, short(m.payload), err)
	if err != nil {
		e.viol("delete-error", "DeleteEntry: %v", err)
		return
	}
	e.r.Add("deletes", 1)
	m.deleted = true
}

// bdel deletes entries within a batch that puts others.
func (e *eng) bdel() {
	c := e.candidates()
	if len(c) == 0 {
		return
	}
	e.rng.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	if len(c) > 4 {
		c = c[:1+e.rng.Intn(4)]
	}
	var es []*ment
	e.grp++
	err := e.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
		for _, m := range c {
			if e.rng.Intn(2) == 0 {
				t, p := e.pick(), e.payload()
				e.m.seq++
				es = append(es, &ment{topic: t, payload: p, contract: master, put: time.Now(), at: time.Now(), group: e.grp, seq: e.m.seq})
				if err := b.PutEntry(unitdb.NewEntry([]byte(t), []byte(p))); err != nil {
					return err
				}
			}
			id, topic := append([]byte(nil), m.id...), []byte(m.topic)
			err := b.DeleteEntry(unitdb.NewEntry(topic, nil).WithID(id).WithContract(m.contract))
			spoil(id)
			spoil(topic)
			if err != nil {
				return err
			}
		}
		return nil
	})
	e.logf("batch-del(%s)+%d puts=%v", shorts(payloads(c)), len(es), err)
	if err != nil {
		e.viol("delete-error", "Batch with deletes: %v", err)
		return
	}
	e.r.Add("deletes", int64(len(c)))
	e.r.Add("batch_deletes", 1)
	for _, m := range c {
		m.deleted = true
	}
	e.m.ents = append(e.m.ents, es...)
}

// purge deletes all entries that could be deleted, or those of a topic, in some order.
func (e *eng) purge() {
	c := e.candidates()
	t := e.pick()
	switch e.rng.Intn(4) {
	case 0:
		for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
			c[i], c[j] = c[j], c[i]
		}
	case 1:
		e.rng.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	}
	all := e.rng.Intn(2) == 0
	n := 0
	for _, m := range c {
		if !all && m.topic != t {
			continue
		}
		if err := e.db.DeleteEntry(unitdb.NewEntry([]byte(m.topic), nil).WithID(m.id).WithContract(m.contract)); err != nil {
			e.viol("delete-error", "DeleteEntry: %v", err)
			return
		}
		m.deleted = true
		n++
	}
	e.r.Add("deletes", int64(n))
	e.r.Add("purges", 1)
	e.logf("purge(%v,%s)=%d", all, t, n)
}

// deldup makes deletes that have nothing to delete.
func (e *eng) deldup() {
	var c []*ment
	for _, m := range e.m.ents {
		if m.id != nil && m.deleted {
			c = append(c, m)
		}
	}
	id, topic, contract := []byte(nil), e.pick(), master
	what := "never put"
	if len(c) > 0 && e.rng.Intn(3) > 0 {
		m := c[e.rng.Intn(len(c))]
		id, topic, contract, what = m.id, m.topic, m.contract, "again "+short(m.payload)
	} else {
		id = e.db.NewID()
		e.m.seq = message.ID(id).Sequence()
	}
	var err error
	if e.rng.Intn(3) == 0 {
		err = e.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			return b.DeleteEntry(unitdb.NewEntry([]byte(topic), nil).WithID(id).WithContract(contract))
		})
	} else {
		err = e.db.DeleteEntry(unitdb.NewEntry([]byte(topic), nil).WithID(id).WithContract(contract))
	}
	e.logf("void-del(%s,%s)=%v", topic, what, err)
	e.r.Add("void_deletes", 1)
}

func (e *eng) get(topic string, contract uint32, limit int) ([][]byte, error) {
	tb := []byte(topic)
	defer spoil(tb)
	if n := len(e.queries); n > 0 && e.rng.Intn(4) == 0 {
		// a query that was made before, with or without changes
		q := e.queries[e.rng.Intn(n)]
		q.Topic = tb
		q.WithContract(contract).WithLimit(limit)
		e.r.Add("queries_reused", 1)
		return e.db.Get(q)
	}
	q := unitdb.NewQuery(tb)
	if contract != master || e.rng.Intn(2) == 0 {
		q.WithContract(contract)
	}
	if limit > 0 {
		q.WithLimit(limit)
	}
	if len(e.queries) < 6 {
		e.queries = append(e.queries, q)
	}
	return e.db.Get(q)
}

func (e *eng) check(topic string, contract uint32, limit int) {
	if e.bad || e.db == nil {
		return
	}
	want, unsure := e.m.expect(topic, contract, time.Now(), time.Time{})
	if strings.Contains(topic, "*") || strings.HasSuffix(topic, "...") {
		return // what a query with wildcards returns is not specified
	}
	l := e.limit(limit)
	full := len(want)
	if len(unsure) > 0 && full+len(unsure) > l {
		e.r.Add("checks_skipped_near_expiry", 1)
		return
	}
	live := want
	if len(want) > l {
		want = want[:l]
	}
	got, err := e.get(topic, contract, limit)
	e.checks++
	e.r.Add("gets_checked", 1)
	e.r.Add("messages_compared", int64(len(want)))
	if err != nil {
		e.viol("get-error", "Get(%s,c%x,limit=%d): %v", topic, contract, limit, err)
		return
	}
	g, w := without(strs(got), unsure), payloads(want)
	spoilAll(got) // results are the caller's
	if !e.cfg.ordered && full > l {
		if why := limitOK(live, g, l); why != "" {
			e.viol("get-limit", "Get(%s,c%x,limit=%d) after %d syncs, %d reopens: %s: got %d %s, live %d %s",
				topic, contract, limit, e.syncs, e.reopens, why, len(g), shorts(g), full, shorts(payloads(live)))
		}
		return
	}
	if !equalS(g, w) {
		e.viol("get-"+diffClass(g, w, e.ever), "Get(%s,c%x,limit=%d) after %d syncs, %d reopens: got %d %s, want %d (of %d) %s",
			topic, contract, limit, e.syncs, e.reopens, len(g), shorts(g), len(w), full, shorts(w))
	}
}

// checkLast queries by period and by the number of messages in the topic.
func (e *eng) checkLast(topic string, contract uint32) {
	if e.bad || e.db == nil || strings.Contains(topic, "*") || strings.HasSuffix(topic, "...") {
		return
	}
	now := time.Now()
	switch e.rng.Intn(4) {
	case 0: // ?last=n
		ask := 1 + e.rng.Intn(15)
		n := e.limit(ask)
		want, unsure := e.m.expect(topic, contract, now, time.Time{})
		if (len(unsure) > 0 || !e.cfg.ordered) && len(want)+len(unsure) > n {
			return
		}
		if len(want) > n {
			want = want[:n]
		}
		got, err := e.get(fmt.Sprintf("%s?last=%d", topic, ask), contract, 0)
		e.r.Add("last_n_checked", 1)
		if g, w := without(strs(got), unsure), payloads(want); err != nil || !equalS(g, w) {
			e.viol("get-last-n", "Get(%s?last=%d,c%x) after %d syncs, %d reopens: err %v, got %d %s, want %d %s", topic, ask, contract, e.syncs, e.reopens, err, len(g), shorts(g), len(w), shorts(w))
		}
		return
	}
	d := time.Duration(1+e.rng.Intn(40)) * time.Second
	if e.rng.Intn(4) == 0 {
		d *= 60
	}
	want, unsure := e.m.expect(topic, contract, now, now.Add(-d))
	all, _ := e.m.expect(topic, contract, now, time.Time{})
	limit := 0
	if e.rng.Intn(3) == 0 {
		limit = 1 + e.rng.Intn(12)
	}
	q := unitdb.NewQuery([]byte(topic)).WithContract(contract)
	how := "WithLast"
	if e.rng.Intn(2) == 0 {
		q = unitdb.NewQuery([]byte(topic + "?last=" + d.String())).WithContract(contract)
		if limit > 0 {
			q.WithLimit(limit)
		}
		how = "?last="
		if len(e.queries) < 6 {
			e.queries = append(e.queries, q) // the period is that of the topic, it goes with it
		}
	} else {
		if limit > 0 {
			q.WithLimit(limit)
		}
		q.WithLast(d.String())
	}
	l := e.limit(limit)
	live := want
	if len(want) > l {
		want = want[:l]
	}
	if len(live)+len(unsure) > l && (!e.cfg.ordered || len(unsure) > 0) {
		e.r.Add("checks_skipped_near_edge", 1)
		return
	}
	got, err := e.db.Get(q)
	e.checks++
	e.r.Add("last_checked", 1)
	if len(want) > 0 && len(live) < len(all) {
		e.r.Add("last_checked_partial", 1)
	}
	if g, w := without(strs(got), unsure), payloads(want); err != nil || !equalS(g, w) {
		e.viol("get-last", "Get(%s,c%x,limit=%d,%s%v) after %d syncs, %d reopens: err %v, got %d %s, want %d (of %d) %s",
			topic, contract, limit, how, d, e.syncs, e.reopens, err, len(g), shorts(g), len(w), len(all), shorts(w))
	}
}

// checkCount compares Count with the model once everything is synced.
func (e *eng) checkCount() {
	if e.bad || e.db == nil {
		return
	}
	for _, m := range e.m.ents {
		if m.exp != 0 {
			return // expired entries are counted until they are removed
		}
	}
	time.Sleep(4 * time.Second)
	if err := e.db.Sync(); err != nil {
		e.viol("sync-error", "Sync: %v", err)
		return
	}
	want := 0
	for _, m := range e.m.ents {
		if !m.deleted {
			want++
		}
	}
	e.logf("count")
	e.r.Add("counts_checked", 1)
	if got := e.db.Count(); got != uint64(want) {
		e.viol("count", "Count() = %d with %d entries put and not deleted, after %d syncs, %d reopens", got, want, e.syncs, e.reopens)
	}
}

// checkExpired waits until all entries with a time to live have expired, lets
// queries come across them, and compares Count once background expiry had its
// turns.
func (e *eng) checkExpired() {
	if e.bad || e.db == nil {
		return
	}
	time.Sleep(4 * time.Second)
	if err := e.db.Sync(); err != nil {
		e.viol("sync-error", "Sync: %v", err)
		return
	}
	time.Sleep(25 * time.Second)
	for i := 0; i < 2; i++ {
		for _, t := range e.cfg.topics {
			for _, c := range e.cfg.contracts {
				e.check(t, c, 100000)
			}
		}
		time.Sleep(200 * time.Second)
	}
	want, exp := 0, 0
	for _, m := range e.m.ents {
		switch {
		case m.deleted:
		case m.exp != 0:
			exp++
		default:
			want++
		}
	}
	e.logf("count after expiry")
	e.r.Add("expired_removed_checked", int64(exp))
	if got := e.db.Count(); got != uint64(want) {
		e.viol("count-expired", "Count() = %d minutes after %d entries expired, with %d that do not expire, after %d syncs, %d reopens", got, exp, want, e.syncs, e.reopens)
	}
}

func (e *eng) checkAll() {
	for _, t := range append(append([]string{}, e.cfg.topics...), e.cfg.queries...) {
		for _, c := range e.cfg.contracts {
			e.check(t, c, 0)
			if e.rng.Intn(3) == 0 {
				e.check(t, c, 1+e.rng.Intn(12))
			}
			if e.cfg.last > 0 {
				e.checkLast(t, c)
			}
		}
	}
}

func (e *eng) reopen() {
	err := e.db.Close()
	e.logf("close=%v", err)
	if err != nil {
		e.viol("close-error", "Close: %v", err)
		return
	}
	e.db = nil
	if e.rng.Intn(2) == 0 {
		time.Sleep(time.Duration(e.rng.Intn(3000)) * time.Millisecond)
	}
	e.ids = nil // ids of an earlier session are not reused
	if !e.open() {
		return
	}
	e.reopens++
	e.r.Add("reopens", 1)
	e.logf("reopen")
	e.checkAll()
}

func (e *eng) tick() { time.Sleep(time.Duration(1 + e.rng.Intn(2000000))) }

func (e *eng) step() {
	c := e.cfg
	w := []int{c.put, c.putc, c.ttl, c.batch, c.abort, c.del, c.newid, c.sleep, c.sync, c.reopen, c.enc, c.bdel, c.deldup, c.purge}
	tot := 0
	for _, x := range w {
		tot += x
	}
	k := e.rng.Intn(tot)
	op := 0
	for ; k >= w[op]; op++ {
		k -= w[op]
	}
	switch op {
	case 0:
		e.put(e.pick(), master, false, 0, false)
	case 1:
		e.put(e.pick(), e.contract(), false, 0, false)
	case 2:
		e.put(e.pick(), e.contract(), false, e.ttlDur(), false)
	case 3:
		e.batch(false)
	case 4:
		e.batch(true)
	case 5:
		e.del()
	case 6:
		id := e.db.NewID()
		seq := message.ID(id).Sequence()
		if seq <= e.m.seq {
			e.viol("newid-seq", "NewID sequence %d was used before (last %d)", seq, e.m.seq)
			return
		}
		e.m.seq = seq
		e.r.Add("ids", 1)
		e.ids = append(e.ids, resID{id, time.Now()})
		e.logf("newid")
		if c.allids || e.rng.Intn(2) == 0 {
			e.put(e.pick(), e.contract(), false, 0, true)
		}
	case 7:
		d := time.Duration(e.rng.Int63n(int64(c.maxSleep)))
		if e.rng.Intn(3) == 0 {
			d = time.Duration(e.rng.Intn(40)) * time.Millisecond
		}
		time.Sleep(d)
		e.logf("sleep(%v)", d)
	case 8:
		err := e.db.Sync()
		e.syncs++
		e.r.Add("syncs", 1)
		e.logf("sync=%v", err)
		if err != nil {
			e.viol("sync-error", "Sync: %v", err)
		}
	case 9:
		e.reopen()
	case 10:
		e.put(e.pick(), e.contract(), true, 0, false)
	case 11:
		e.bdel()
	case 12:
		e.deldup()
	case 13:
		e.purge()
	}
}

func newEng(r *Rep, rng *rand.Rand, dir string, cfg *engCfg) *eng {
	e := &eng{r: r, rng: rng, dir: dir, cfg: cfg, pfx: "m", ever: map[string]bool{}}
	return e
}

func (e *eng) run() {
	if !e.open() {
		return
	}
	for i := 0; i < e.cfg.ops && !e.bad; i++ {
		done := e.r.Guard("operation")
		e.step()
		done()
		// The clock of the bubble stands still while code runs; let it move.
		e.tick()
		if e.bad || e.db == nil {
			break
		}
		if e.cfg.checkEvery > 0 && i%e.cfg.checkEvery == 0 {
			lims := []int{0, 0, 1, 2, 5, 20, 1000}
			e.check(e.pick(), e.contract(), lims[e.rng.Intn(len(lims))])
			if e.cfg.last > 0 {
				e.checkLast(e.pick(), e.contract())
			}
			if len(e.cfg.queries) > 0 {
				e.check(e.cfg.queries[e.rng.Intn(len(e.cfg.queries))], e.contract(), 0)
			}
		}
	}
	defer e.r.Guard("end of history")()
	if !e.bad && e.db != nil {
		e.checkAll()
		e.checkCount()
		if e.cfg.bgexp {
			e.checkExpired()
		}
		e.checkAll()
	}
	if e.db != nil && !e.bad {
		if err := e.db.Close(); err != nil {
			e.viol("close-error", "Close: %v", err)
		}
	}
}

var staticTopics = []string{"a", "a.b", "a.b.c", "a.c", "b", "x.y.z", "unit8.ch.one", "unit8.ch.two", "a.b.c.d.e.f", "q1", "q2", "long.topic.name.with.many.parts.in.it"}

func pickTopics(rng *rand.Rand, n int) []string {
	p := rng.Perm(len(staticTopics))
	var r []string
	for i := 0; i < n && i < len(p); i++ {
		r = append(r, staticTopics[p[i]])
	}
	return r
}

// treeTopics draws topics over a small alphabet, so that topics share parts in
// every order; wild puts wildcards into some of them.
func treeTopics(rng *rand.Rand, n int, wild bool) []string {
	al := []string{"a", "b", "c", "dd"}
	seen := map[string]bool{}
	var r []string
	for len(r) < n {
		d := 1 + rng.Intn(4)
		if rng.Intn(6) == 0 {
			d += rng.Intn(4)
		}
		ps := make([]string, d)
		for i := range ps {
			ps[i] = al[rng.Intn(len(al))]
			if wild && rng.Intn(3) == 0 {
				ps[i] = "*"
			}
		}
		t := strings.Join(ps, ".")
		if wild && rng.Intn(4) == 0 {
			t += "..."
			if rng.Intn(6) == 0 {
				t = "..."
			}
		}
		if !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	return r
}

// randomConfig draws options that must not change what a query returns.
func randomConfig(rng *rand.Rand) (o []unitdb.Options) {
	switch rng.Intn(4) {
	case 0:
		// hardly ever synced in the background
		if rng.Intn(2) == 0 {
			o = append(o, unitdb.WithMaxSyncDuration(time.Hour, 1))
		} else {
			o = append(o, unitdb.WithMaxSyncDuration(time.Second, 0)) // never
		}
	case 1, 2:
		o = append(o, unitdb.WithMaxSyncDuration(time.Duration(50+rng.Intn(3000))*time.Millisecond, 1+rng.Intn(4)))
	}
	if rng.Intn(2) == 0 {
		o = append(o, unitdb.WithFreeBlockSize(int64(1+rng.Intn(8192))))
	}
	if rng.Intn(3) == 0 {
		o = append(o, unitdb.WithBackgroundKeyExpiry())
	}
	if rng.Intn(3) == 0 {
		o = append(o, unitdb.WithEncryption())
	}
	return
}

func init() {
	reg("engine", true, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			cfg := &engCfg{
				topics:     pickTopics(rng, 1+rng.Intn(6)),
				contracts:  []uint32{master},
				opts:       []unitdb.Options{unitdb.WithMutable()},
				payload:    mixPayload,
				put:        j.Int("put", 20),
				putc:       j.Int("putc", 0),
				ttl:        j.Int("ttl", 0),
				batch:      j.Int("batch", 0),
				abort:      j.Int("abort", 0),
				del:        j.Int("del", 0),
				newid:      j.Int("newid", 0),
				sleep:      j.Int("sleep", 8),
				sync:       j.Int("sync", 2),
				reopen:     j.Int("reopen", 0),
				enc:        j.Int("enc", 0),
				maxSleep:   time.Duration(j.Int("maxsleep", 2500)) * time.Millisecond,
				bdel:       j.Int("bdel", 0),
				deldup:     j.Int("deldup", 0),
				purge:      j.Int("purge", 0),
				allids:     j.Bool("allids"),
				last:       j.Int("last", 0),
				deflimit:   1000,
				ops:        j.Int("ops", 100),
				checkEvery: j.Int("checkevery", 1),
			}
			if j.Int("ntopics", 0) > 0 {
				cfg.topics = pickTopics(rng, j.Int("ntopics", 0))
			}
			if j.Bool("small") {
				cfg.payload = func(rng *rand.Rand, u string) string { return u + "~" + strings.Repeat("ab", rng.Intn(8)) }
			}
			if j.Bool("deflimit") && rng.Intn(2) == 0 {
				cfg.deflimit = 1 + rng.Intn(20)
				cfg.opts = append(cfg.opts, unitdb.WithDefaultQueryLimit(cfg.deflimit))
			}
			if j.Bool("deflimit") && rng.Intn(2) == 0 {
				cfg.maxlimit = 1 + rng.Intn(30)
				cfg.opts = append(cfg.opts, unitdb.WithMaxQueryLimit(cfg.maxlimit))
			}
			if cfg.bgexp = j.Bool("bgexp"); cfg.bgexp {
				cfg.opts = append(cfg.opts, unitdb.WithBackgroundKeyExpiry())
			}
			if j.Bool("config") {
				cfg.opts = append(cfg.opts, randomConfig(rng)...)
			}
			if j.Int("tree", 0) > 0 {
				cfg.topics = treeTopics(rng, j.Int("tree", 0), false)
			}
			if j.Int("wild", 0) > 0 {
				cfg.topics = treeTopics(rng, j.Int("wild", 0), true)
				cfg.queries = treeTopics(rng, 12, false)
			}
			cfg.ordered = cfg.batch == 0 && cfg.newid == 0 && cfg.bdel == 0
			if cfg.putc > 0 {
				cfg.contracts = append(cfg.contracts, 1, 0xdeadbeef, rng.Uint32()|1)
			}
			dir := filepath.Join(j.Dir, fmt.Sprintf("e%d", i))
			r.Case(i, strings.Join(cfg.topics, ","))
			e := newEng(r, rng, dir, cfg)
			e.run()
			if i == j.From {
				l := e.log
				if len(l) > 25 {
					l = l[:25]
				}
				r.Sample(map[string]interface{}{"case": i, "topics": cfg.topics, "first_ops": l})
			}
			r.Add("cases", 1)
			r.Seen("histories", strings.Join(e.log, ";"))
			os.RemoveAll(dir)
		})
	})
}
