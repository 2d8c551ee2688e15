package zzverif

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/golang/snappy"
	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/crypto"
	"github.com/unit-io/unitdb/message"
)

// ---- statistics of the DB (P20) ----------------------------------------------

type statMsg struct {
	topic   string
	payload string
	size    int64 // bytes stored
	id      []byte
	deleted bool
}

// statCount is what was done with a handle. Counts that depend on when the
// background sync ran have a lower and an upper bound.
type statCount struct {
	puts, batchPuts, gets, bytes, leases int64
	delLow, delHigh                      int64
	newBytes                             int64 // stored bytes of messages put
	gone, goneBytes                      int64 // messages that may have been deleted before a sync
}

type statDB struct {
	r     *Rep
	rng   *rand.Rand
	dir   string
	opts  []unitdb.Options
	mac   *crypto.MAC
	enc   bool
	db    *unitdb.DB
	c     statCount
	base  *unitdb.Varz // right after Open
	start time.Time
	seq   uint64
	msgs  []*statMsg
	n     int
	log   []string
	bad   bool
}

func (s *statDB) logf(f string, a ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

func (s *statDB) viol(sig, f string, a ...interface{}) {
	if s.bad {
		return
	}
	s.bad = true
	l := s.log
	if len(l) > 50 {
		l = l[len(l)-50:]
	}
	s.r.Viol(sig, "%s | history: %s", fmt.Sprintf(f, a...), strings.Join(l, "; "))
}

func (s *statDB) open() bool {
	t0 := time.Now()
	db, err := unitdb.Open(s.dir, s.opts...)
	if err != nil {
		s.viol("open-error", "Open: %v", err)
		return false
	}
	s.db, s.c, s.start = db, statCount{}, t0
	v, err := db.Varz()
	if err != nil {
		s.viol("varz-error", "Varz: %v", err)
		return false
	}
	s.base = v
	if v.Puts != 0 || v.Gets != 0 || v.Dels != 0 || v.Leases != 0 || v.OutMsgs != 0 || v.OutBytes != 0 {
		s.viol("fresh", "statistics of a handle that did nothing: %+v", *v)
	}
	if v.Recovers > v.InMsgs {
		s.viol("recovers", "%d messages recovered and %d synced: %+v", v.Recovers, v.InMsgs, *v)
	}
	return true
}

// check compares the statistics with what was done; synced tells that a Sync has
// returned since the last message was put.
func (s *statDB) check(synced bool) {
	if s.bad || s.db == nil {
		return
	}
	var v *unitdb.Varz
	switch s.rng.Intn(4) {
	case 0:
		rec := httptest.NewRecorder()
		cb := ""
		if s.rng.Intn(2) == 0 {
			cb = "?callback=f"
		}
		s.db.HandleVarz(rec, httptest.NewRequest("GET", "/varz"+cb, nil))
		b := rec.Body.String()
		if cb != "" {
			if !strings.HasPrefix(b, "f(") || !strings.HasSuffix(b, ")") {
				s.viol("varz-http", "answer to a request with a callback: %s", short(b))
				return
			}
			b = b[2 : len(b)-1]
		}
		v = &unitdb.Varz{}
		if err := json.Unmarshal([]byte(b), v); err != nil {
			s.viol("varz-http", "answer of HandleVarz is no JSON: %v: %s", err, short(b))
			return
		}
		s.r.Add("statistics_by_http", 1)
	default:
		var err error
		if v, err = s.db.Varz(); err != nil {
			s.viol("varz-error", "Varz: %v", err)
			return
		}
	}
	s.r.Add("statistics_checked", 1)
	c := s.c
	got := fmt.Sprintf("puts %d gets %d leases %d dels %d in %d/%d out %d/%d syncs %d seq %d count %d", v.Puts, v.Gets, v.Leases, v.Dels, v.InMsgs, v.InBytes, v.OutMsgs, v.OutBytes, v.Syncs, v.Seq, v.Count)
	bad := func(sig string, want interface{}) {
		s.viol("stat-"+sig, "statistics are {%s}, %s must be %v; done: %+v, base in %d/%d", got, sig, want, c, s.base.InMsgs, s.base.InBytes)
	}
	in := v.InMsgs - s.base.InMsgs
	inBytes := v.InBytes - s.base.InBytes
	switch {
	case v.Puts < c.puts || v.Puts > c.puts+c.batchPuts:
		bad("puts", c.puts)
	case v.Gets != c.gets:
		bad("gets", c.gets)
	case v.OutMsgs != c.gets:
		bad("out_msgs", c.gets)
	case v.OutBytes != c.bytes:
		bad("out_bytes", c.bytes)
	case v.Leases != c.leases:
		bad("leases", c.leases)
	case v.Dels < c.delLow || v.Dels > c.delHigh:
		bad("dels", fmt.Sprintf("%d-%d", c.delLow, c.delHigh))
	case v.Syncs != v.InMsgs:
		bad("syncs", v.InMsgs)
	case in > c.puts+c.batchPuts || inBytes > c.newBytes:
		bad("in_msgs", fmt.Sprintf("at most %d/%d", c.puts+c.batchPuts, c.newBytes))
	case synced && (in < c.puts+c.batchPuts-c.gone || inBytes < c.newBytes-c.goneBytes):
		bad("in_msgs", fmt.Sprintf("at least %d/%d", c.puts+c.batchPuts-c.gone, c.newBytes-c.goneBytes))
	case v.Seq != int64(s.seq):
		bad("seq", s.seq)
	case v.Start.Before(s.start.Add(-time.Second)) || v.Start.After(s.start.Add(time.Second)):
		bad("start", s.start)
	case v.Now.Sub(time.Now()) > time.Second || time.Since(v.Now) > time.Second:
		bad("now", time.Now())
	}
	if up := uptimeText(v.Now.Sub(v.Start)); v.Uptime != up && v.Uptime != uptimeText(v.Now.Sub(v.Start)+time.Second) {
		bad("uptime", up+" and not "+v.Uptime)
	}
	if synced {
		live := int64(0)
		for _, m := range s.msgs {
			if !m.deleted {
				live++
			}
		}
		s.r.Add("statistics_checked_synced", 1)
		if v.Count != live {
			bad("count", live)
		}
	}
}

func uptimeText(d time.Duration) string {
	n := int64(d / time.Second)
	t := fmt.Sprintf("%ds", n%60)
	if n >= 60 {
		t = fmt.Sprintf("%dm", n/60%60) + t
	}
	if n >= 3600 {
		t = fmt.Sprintf("%dh", n/3600%24) + t
	}
	if n >= 86400 {
		t = fmt.Sprintf("%dd", n/86400) + t
	}
	return t
}

func (s *statDB) stored(payload string, enc bool) int64 {
	val := snappy.Encode(nil, []byte(payload))
	if enc || s.enc {
		val = s.mac.Encrypt(nil, val)
	}
	return int64(len(val))
}

func (s *statDB) msg(rng *rand.Rand, who string) *statMsg {
	s.n++
	return &statMsg{topic: fmt.Sprintf("stat%d.%c", rng.Intn(3), 'a'+rng.Intn(2)), payload: mixPayload(rng, fmt.Sprintf("%s%d~", who, s.n))}
}

func (c *statCount) put(m *statMsg, batch bool) {
	if batch {
		c.batchPuts++
	} else {
		c.puts++
	}
	c.newBytes += m.size
}

func (s *statDB) countGet(topic string, limit int) (n int64) {
	for _, m := range s.msgs {
		if m.topic == topic && !m.deleted && n < int64(limit) {
			n++
		}
	}
	return
}

func (s *statDB) step() {
	rng := s.rng
	synced := false
	switch k := rng.Intn(20); {
	case k < 7:
		m := s.msg(rng, "s")
		enc := rng.Intn(4) == 0
		m.size = s.stored(m.payload, enc)
		var err error
		en := unitdb.NewEntry([]byte(m.topic), []byte(m.payload))
		if enc {
			en.WithEncryption()
		}
		if m.id = s.db.NewID(); m.id == nil {
			s.viol("newid", "NewID: nil")
			return
		}
		s.c.leases++
		s.seq = message.ID(m.id).Sequence()
		if rng.Intn(3) > 0 {
			en.WithID(m.id)
		} else {
			m.id = nil
			s.seq++
		}
		err = s.db.PutEntry(en)
		s.logf("put=%v", err)
		if err != nil {
			s.viol("put-error", "Put: %v", err)
			return
		}
		s.c.put(m, false)
		s.msgs = append(s.msgs, m)
	case k < 10:
		abort := rng.Intn(3) == 0
		n := 1 + rng.Intn(10)
		var ms []*statMsg
		err := s.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			for ; n > 0; n-- {
				m := s.msg(rng, "b")
				m.size = s.stored(m.payload, false)
				if err := b.Put([]byte(m.topic), []byte(m.payload)); err != nil {
					return err
				}
				s.seq++
				ms = append(ms, m)
			}
			if abort {
				return fmt.Errorf("abort")
			}
			return nil
		})
		s.logf("batch(%d,abort=%v)=%v", len(ms), abort, err)
		if (err != nil) != abort {
			s.viol("batch-error", "Batch: %v", err)
			return
		}
		if !abort {
			for _, m := range ms {
				s.c.put(m, true)
			}
			s.msgs = append(s.msgs, ms...)
		}
	case k < 14:
		topic := fmt.Sprintf("stat%d.%c", rng.Intn(3), 'a'+rng.Intn(2))
		limit := 1 + rng.Intn(1+len(s.msgs))
		n := s.countGet(topic, limit)
		got, err := s.db.Get(unitdb.NewQuery([]byte(topic)).WithLimit(limit))
		s.logf("get(%s,%d)=%d,%v", topic, limit, len(got), err)
		if err != nil || int64(len(got)) != n {
			s.viol("get", "Get(%s,limit %d): %d messages, %v, want %d", topic, limit, len(got), err, n)
			return
		}
		s.c.gets += n
		for _, p := range got {
			for _, m := range s.msgs {
				if m.payload == string(p) {
					s.c.bytes += m.size
				}
			}
		}
	case k < 15:
		// calls that are refused are not counted.
		s.db.Put(nil, []byte("x"))
		s.db.PutEntry(unitdb.NewEntry([]byte("stat0.a"), nil))
		s.db.Get(unitdb.NewQuery(nil))
		s.db.Delete(nil, []byte("stat0.a"))
		s.logf("refused")
	case k < 17:
		var c []*statMsg
		for _, m := range s.msgs {
			if m.id != nil && !m.deleted {
				c = append(c, m)
			}
		}
		if len(c) == 0 {
			return
		}
		m := c[rng.Intn(len(c))]
		err := s.db.Delete(m.id, []byte(m.topic))
		s.logf("del=%v", err)
		if err != nil {
			s.viol("delete-error", "Delete: %v", err)
			return
		}
		m.deleted = true
		s.c.gone++
		s.c.goneBytes += m.size
		s.c.delLow++
		s.c.delHigh++
	case k < 18:
		time.Sleep(time.Duration(rng.Int63n(int64(4 * time.Second))))
		if rng.Intn(12) == 0 {
			time.Sleep(time.Duration(rng.Int63n(int64(4 * time.Minute))))
		}
		s.logf("sleep")
	case k < 19:
		time.Sleep(4 * time.Second) // the current time block is not synced
		err := s.db.Sync()
		s.logf("sync=%v", err)
		if err != nil {
			s.viol("sync-error", "Sync: %v", err)
			return
		}
		synced = true
	default:
		if err := s.db.Close(); err != nil {
			s.viol("close-error", "Close: %v", err)
			return
		}
		s.logf("reopen")
		if s.rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Int63n(int64(3 * time.Second))))
		}
		if !s.open() {
			return
		}
		synced = true
	}
	s.check(synced)
}

// together runs operations in goroutines; each counts what it did.
func (s *statDB) together() {
	var wg sync.WaitGroup
	workers := 2 + s.rng.Intn(7)
	type part struct {
		c    statCount
		msgs []*statMsg
		seqs uint64
		err  string
	}
	parts := make([]part, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(p *part, w int, rng *rand.Rand) {
			defer wg.Done()
			for n := 5 + rng.Intn(40); n > 0 && p.err == ""; n-- {
				m := &statMsg{topic: fmt.Sprintf("par%d.%c", w, 'a'+rng.Intn(2)), payload: mixPayload(rng, fmt.Sprintf("w%d.%d.%d~", w, n, len(s.msgs)))}
				m.size = s.stored(m.payload, false)
				switch rng.Intn(6) {
				case 0, 1:
					if err := s.db.Put([]byte(m.topic), []byte(m.payload)); err != nil {
						p.err = "Put: " + err.Error()
					}
					p.seqs++
					p.c.put(m, false)
					p.msgs = append(p.msgs, m)
				case 2:
					if m.id = s.db.NewID(); m.id == nil {
						p.err = "NewID"
						return
					}
					p.seqs++
					p.c.leases++
					if err := s.db.PutEntry(unitdb.NewEntry([]byte(m.topic), []byte(m.payload)).WithID(m.id)); err != nil {
						p.err = "PutEntry: " + err.Error()
					}
					p.c.put(m, false)
					p.msgs = append(p.msgs, m)
				case 3:
					var n, bytes int64
					for _, o := range p.msgs {
						if o.topic == m.topic && !o.deleted {
							n++
							bytes += o.size
						}
					}
					// what earlier phases put to the topic
					for _, o := range s.msgs {
						if o.topic == m.topic && !o.deleted {
							n++
							bytes += o.size
						}
					}
					got, err := s.db.Get(unitdb.NewQuery([]byte(m.topic)).WithLimit(100000))
					if err != nil || int64(len(got)) != n {
						p.err = fmt.Sprintf("Get: %d messages, %v, want %d", len(got), err, n)
					}
					p.c.gets += n
					p.c.bytes += bytes
				case 4:
					for _, o := range p.msgs {
						if o.id != nil && !o.deleted {
							if err := s.db.Delete(o.id, []byte(o.topic)); err != nil {
								p.err = "Delete: " + err.Error()
							}
							o.deleted = true
							p.c.gone++
							p.c.goneBytes += o.size
							p.c.delLow++
							p.c.delHigh++
							break
						}
					}
				case 5:
					if rng.Intn(3) == 0 {
						time.Sleep(time.Duration(rng.Intn(2000)) * time.Millisecond)
					}
					s.db.Varz()
				}
			}
		}(&parts[w], w, rand.New(rand.NewSource(s.rng.Int63())))
	}
	wg.Wait()
	for _, p := range parts {
		if p.err != "" {
			s.viol("call", "%s", p.err)
			return
		}
		s.c.puts += p.c.puts
		s.c.gets += p.c.gets
		s.c.bytes += p.c.bytes
		s.c.leases += p.c.leases
		s.c.delLow += p.c.delLow
		s.c.delHigh += p.c.delHigh
		s.c.newBytes += p.c.newBytes
		s.c.gone += p.c.gone
		s.c.goneBytes += p.c.goneBytes
		s.seq += p.seqs
		s.msgs = append(s.msgs, p.msgs...)
	}
	s.logf("%d workers", workers)
	s.r.Add("concurrent_phases", 1)
	s.check(false)
	if s.bad {
		return
	}
	time.Sleep(4 * time.Second)
	if err := s.db.Sync(); err != nil {
		s.viol("sync-error", "Sync: %v", err)
		return
	}
	s.check(true)
}

func init() {
	reg("stats", true, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			time.Sleep(time.Duration(rng.Int63n(int64(time.Second))))
			s := &statDB{r: r, rng: rng, dir: filepath.Join(j.Dir, fmt.Sprintf("s%d", i)), opts: []unitdb.Options{unitdb.WithMutable()}}
			key := make([]byte, 32)
			rng.Read(key)
			s.mac, _ = crypto.New(key)
			s.opts = append(s.opts, unitdb.WithEncryptionKey(key))
			if rng.Intn(3) == 0 {
				s.enc = true
				s.opts = append(s.opts, unitdb.WithEncryption())
			}
			if rng.Intn(3) == 0 {
				s.opts = append(s.opts, unitdb.WithMaxSyncDuration(time.Hour, 1))
			}
			r.Case(i, fmt.Sprintf("encryption %v", s.enc))
			os.MkdirAll(s.dir, 0755)
			if !s.open() {
				return
			}
			for n := j.Int("ops", 60); n > 0 && !s.bad; n-- {
				if n%30 == 15 {
					s.together()
					continue
				}
				s.step()
			}
			if !s.bad {
				s.db.Close()
			}
			r.Seen("histories", strings.Join(s.log, ";"))
			r.Add("cases", 1)
			os.RemoveAll(s.dir)
		})
	})
}
