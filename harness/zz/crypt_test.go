package zzverif

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/crypto"
)

// ---- encryption (P10) ----------------------------------------------------

const (
	secretMark = "#S3cr3t-Mark#"
	clearMark  = "#Cl34r-Mark##"
)

type crypt struct {
	*eng
	key    []byte
	dbEnc  bool // the DB encrypts everything
	nTiny  int
	leak   atomic.Value
	nLeak  int64
	nClear int64
	nBytes int64
}

// hook looks for payloads of encrypted messages in all that is written.
func (c *crypt) hook(op, name, name2 string, b []byte, off int64) error {
	if op != "write" || !strings.HasPrefix(name, c.dir) {
		return nil
	}
	atomic.AddInt64(&c.nBytes, int64(len(b)))
	if bytes.Contains(b, []byte(secretMark)) {
		if atomic.AddInt64(&c.nLeak, 1) == 1 {
			c.leak.Store(fmt.Sprintf("%s at %d", filepath.Base(name), off))
		}
	}
	if bytes.Contains(b, []byte(clearMark)) {
		atomic.AddInt64(&c.nClear, 1)
	}
	return nil
}

// text makes a payload. Those of encrypted messages carry a mark, beyond the few bytes at the
// start of a message that are stored in clear by design.
func (c *crypt) text(enc bool) string {
	c.uniq++
	if c.rng.Intn(6) == 0 { // tiny ones
		c.nTiny++
		var p string
		switch n := c.nTiny; {
		case n < 200:
			p = string([]byte{byte(n)})
		default:
			p = string([]byte{byte(n >> 8), byte(n)})
		}
		if c.ever[p] {
			p = fmt.Sprintf("t%d", c.uniq)
		}
		c.ever[p] = true
		return p
	}
	m := clearMark
	if enc {
		m = secretMark
	}
	p := fmt.Sprintf("m%08d~", c.uniq) + m
	switch c.rng.Intn(5) {
	case 0:
		p += strings.Repeat("z", c.rng.Intn(6000))
	case 1:
		b := make([]byte, c.rng.Intn(6000))
		c.rng.Read(b)
		p += string(b)
	case 2:
		b := make([]byte, c.rng.Intn(40))
		c.rng.Read(b)
		p = fmt.Sprintf("m%08d~", c.uniq) + string(b) + m
	}
	c.ever[p] = true
	return p
}

func (c *crypt) options(enc bool, key []byte) (o []unitdb.Options) {
	o = []unitdb.Options{unitdb.WithMutable()}
	if enc {
		o = append(o, unitdb.WithEncryption())
	}
	if key != nil {
		o = append(o, unitdb.WithEncryptionKey(key))
	}
	return
}

func (c *crypt) putOne() {
	enc := c.rng.Intn(2) == 0
	me := &ment{topic: c.pick(), contract: c.contract(), put: time.Now(), at: time.Now(), enc: enc || c.dbEnc}
	me.payload = c.text(me.enc)
	en := unitdb.NewEntry([]byte(me.topic), []byte(me.payload)).WithContract(me.contract)
	if enc {
		en.WithEncryption()
	}
	if c.rng.Intn(4) == 0 {
		id := c.db.NewID()
		c.m.seq++
		me.id = id
		en.WithID(id)
		me.seq = c.m.seq
	} else {
		c.m.seq++
		me.seq = c.m.seq
	}
	err := c.db.PutEntry(en)
	c.logf("put(%s,%q,enc=%v)=%v", me.topic, short(me.payload), me.enc, err)
	if err != nil {
		c.viol("put-error", "PutEntry: %v", err)
		return
	}
	c.m.ents = append(c.m.ents, me)
	c.count(me)
}

func (c *crypt) count(me *ment) {
	if me.enc {
		c.r.Add("encrypted", 1)
	} else {
		c.r.Add("plain", 1)
	}
}

func (c *crypt) putBatch() {
	var es []*ment
	benc := c.rng.Intn(2) == 0
	n := 1 + c.rng.Intn(8)
	explicit := c.rng.Intn(3) == 0
	err := c.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
		if benc {
			b.SetOptions(unitdb.WithBatchEncryption())
		}
		for i := 0; i < n; i++ {
			me := &ment{topic: c.pick(), contract: master, put: time.Now(), at: time.Now()}
			enc := c.rng.Intn(3) == 0
			whole := c.rng.Intn(2) == 0
			me.enc = c.dbEnc || benc || enc && !whole
			me.payload = c.text(me.enc)
			c.m.seq++
			me.seq = c.m.seq
			var err error
			if whole {
				err = b.Put([]byte(me.topic), []byte(me.payload))
			} else {
				en := unitdb.NewEntry([]byte(me.topic), []byte(me.payload))
				if enc {
					en.WithEncryption()
				}
				err = b.PutEntry(en)
			}
			if err != nil {
				return err
			}
			es = append(es, me)
			if explicit && i == n/2 {
				if err := b.Write(); err != nil {
					return err
				}
			}
		}
		return nil
	})
	c.logf("batch(%d,enc=%v)=%v", n, benc, err)
	if err != nil {
		c.viol("batch-error", "Batch: %v", err)
		return
	}
	for _, me := range es {
		c.count(me)
	}
	c.m.ents = append(c.m.ents, es...)
	c.r.Add("batches", 1)
}

func (c *crypt) reopenWith(enc bool, key []byte) bool {
	if err := c.db.Close(); err != nil {
		c.viol("close-error", "Close: %v", err)
		return false
	}
	c.db = nil
	c.scan()
	c.cfg.opts = c.options(enc, key)
	if !c.open() {
		return false
	}
	c.r.Add("reopens", 1)
	c.logf("reopen(enc=%v)", enc)
	return true
}

// scan looks for secrets in the files of the closed database.
func (c *crypt) scan() {
	des, _ := os.ReadDir(c.dir)
	var dirs []string
	for _, d := range des {
		if d.IsDir() {
			dirs = append(dirs, d.Name())
		}
	}
	dirs = append(dirs, "")
	for _, d := range dirs {
		fs, _ := os.ReadDir(filepath.Join(c.dir, d))
		for _, f := range fs {
			b, err := os.ReadFile(filepath.Join(c.dir, d, f.Name()))
			if err != nil {
				continue
			}
			c.r.Add("files_scanned", 1)
			if k := bytes.Index(b, []byte(secretMark)); k >= 0 {
				c.viol("secret-in-file", "file %s holds the payload of an encrypted message in clear at %d", f.Name(), k)
			}
		}
	}
}

// hasEnc tells whether a query of the topic comes across an encrypted message.
func (c *crypt) hasEnc(topic string, contract uint32) bool {
	w, _ := c.m.expect(topic, contract, time.Now(), time.Time{})
	for _, e := range w {
		if e.enc {
			return true
		}
	}
	return false
}

// otherKey opens the database with another key.
func (c *crypt) otherKey() {
	k := make([]byte, 32)
	c.rng.Read(k)
	if c.key != nil && c.rng.Intn(2) == 0 { // one bit
		copy(k, c.key)
		k[c.rng.Intn(32)] ^= 1 << uint(c.rng.Intn(8))
	}
	if !c.reopenWith(false, k) {
		return
	}
	for _, t := range c.cfg.topics {
		for _, ct := range c.cfg.contracts {
			if !c.hasEnc(t, ct) {
				c.check(t, ct, 1000)
				continue
			}
			got, err := c.get(t, ct, 1000)
			c.r.Add("other_key_gets", 1)
			if err == nil {
				c.viol("other-key", "Get(%s,c%x) with another key returned %d messages %s and no error", t, ct, len(got), shorts(strs(got)))
				return
			}
			enc := map[string]bool{}
			for _, e := range c.m.ents {
				if e.enc {
					enc[e.payload] = true
				}
			}
			for _, p := range strs(got) {
				if enc[p] || !c.ever[p] {
					c.viol("other-key", "Get(%s,c%x) with another key returned %q", t, ct, short(p))
					return
				}
			}
		}
	}
	if !c.reopenWith(c.rng.Intn(2) == 0 && c.dbEnc, c.key) {
		return
	}
	c.checkAll()
}

// tamper alters single bytes of the data file, and reads all topics that hold
// nothing but encrypted messages.
func (c *crypt) tamper(n int) {
	if err := c.db.Close(); err != nil {
		c.viol("close-error", "Close: %v", err)
		return
	}
	c.db = nil
	var data string
	des, _ := os.ReadDir(c.dir)
	for _, d := range des {
		if fs, err := os.ReadDir(filepath.Join(c.dir, d.Name())); err == nil && d.IsDir() {
			for _, f := range fs {
				if strings.HasSuffix(f.Name(), ".data") {
					data = filepath.Join(c.dir, d.Name(), f.Name())
				}
			}
		}
		if strings.HasSuffix(d.Name(), ".data") {
			data = filepath.Join(c.dir, d.Name())
		}
	}
	orig, err := os.ReadFile(data)
	if err != nil || len(orig) == 0 {
		c.r.Add("no_data_file", 1)
		return
	}
	type tc struct {
		t  string
		ct uint32
	}
	var only []tc
	encs := map[string]bool{}
	for _, t := range c.cfg.topics {
		for _, ct := range c.cfg.contracts {
			w, _ := c.m.expect(t, ct, time.Now(), time.Time{})
			all := len(w) > 0
			for _, e := range w {
				all = all && e.enc
			}
			if all {
				only = append(only, tc{t, ct})
				for _, e := range w {
					encs[t+"|"+e.payload] = true
				}
			}
		}
	}
	if len(only) == 0 {
		return
	}
	try := func(pos int, bit byte) {
		defer func() {
			if e := recover(); e != nil {
				c.r.Add("tamper_panics", 1) // refuses to open, too
			}
		}()
		b := append([]byte(nil), orig...)
		b[pos] ^= bit
		if err := os.WriteFile(data, b, 0600); err != nil {
			return
		}
		db, err := unitdb.Open(c.dir, c.options(false, c.key)...)
		if err != nil {
			c.r.Add("tamper_open_errors", 1)
			return
		}
		defer db.Close()
		for _, x := range only {
			got, err := db.Get(unitdb.NewQuery([]byte(x.t)).WithContract(x.ct).WithLimit(1000))
			c.r.Add("tamper_gets", 1)
			if err != nil {
				c.r.Add("tamper_refused", 1)
			}
			for _, p := range strs(got) {
				if !encs[x.t+"|"+p] {
					c.viol("tampered", "byte %d of the data file was altered, and Get(%s) returned %q which was never put (err %v)", pos, x.t, short(p), err)
					return
				}
			}
		}
	}
	for i := 0; i < n && !c.bad; i++ {
		try(c.rng.Intn(len(orig)), 1<<uint(c.rng.Intn(8)))
	}
	os.WriteFile(data, orig, 0600)
}

func (c *crypt) run(ops int) {
	c.cfg.opts = c.options(c.dbEnc, c.key)
	if !c.open() {
		return
	}
	for i := 0; i < ops && !c.bad && c.db != nil; i++ {
		done := c.r.Guard("operation")
		switch k := c.rng.Intn(40); {
		case k < 16:
			c.putOne()
		case k < 20:
			c.putBatch()
		case k < 28:
			c.check(c.pick(), c.contract(), []int{0, 1, 5, 1000}[c.rng.Intn(4)])
		case k < 34:
			time.Sleep(time.Duration(c.rng.Intn(2500)) * time.Millisecond)
		case k < 37:
			if err := c.db.Sync(); err != nil {
				c.viol("sync-error", "Sync: %v", err)
			}
		case k < 39:
			// A database that was opened with encryption stays encrypted.
			enc := c.rng.Intn(2) == 0 && (c.dbEnc || c.rng.Intn(4) == 0)
			if c.reopenWith(enc, c.key) {
				if enc && !c.dbEnc {
					c.dbEnc = true
					c.r.Add("databases encrypted later", 1)
				}
				c.checkAll()
			}
		default:
			c.otherKey()
		}
		done()
		c.tick()
	}
	if c.bad || c.db == nil {
		return
	}
	defer c.r.Guard("end of history")()
	c.checkAll()
	if c.reopenWith(false, c.key) {
		c.checkAll()
		c.otherKey()
	}
	if c.bad || c.db == nil {
		return
	}
	if c.leak.Load() != nil {
		c.viol("secret-written", "the payload of an encrypted message was written in clear to %v (%d writes)", c.leak.Load(), c.nLeak)
	}
	c.r.Add("written_bytes_scanned", c.nBytes)
	c.r.Add("clear_marks_seen", c.nClear)
	setFSHook(nil)
	c.tamper(40)
	if c.db != nil {
		c.db.Close()
	}
}

func init() {
	reg("crypt", true, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			cfg := &engCfg{topics: pickTopics(rng, 1+rng.Intn(6)), contracts: []uint32{master}, deflimit: 1000}
			if rng.Intn(2) == 0 {
				cfg.contracts = append(cfg.contracts, rng.Uint32()|1)
			}
			dir := filepath.Join(j.Dir, fmt.Sprintf("e%d", i))
			c := &crypt{eng: newEng(r, rng, dir, cfg), dbEnc: rng.Intn(3) == 0}
			if rng.Intn(3) > 0 {
				c.key = make([]byte, 32)
				rng.Read(c.key)
			}
			// batches show up together, so limits are judged as such
			r.Case(i, strings.Join(cfg.topics, ","))
			setFSHook(c.hook)
			c.run(j.Int("ops", 80))
			setFSHook(nil)
			r.Add("cases", 1)
			r.Seen("histories", strings.Join(c.log, ";"))
			if i == j.From {
				l := c.log
				if len(l) > 25 {
					l = l[:25]
				}
				r.Sample(map[string]interface{}{"case": i, "first_ops": l})
			}
			os.RemoveAll(dir)
		})
	})

	// mac checks the library: round trips, alterations, other keys.
	reg("mac", false, func(j *Job, r *Rep) {
		j.cases(func(i int) {
			rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
			r.Case(i, "mac")
			r.Add("cases", 1)
			key, key2 := make([]byte, 32), make([]byte, 32)
			rng.Read(key)
			copy(key2, key)
			key2[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
			m, err := crypto.New(key)
			m2, err2 := crypto.New(key2)
			if err != nil || err2 != nil {
				r.Viol("mac-new", "New: %v %v", err, err2)
				return
			}
			n := i % 70
			if i >= 300 {
				n = rng.Intn(5000)
			}
			src := make([]byte, n)
			rng.Read(src)
			if rng.Intn(4) == 0 {
				src = bytes.Repeat([]byte{byte(rng.Intn(256))}, n)
			}
			keep := append([]byte(nil), src...)
			pre := make([]byte, rng.Intn(5))
			out := m.Encrypt(append([]byte(nil), pre...), src)
			if !bytes.Equal(src, keep) {
				r.Viol("mac-src", "Encrypt changed its argument of %d bytes", n)
			}
			if !bytes.HasPrefix(out, pre) {
				r.Viol("mac-prefix", "Encrypt does not append")
				return
			}
			out = out[len(pre):]
			r.Seen("sizes", fmt.Sprint(n))
			keepOut := append([]byte(nil), out...)
			got, err := m.Decrypt(append([]byte(nil), pre...), out)
			if err != nil || !bytes.Equal(got, append(append([]byte(nil), pre...), src...)) {
				r.Viol("mac-roundtrip", "message of %d bytes: Decrypt(Encrypt) = %d bytes, err %v", n, len(got), err)
				return
			}
			if !bytes.Equal(out, keepOut) {
				r.Viol("mac-cipher", "Decrypt changed the encrypted message of %d bytes", n)
				return
			}
			if n >= 12 && bytes.Contains(out, src[4:]) {
				r.Viol("mac-clear", "message of %d bytes is in the encrypted one in clear", n)
			}
			r.Add("roundtrips", 1)
			if got, err := m2.Decrypt(nil, out); err == nil {
				r.Viol("mac-key", "another key decrypts a message of %d bytes to %d bytes", n, len(got))
			}
			for k := range out {
				if len(out) > 200 && rng.Intn(len(out)) > 200 {
					continue
				}
				b := append([]byte(nil), out...)
				b[k] ^= 1 << uint(rng.Intn(8))
				r.Add("alterations", 1)
				if got, err := m.Decrypt(nil, b); err == nil {
					r.Viol("mac-altered", "message of %d bytes with byte %d altered decrypts to %d bytes (equal: %v)", n, k, len(got), bytes.Equal(got, src))
					return
				}
			}
			for k := 0; k < len(out); k++ {
				if len(out) > 200 && rng.Intn(len(out)) > 60 {
					continue
				}
				r.Add("truncations", 1)
				if got, err := m.Decrypt(nil, out[:k]); err == nil {
					r.Viol("mac-cut", "message of %d bytes cut to %d of %d encrypted bytes decrypts to %d bytes", n, k, len(out), len(got))
					return
				}
			}
			r.Seen("histories", string(out))
		})
	})
}
