package zzverif

import (
	"bytes"
	"encoding/base32"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/unit-io/unitdb/encoding"
	"github.com/unit-io/unitdb/filter"
	"github.com/unit-io/unitdb/hash"
	"github.com/unit-io/unitdb/metrics"
	senc "github.com/unit-io/unitdb/server/internal/pkg/encoding"
	shash "github.com/unit-io/unitdb/server/internal/pkg/hash"
	smetrics "github.com/unit-io/unitdb/server/internal/pkg/metrics"
)

// ---- consistent hashing (P21) --------------------------------------------------

func someKeys(rng *rand.Rand, n int) []uint64 {
	keys := make([]uint64, n)
	base := rng.Uint64()
	for i := range keys {
		switch rng.Intn(5) {
		case 0:
			keys[i] = uint64(i)
		case 1:
			keys[i] = base + uint64(i)
		case 2:
			keys[i] = uint64(i) << 32
		case 3:
			keys[i] = rng.Uint64() >> uint(rng.Intn(64))
		default:
			keys[i] = rng.Uint64()
		}
	}
	return keys
}

// anchor drives a consistent hash through additions and removals of blocks.
func anchor(r *Rep, rng *rand.Rand, ops int) {
	blocks := 1 + rng.Intn(40)
	if rng.Intn(4) == 0 {
		blocks = 1 + rng.Intn(2000)
	}
	if rng.Intn(40) == 0 {
		blocks = 65535 - rng.Intn(3)
	}
	used := 1 + rng.Intn(blocks)
	if rng.Intn(3) == 0 {
		used = blocks
	}
	a, twin := hash.InitConsistent(blocks, used), hash.InitConsistent(blocks, used)
	keys := someKeys(rng, 400)
	work := map[uint16]bool{}
	var removed []uint16 // most recent last
	for b := 0; b < used; b++ {
		work[uint16(b)] = true
	}
	for b := blocks - 1; b >= used; b-- {
		removed = append(removed, uint16(b))
	}
	log := fmt.Sprintf("blocks %d used %d", blocks, used)
	bad := false
	viol := func(sig, f string, x ...interface{}) {
		if !bad {
			r.Viol(sig, "%s | %s", fmt.Sprintf(f, x...), log)
		}
		bad = true
	}
	// look returns the block of every key, having checked that each is a working one.
	look := func() []uint16 {
		at := make([]uint16, len(keys))
		buf := make([]uint16, 0, rng.Intn(6))
		for i, k := range keys {
			b := a.FindBlock(k)
			at[i] = b
			if !work[b] {
				viol("anchor-not-working", "key %#x is assigned to block %d, which is none of the working ones", k, b)
				return at
			}
			if t := twin.FindBlock(k); t != b {
				viol("anchor-twin", "key %#x is assigned to block %d, and to %d by another that went through the same changes", k, b, t)
				return at
			}
			if i%4 == 0 {
				pre := []uint16{7, 9}[:rng.Intn(3)]
				buf = append(buf[:0], pre...)
				p := a.GetPath(k, buf)
				if len(p) <= len(pre) || !reflect.DeepEqual(append([]uint16{}, p[:len(pre)]...), append([]uint16{}, pre...)) {
					viol("anchor-path", "path %v of key %#x does not append to the buffer %v", p, k, pre)
					return at
				}
				p = p[len(pre):]
				if p[len(p)-1] != b {
					viol("anchor-path", "path %v of key %#x does not end at its block %d", p, k, b)
					return at
				}
				for _, x := range p[:len(p)-1] {
					if int(x) >= blocks || work[x] {
						viol("anchor-path", "path %v of key %#x passes block %d, which is a working one or none", p, k, x)
						return at
					}
				}
			}
		}
		r.Add("assignments_checked", int64(len(keys)))
		return at
	}
	// spread: many keys are spread evenly.
	spread := func(keys func(i int) uint64) {
		if bad || len(work) > 300 {
			return
		}
		n := 400 * len(work)
		cnt := map[uint16]int{}
		for i := 0; i < n; i++ {
			cnt[a.FindBlock(keys(i))]++
		}
		for b := range work {
			if c := cnt[b]; c < 120 || c > 1200 {
				viol("anchor-spread", "block %d has %d of %d keys, there are %d blocks", b, c, n, len(work))
				return
			}
		}
		r.Add("distributions_checked", 1)
	}
	// before holds the assignments before each removal that was not undone yet.
	before := map[int][]uint16{}
	at := look()
	for ; ops > 0 && !bad; ops-- {
		if len(log) > 3000 {
			log = log[:1000] + "..." + log[len(log)-1000:]
		}
		if len(removed) > 0 && (len(work) == 1 || rng.Intn(2) == 0) {
			want := removed[len(removed)-1]
			got := a.AddBlock()
			twin.AddBlock()
			log += fmt.Sprintf("; add %d", got)
			if got != want {
				viol("anchor-add", "AddBlock added %d, the block removed last is %d", got, want)
				return
			}
			work[got] = true
			removed = removed[:len(removed)-1]
			now := look()
			for i := range now {
				if now[i] != at[i] && now[i] != got {
					viol("anchor-moved", "adding block %d moved key %#x from block %d to %d", got, keys[i], at[i], now[i])
					return
				}
			}
			if old := before[len(removed)]; old != nil {
				if !reflect.DeepEqual(now, old) {
					viol("anchor-undo", "adding block %d, which was removed last, does not bring the assignments back", got)
					return
				}
				r.Add("removals_undone", 1)
			}
			delete(before, len(removed))
			at = now
		} else if len(work) > 1 {
			var b uint16
			if rng.Intn(8) == 0 {
				b = uint16(rng.Intn(blocks)) // maybe one that is not working
			} else {
				n := rng.Intn(blocks)
				for !work[uint16(n%blocks)] {
					n++
				}
				b = uint16(n % blocks)
			}
			a.RemoveBlock(b)
			twin.RemoveBlock(b)
			log += fmt.Sprintf("; remove %d", b)
			was := work[b]
			if was {
				before[len(removed)] = at
				delete(work, b)
				removed = append(removed, b)
			}
			now := look()
			for i := range now {
				if now[i] != at[i] && (at[i] != b || !was) {
					viol("anchor-moved", "removing block %d moved key %#x from block %d to %d", b, keys[i], at[i], now[i])
					return
				}
			}
			at = now
		}
		r.Add("block_changes", 1)
	}
	spread(func(i int) uint64 { return rng.Uint64() })
	r.Seen("histories", log)
}

func someName(rng *rand.Rand) string {
	b := make([]byte, 1+rng.Intn(8))
	for i := range b {
		b[i] = "abc0123."[rng.Intn(8)]
	}
	return string(b)
}

// ring compares nodes of a cluster, which know the same nodes in any order.
func ring(r *Rep, rng *rand.Rand) {
	var fn shash.Hash
	desc := "fnv"
	switch rng.Intn(4) {
	case 0:
		m := uint32(1 + rng.Intn(50))
		desc = fmt.Sprintf("sum mod %d", m)
		fn = func(d []byte) uint32 { // with collisions
			s := uint32(0)
			for _, c := range d {
				s = s*31 + uint32(c)
			}
			return s % m
		}
	case 1:
		fn, desc = shash.New, "shash"
	}
	replicas := 1 + rng.Intn(25)
	set := map[string]bool{}
	n := 1 + rng.Intn(8)
	for len(set) < n {
		set[someName(rng)] = true
	}
	var names []string
	for s := range set {
		names = append(names, s)
	}
	sort.Strings(names)
	r.Seen("histories", fmt.Sprint(desc, replicas, names))
	build := func(names []string) *shash.Ring {
		g := shash.NewRing(replicas, fn)
		l := append([]string{}, names...)
		rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for len(l) > 0 {
			k := 1 + rng.Intn(len(l))
			g.Add(l[:k]...)
			l = l[k:]
		}
		return g
	}
	if g := shash.NewRing(replicas, fn); g.Get("x") != "" || g.Len() != 0 {
		r.Viol("ring-empty", "an empty ring assigns a key to %q", g.Get("x"))
	}
	a, b, less := build(names), build(names), build(names[1:])
	if a.Len() != replicas*n {
		r.Viol("ring-len", "%s: ring of %v with %d replicas has %d keys", desc, names, replicas, a.Len())
	}
	if a.Signature() != b.Signature() {
		r.Viol("ring-signature", "%s: rings of %v with %d replicas, added in different orders, have different signatures", desc, names, replicas)
	}
	if a.Signature() == less.Signature() && n > 1 {
		r.Viol("ring-signature", "%s: rings of %v and of %v have the same signature", desc, names, names[1:])
	}
	if g := shash.NewRing(replicas+1, fn); true {
		g.Add(names...)
		if g.Signature() == a.Signature() {
			r.Viol("ring-signature", "%s: rings of %v with %d and %d replicas have the same signature", desc, names, replicas, replicas+1)
		}
	}
	for i := 0; i < 300; i++ {
		k := someName(rng)
		if rng.Intn(2) == 0 {
			k = fmt.Sprint(rng.Uint32())
		}
		x, y := a.Get(k), b.Get(k)
		if !set[x] {
			r.Viol("ring-get", "%s: ring of %v with %d replicas assigns %q to %q", desc, names, replicas, k, x)
			return
		}
		if x != y || a.Get(k) != x {
			r.Viol("ring-differ", "%s: rings of %v with %d replicas, added in different orders, assign %q to %q and %q", desc, names, replicas, k, x, y)
			return
		}
		if n > 1 {
			if z := less.Get(k); z != x && x != names[0] {
				r.Viol("ring-moved", "%s: adding %q to the ring of %v with %d replicas moves %q from %q to %q", desc, names[0], names[1:], replicas, k, z, x)
				return
			}
		}
		r.Add("ring_lookups", 1)
	}
	if fn == nil && n > 1 {
		b := shash.NewRing(20, nil)
		b.Add(names...)
		cnt := map[string]int{}
		for i := 0; i < 3000; i++ {
			cnt[b.Get(fmt.Sprint(rng.Uint32()))]++
		}
		if len(cnt) < 2 {
			r.Viol("ring-spread", "3000 keys are all assigned to %v of %v", cnt, names)
		}
	}
}

// ---- filters and encodings (P32) -----------------------------------------------

func bloom(r *Rep, rng *rand.Rand) {
	g := filter.NewFilterGenerator()
	n := rng.Intn(10000)
	if rng.Intn(4) == 0 {
		n = 10000 + rng.Intn(90000)
	}
	keys := someKeys(rng, n)
	stored := map[uint64]bool{}
	for _, k := range keys {
		stored[k] = true
	}
	workers := 1 + rng.Intn(4)
	r.Seen("histories", fmt.Sprint("bloom", n, workers, rng.Int63()))
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < n; i += workers {
				g.Append(keys[i])
				if i%1000 == 0 {
					g.Bytes()
				}
			}
		}(w)
	}
	wg.Wait()
	raw := g.Finish()
	if !bytes.Equal(raw, g.Bytes()) {
		r.Viol("bloom-bytes", "Finish and Bytes differ for a filter of %d keys", n)
	}
	blk := filter.NewFilterBlock(append([]byte{}, raw...))
	for _, k := range keys {
		if !blk.Test(k) {
			r.Viol("bloom-denied", "a filter of %d keys, appended by %d goroutines, denies key %#x", n, workers, k)
			return
		}
	}
	r.Add("keys_tested", int64(n))
	// a filter that is not overfull denies most of other keys
	if n <= 10000 {
		false_, m := 0, 4000
		for i := 0; i < m; i++ {
			k := rng.Uint64()
			if !stored[k] && blk.Test(k) {
				false_++
			}
		}
		if false_ > m/10 {
			r.Viol("bloom-full", "a filter of %d keys accepts %d of %d other keys", n, false_, m)
		}
		r.Add("other_keys_tested", int64(m))
	}
}

const codecAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef"

func codec(r *Rep, rng *rand.Rand) {
	std := base32.NewEncoding(codecAlphabet).WithPadding(base32.NoPadding)
	for _, c := range []struct {
		name     string
		n, m     int
		enc, dec func(dst, src []byte)
	}{
		{"encoding 8", 8, 13, encoding.Encode8, encoding.Decode8},
		{"encoding 32", 32, 52, encoding.Encode32, encoding.Decode32},
		{"server encoding 8", 8, 13, senc.Encode8, senc.Decode8},
		{"server encoding 32", 32, 52, senc.Encode32, senc.Decode32},
	} {
		id := make([]byte, c.n)
		switch rng.Intn(4) {
		case 0:
			id[rng.Intn(c.n)] = 1 << uint(rng.Intn(8))
		case 1:
			for i := range id {
				id[i] = 255
			}
			id[rng.Intn(c.n)] ^= 1 << uint(rng.Intn(8))
		default:
			rng.Read(id)
		}
		keep := append([]byte{}, id...)
		text := make([]byte, c.m)
		c.enc(text, id)
		if !bytes.Equal(id, keep) {
			r.Viol("codec-input", "%s changed its input %x to %x", c.name, keep, id)
			return
		}
		if want := std.EncodeToString(id); string(text) != want {
			r.Viol("codec-text", "%s of %x is %q, base32 with its alphabet is %q", c.name, id, text, want)
			return
		}
		keepText := append([]byte{}, text...)
		got := make([]byte, c.n)
		c.dec(got, text)
		if !bytes.Equal(got, id) || !bytes.Equal(text, keepText) {
			r.Viol("codec-round", "%s of %x is %q, which decodes to %x", c.name, id, text, got)
			return
		}
		c.dec(text, text) // the server decodes identifiers in place
		if !bytes.Equal(text[:c.n], id) {
			r.Viol("codec-place", "%s of %x, decoded in place, is %x", c.name, id, text[:c.n])
			return
		}
		r.Seen("histories", string(keepText))
		r.Add("codes_checked", 1)
	}
	// hashes do not change what they hash, and differ by contract
	text := make([]byte, 1+rng.Intn(40))
	rng.Read(text)
	keep := append([]byte{}, text...)
	salt := rng.Uint32()
	for name, f := range map[string]func([]byte, uint32) uint32{"hash": hash.WithSalt, "server hash": shash.WithSalt} {
		a, b := f(text, salt), f(append([]byte{}, keep...), salt)
		if a != b || !bytes.Equal(text, keep) {
			r.Viol("hash-input", "%s of %x with salt %d is %d and then %d, its input became %x", name, keep, salt, a, b, text)
			return
		}
	}
	if a, b := hash.WithSalt(text, 0), hash.New(text); a != b {
		r.Viol("hash-salt", "hash of %x without salt is %d, with salt 0 %d", text, b, a)
	}
	// one altered byte alters the hash
	i := rng.Intn(len(text))
	other := append([]byte{}, text...)
	other[i] ^= byte(1 + rng.Intn(255))
	if hash.New(text) == hash.New(other) || shash.New(text) == shash.New(other) {
		r.Viol("hash-byte", "hashes of %x and %x, which differ in one byte, are equal", text, other)
	}
	r.Add("hashes_checked", 1)
}

// ---- series and registries (P22) -------------------------------------------------

type seriesRead interface {
	Cumulative() time.Duration
	HMean() time.Duration
	Avg() time.Duration
	P50() time.Duration
	P75() time.Duration
	P95() time.Duration
	P99() time.Duration
	P999() time.Duration
	Long5p() time.Duration
	Short5p() time.Duration
	Max() time.Duration
	Min() time.Duration
	StdDev() time.Duration
	Range() time.Duration
}

type series struct {
	name  string
	size  int
	live  seriesRead
	add   func(time.Duration)
	wall  func(time.Duration)
	reset func()
	snap  func() seriesRead
}

func allSeries(rng *rand.Rand) []series {
	n := 1 + rng.Intn(120)
	h, sh := metrics.NewHistogram(metrics.NewSample(&metrics.Config{Size: n})), smetrics.NewHistogram(smetrics.NewSample(&smetrics.Config{Size: n}))
	t, st := metrics.NewTimeSeries(), smetrics.NewTimeSeries()
	s, ss := metrics.NewSample(&metrics.Config{Size: n}), smetrics.NewSample(&smetrics.Config{Size: n})
	return []series{
		{"histogram", n, h, h.AddTime, h.SetWallTime, h.Reset, func() seriesRead { return h.Snapshot() }},
		{"server histogram", n, sh, sh.AddTime, sh.SetWallTime, sh.Reset, func() seriesRead { return sh.Snapshot() }},
		{"time series", 50, t, t.AddTime, t.SetWallTime, nil, func() seriesRead { return t.Snapshot() }},
		{"server time series", 50, st, st.AddTime, st.SetWallTime, nil, func() seriesRead { return st.Snapshot() }},
		{"sample", n, s, s.AddTime, s.SetWallTime, s.Reset, func() seriesRead { return s.Snapshot() }},
		{"server sample", n, ss, ss.AddTime, ss.SetWallTime, ss.Reset, func() seriesRead { return ss.Snapshot() }},
	}
}

var seriesStats = []string{"Cumulative", "HMean", "Avg", "P50", "P75", "P95", "P99", "P999", "Long5p", "Short5p", "Max", "Min", "StdDev", "Range"}

func seriesAll(s seriesRead) map[string]time.Duration {
	return map[string]time.Duration{"Cumulative": s.Cumulative(), "HMean": s.HMean(), "Avg": s.Avg(), "P50": s.P50(), "P75": s.P75(), "P95": s.P95(), "P99": s.P99(),
		"P999": s.P999(), "Long5p": s.Long5p(), "Short5p": s.Short5p(), "Max": s.Max(), "Min": s.Min(), "StdDev": s.StdDev(), "Range": s.Range()}
}

// seriesWant computes the statistics of events.
func seriesWant(ev []time.Duration) map[string]time.Duration {
	w := map[string]time.Duration{}
	if len(ev) == 0 {
		for _, k := range seriesStats {
			w[k] = 0
		}
		return w
	}
	l := append([]time.Duration{}, ev...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	n := float64(len(l))
	sum, inv := time.Duration(0), 0.0
	for _, d := range l {
		sum += d
		inv += 1 / float64(d)
	}
	w["Cumulative"] = sum
	w["Avg"] = sum / time.Duration(len(l))
	w["HMean"] = time.Duration(n / inv)
	rank := func(p float64) time.Duration { return l[int(math.Floor(n*p+0.5))-1] }
	w["P50"] = l[len(l)/2]
	w["P75"], w["P95"], w["P99"], w["P999"] = rank(0.75), rank(0.95), rank(0.99), rank(0.999)
	mean := func(l []time.Duration) time.Duration {
		s := time.Duration(0)
		for _, d := range l {
			s += d
		}
		return s / time.Duration(len(l))
	}
	w["Max"], w["Min"] = l[len(l)-1], l[0]
	w["Range"] = w["Max"] - w["Min"]
	w["Long5p"], w["Short5p"] = w["Max"], w["Min"]
	if x := l[int(math.Floor(n*0.95+0.5)):]; len(x) > 0 {
		w["Long5p"] = mean(x)
	}
	if x := l[:int(math.Floor(n*0.05+0.5))]; len(x) > 0 {
		w["Short5p"] = mean(x)
	}
	v := 0.0
	for _, d := range l {
		v += math.Pow(float64(w["Avg"]-d), 2)
	}
	w["StdDev"] = time.Duration(math.Sqrt(v / n))
	return w
}

func seriesDiff(got, want map[string]time.Duration) string {
	var bad []string
	for _, k := range seriesStats {
		g, w := got[k], want[k]
		tol := time.Duration(0)
		if k == "HMean" || k == "StdDev" {
			tol = 1 + w/1000000000 // computed in floating point
		}
		if g < w-tol || g > w+tol {
			bad = append(bad, fmt.Sprintf("%s is %d, not %d", k, int64(g), int64(w)))
		}
	}
	return strings.Join(bad, ", ")
}

func someDuration(rng *rand.Rand) time.Duration {
	switch rng.Intn(8) {
	case 0:
		return time.Duration(rng.Intn(3)) // also none
	case 1:
		return time.Duration(rng.Int63n(int64(100 * time.Hour)))
	case 2:
		return time.Millisecond
	}
	return time.Duration(rng.Int63n(int64(time.Second) >> uint(rng.Intn(25))))
}

func seriesCase(r *Rep, rng *rand.Rand, ops int) {
	all := allSeries(rng)
	var ev []time.Duration
	type kept struct {
		s    series
		snap seriesRead
		want map[string]time.Duration
		n    int
	}
	var snaps []kept
	bad := false
	guard := func(s series, what string, f func()) {
		defer func() {
			if p := recover(); p != nil && !bad {
				bad = true
				r.Viol("series-panic", "%s with %d events: %s panics: %v", s.name, len(ev), what, p)
			}
		}()
		f()
	}
	last := func(s series) []time.Duration {
		if len(ev) > s.size {
			return ev[len(ev)-s.size:]
		}
		return ev
	}
	check := func() {
		for _, s := range all {
			s := s
			want := seriesWant(last(s))
			guard(s, "reading a snapshot", func() {
				sn := s.snap()
				if d := seriesDiff(seriesAll(sn), want); d != "" {
					bad = true
					r.Viol("series-snapshot", "snapshot of a %s of size %d after %d events: %s; events %v", s.name, s.size, len(ev), d, last(s))
				}
				if rng.Intn(4) == 0 {
					snaps = append(snaps, kept{s, sn, want, len(ev)})
				}
			})
			guard(s, "reading it", func() {
				if d := seriesDiff(seriesAll(s.live), want); d != "" && !bad {
					bad = true
					r.Viol("series-live", "%s of size %d after %d events: %s; events %v", s.name, s.size, len(ev), d, last(s))
				}
			})
			r.Add("series_checked", 1)
			if bad {
				return
			}
		}
	}
	clear := func() {
		for i := range all {
			if all[i].reset == nil { // there is no way to reset it: take a new one
				all[i] = allSeries(rng)[i]
				continue
			}
			all[i].reset()
		}
		ev = nil
	}
	check()
	for ; ops > 0 && !bad; ops-- {
		switch rng.Intn(12) {
		case 0:
			if rng.Intn(4) == 0 {
				clear()
				r.Add("resets", 1)
			}
			check()
		case 1:
			for _, s := range all {
				s.wall(someDuration(rng))
			}
		case 2:
			for n := rng.Intn(150); n > 0; n-- {
				d := someDuration(rng)
				ev = append(ev, d)
				for _, s := range all {
					s.add(d)
				}
			}
		case 3, 4:
			// by goroutines, while others read
			workers, per := 2+rng.Intn(3), 1+rng.Intn(20)
			list := make([]time.Duration, workers*per)
			for i := range list {
				list[i] = someDuration(rng)
			}
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(2)
				go func(w int) {
					defer wg.Done()
					for _, d := range list[w*per : (w+1)*per] {
						for _, s := range all {
							s.add(d)
						}
					}
				}(w)
				go func(w int) {
					defer wg.Done()
					for i := 0; i < 3; i++ {
						s := all[(w+i)%len(all)]
						guard(s, "reading it while events are recorded", func() {
							x := seriesAll(s.snap())
							if x["Min"] > x["P50"] || x["P50"] > x["P75"] || x["P75"] > x["P95"] || x["P95"] > x["P99"] || x["P99"] > x["P999"] || x["P999"] > x["Max"] ||
								x["Short5p"] < x["Min"] || x["Long5p"] > x["Max"] || x["Avg"] > x["Max"] || x["Range"] != x["Max"]-x["Min"] {
								r.Viol("series-order", "snapshot of a %s taken while events are recorded: %v", s.name, x)
							}
							s.live.P75()
						})
					}
				}(w)
			}
			wg.Wait()
			ev = append(ev, list...)
			fits := true
			for _, s := range all {
				fits = fits && s.size >= len(ev)
			}
			if fits { // else it is not known which of them are the last ones
				check()
				r.Add("concurrent_phases_checked", 1)
			}
			clear()
			r.Add("concurrent_phases", 1)
			check()
		default:
			d := someDuration(rng)
			ev = append(ev, d)
			for _, s := range all {
				s.add(d)
			}
			check()
		}
	}
	for _, k := range snaps {
		k := k
		guard(k.s, "reading an older snapshot", func() {
			if d := seriesDiff(seriesAll(k.snap), k.want); d != "" && !bad {
				bad = true
				r.Viol("series-kept", "snapshot of a %s, taken after %d events and read later: %s", k.s.name, k.n, d)
			}
		})
		r.Add("snapshots_read_later", 1)
	}
	r.Seen("histories", fmt.Sprint(len(ev), rng.Int63()))
}

type counter interface {
	Reset()
	Count() int64
	Dec(int64)
	Inc(int64)
}

type gauge interface {
	Update(int64)
	Value() int64
}

// registryCase: what one name is registered for is one object, for every goroutine.
func registryCase(r *Rep, rng *rand.Rand) {
	type kind struct {
		name string
		get  func(name string) interface{}
		make func() interface{}
	}
	m, sm := metrics.NewMetrics(), smetrics.NewMetrics()
	regs := []struct {
		name   string
		kinds  []kind
		unreg  func(string)
		unall  func()
		direct func(string, interface{}) interface{}
	}{
		{"metrics", []kind{
			{"counter", func(n string) interface{} { return metrics.GetOrRegisterCounter(n, m) }, func() interface{} { return metrics.NewCounter() }},
			{"gauge", func(n string) interface{} { return metrics.GetOrRegisterGauge(n, m) }, func() interface{} { return metrics.NewGauge() }},
			{"histogram", func(n string) interface{} {
				return metrics.GetOrRegisterHistogram(n, m, metrics.NewSample(&metrics.Config{Size: 10}))
			}, func() interface{} { return metrics.NewHistogram(metrics.NewSample(&metrics.Config{Size: 10})) }},
			{"time series", func(n string) interface{} { return metrics.GetOrRegisterTimeSeries(n, m) }, func() interface{} { return metrics.NewTimeSeries() }},
		}, m.Unregister, m.UnregisterAll, m.GetOrRegister},
		{"server metrics", []kind{
			{"counter", func(n string) interface{} { return smetrics.GetOrRegisterCounter(n, sm) }, func() interface{} { return smetrics.NewCounter() }},
			{"gauge", func(n string) interface{} { return smetrics.GetOrRegisterGauge(n, sm) }, func() interface{} { return smetrics.NewGauge() }},
			{"histogram", func(n string) interface{} {
				return smetrics.GetOrRegisterHistogram(n, sm, smetrics.NewSample(&smetrics.Config{Size: 10}))
			}, func() interface{} { return smetrics.NewHistogram(smetrics.NewSample(&smetrics.Config{Size: 10})) }},
			{"time series", func(n string) interface{} { return smetrics.GetOrRegisterTimeSeries(n, sm) }, func() interface{} { return smetrics.NewTimeSeries() }},
		}, sm.Unregister, sm.UnregisterAll, sm.GetOrRegister},
	}
	for _, reg := range regs {
		have := map[string]interface{}{}
		kindOf := map[string]int{}
		for step := 0; step < 30; step++ {
			name := fmt.Sprint("m", rng.Intn(6))
			if _, ok := have[name]; !ok {
				kindOf[name] = rng.Intn(len(reg.kinds))
			}
			k := reg.kinds[kindOf[name]]
			switch rng.Intn(8) {
			case 0:
				reg.unreg(name)
				delete(have, name)
			case 1:
				if rng.Intn(4) == 0 {
					reg.unall()
					have = map[string]interface{}{}
				}
			default:
				workers := 1 + rng.Intn(4)
				got := make([]interface{}, workers)
				direct := rng.Intn(3) == 0
				adds := make([]int64, workers)
				var wg sync.WaitGroup
				for w := range got {
					adds[w] = int64(rng.Intn(2000) - 500)
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						if direct {
							got[w] = reg.direct(name, k.make())
						} else {
							got[w] = k.get(name)
						}
						if c, ok := got[w].(counter); ok && k.name == "counter" {
							for i := int64(0); i < 20; i++ {
								c.Inc(3)
								c.Dec(1)
							}
							if adds[w] < 0 {
								c.Dec(-adds[w])
							} else {
								c.Inc(adds[w])
							}
						}
					}(w)
				}
				old, had := have[name]
				var sum int64
				if had {
					if c, ok := old.(*counted); ok {
						sum = c.n
					}
				}
				wg.Wait()
				for w := range got {
					if got[w] == nil || got[w] != got[0] || had && got[w] != unwrap(old) {
						r.Viol("registry", "%s: a %s registered as %q is %p for one of %d callers and %p for another (registered before: %v)", reg.name, k.name, name, got[w], workers, got[0], had)
						return
					}
					sum += adds[w] + 40
				}
				if k.name == "counter" {
					c := got[0].(counter)
					if c.Count() != sum {
						r.Viol("counter", "%s: counter %q is %d after changes of %d in all", reg.name, name, c.Count(), sum)
						return
					}
					if rng.Intn(6) == 0 {
						c.Reset()
						if sum = 0; c.Count() != 0 {
							r.Viol("counter", "%s: counter is %d after Reset", reg.name, c.Count())
							return
						}
					}
					have[name] = &counted{got[0], sum}
				} else {
					have[name] = got[0]
				}
				if g, ok := got[0].(gauge); ok && k.name == "gauge" {
					v := rng.Int63() - rng.Int63()
					g.Update(v)
					if g.Value() != v {
						r.Viol("gauge", "%s: gauge is %d after Update(%d)", reg.name, g.Value(), v)
						return
					}
				}
				r.Add("registrations", int64(workers))
			}
		}
	}
	// copies do not change
	c, sc := metrics.NewCounter(), smetrics.NewCounter()
	g, sg := metrics.NewGauge(), smetrics.NewGauge()
	n := rng.Int63()
	c.Inc(n)
	sc.Inc(n)
	g.Update(n)
	sg.Update(n)
	cs, scs, gs, sgs := c.Snapshot(), sc.Snapshot(), g.Snapshot(), sg.Snapshot()
	c.Inc(1)
	sc.Inc(1)
	g.Update(n + 1)
	sg.Update(n + 1)
	if cs.Count() != n || scs.Count() != n || gs.Value() != n || sgs.Value() != n || cs.Snapshot().Count() != n || scs.Snapshot().Count() != n {
		r.Viol("snapshot", "snapshots of counters and gauges at %d are %d, %d, %d, %d", n, cs.Count(), scs.Count(), gs.Value(), sgs.Value())
	}
	for what, f := range map[string]func(){"Counter.Inc": func() { cs.Inc(1) }, "Counter.Dec": func() { scs.Dec(1) }, "Counter.Reset": cs.Reset, "Gauge.Update": func() { gs.Update(1) },
		"server Gauge.Update": func() { sgs.Update(1) }, "TimeSeries.AddTime": func() { metrics.NewTimeSeries().Snapshot().AddTime(1) }, "server TimeSeries.AddTime": func() { smetrics.NewTimeSeries().Snapshot().AddTime(1) }} {
		func() {
			defer func() {
				if recover() == nil {
					r.Viol("snapshot-change", "%s on a snapshot does not panic", what)
				}
			}()
			f()
		}()
	}
	r.Seen("histories", fmt.Sprint("registry", rng.Int63()))
}

type counted struct {
	c interface{}
	n int64
}

func unwrap(x interface{}) interface{} {
	if c, ok := x.(*counted); ok {
		return c.c
	}
	return x
}

func init() {
	one := func(f func(j *Job, r *Rep, rng *rand.Rand)) func(j *Job, r *Rep) {
		return func(j *Job, r *Rep) {
			j.cases(func(i int) {
				rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
				r.Case(i, "")
				f(j, r, rng)
				r.Add("cases", 1)
			})
		}
	}
	reg("anchor", false, one(func(j *Job, r *Rep, rng *rand.Rand) { anchor(r, rng, j.Int("ops", 60)) }))
	reg("ring", false, one(func(j *Job, r *Rep, rng *rand.Rand) { ring(r, rng) }))
	reg("bloom", false, one(func(j *Job, r *Rep, rng *rand.Rand) { bloom(r, rng) }))
	reg("codec", false, one(func(j *Job, r *Rep, rng *rand.Rand) { codec(r, rng) }))
	reg("series", false, one(func(j *Job, r *Rep, rng *rand.Rand) { seriesCase(r, rng, j.Int("ops", 40)) }))
	reg("registry", false, one(func(j *Job, r *Rep, rng *rand.Rand) { registryCase(r, rng) }))
}
