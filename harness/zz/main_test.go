// Package zzverif holds the runtime monitors of /verif. It is compiled into
// the module under test through a build overlay (see /verif/run.py); nothing
// of it lives in /repo.
package zzverif

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
)

// Job is what the driver asks one process to do.
type Job struct {
	Kind   string                 `json:"kind"`
	Prop   string                 `json:"prop"`
	Seed   int64                  `json:"seed"`
	N      int                    `json:"n"`
	From   int                    `json:"from"` // replay: first case
	Only   int                    `json:"only"` // replay: run only this case (-1: all)
	Params map[string]interface{} `json:"params"`
	Dir    string                 `json:"dir"` // scratch directory owned by the driver
	Out    string                 `json:"out"`
	bubble bool
}

func (j *Job) Int(k string, d int) int {
	if v, ok := j.Params[k]; ok {
		if f, ok := v.(float64); ok {
			return int(f)
		}
	}
	return d
}
func (j *Job) Str(k, d string) string {
	if v, ok := j.Params[k].(string); ok {
		return v
	}
	return d
}
func (j *Job) Bool(k string) bool { v, _ := j.Params[k].(bool); return v }

// Rep collects what a job observed.
type Rep struct {
	mu     sync.Mutex
	f      *os.File
	job    *Job
	stats  map[string]int64
	sets   map[string]map[string]bool
	caseID int
	nviol  int
	beat   int64 // activity, looked at by the stall watchdog
}

// watch looks for a process that does nothing any more: when the monitors saw no
// event for a long time, all stacks are handed to the driver, which tells a
// deadlock (every goroutine of the system waits) and an endless loop (much processor
// time went by without an event) from slowness.
func (r *Rep) watch() {
	last, since, used := int64(-1), time.Now(), cpuTime()
	for {
		time.Sleep(2 * time.Second)
		b := atomic.LoadInt64(&r.beat)
		if b != last {
			last, since, used = b, time.Now(), cpuTime()
			continue
		}
		if time.Since(since) > 100*time.Second {
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			r.emit(map[string]interface{}{"t": "stall", "i": r.caseID, "stack": string(buf), "cpu": (cpuTime() - used).Seconds()})
			os.Exit(4)
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Guard reports a call that does not return for an hour of the bubble's time. Time
// only passes in a bubble while all its goroutines wait. The function it returns
// ends the guard.
func (r *Rep) Guard(what string) func() {
	t := time.AfterFunc(time.Hour, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		r.Viol("hang:"+what, "%s did not return within an hour of virtual time, all its goroutines wait\n%s", what, buf)
		r.finish()
		os.Exit(0)
	})
	return func() { t.Stop() }
}

func (r *Rep) emit(m map[string]interface{}) {
	b, _ := json.Marshal(m)
	r.mu.Lock()
	syscall.Write(int(r.f.Fd()), append(b, '\n')) // not through the os package: it may be hooked
	r.mu.Unlock()
}

// Case announces the start of case i; a crash of the process is blamed on it.
func (r *Rep) Case(i int, desc string) {
	atomic.AddInt64(&r.beat, 1)
	r.caseID = i
	r.emit(map[string]interface{}{"t": "case", "i": i, "desc": desc})
}

// Viol reports a violation: sig is a stable signature, msg the witness.
func (r *Rep) Viol(sig, msg string, args ...interface{}) {
	r.mu.Lock()
	r.nviol++
	n := r.nviol
	r.mu.Unlock()
	if n > 40 {
		return
	}
	s := fmt.Sprintf(msg, args...)
	if len(s) > 6000 {
		s = s[:6000] + "...(cut)"
	}
	r.emit(map[string]interface{}{"t": "viol", "i": r.caseID, "sig": sig, "msg": s})
}

// Add adds to a counter of observed events.
func (r *Rep) Add(k string, n int64) {
	atomic.AddInt64(&r.beat, 1)
	r.mu.Lock()
	r.stats[k] += n
	r.mu.Unlock()
}

// Seen records a distinct observed state/situation.
func (r *Rep) Seen(set, v string) {
	r.mu.Lock()
	m := r.sets[set]
	if m == nil {
		m = map[string]bool{}
		r.sets[set] = m
	}
	if len(m) < 200000 {
		m[v] = true
	}
	r.mu.Unlock()
}

// Sample stores one written-out case.
func (r *Rep) Sample(s interface{}) { r.emit(map[string]interface{}{"t": "sample", "v": s}) }

func (r *Rep) finish() {
	pprof.StopCPUProfile()
	r.mu.Lock()
	sets := map[string]int{}
	hashes := map[string][]string{}
	for k, m := range r.sets {
		sets[k] = len(m)
		var hs []string
		for v := range m {
			hs = append(hs, fmt.Sprintf("%x", fnv64(v)))
		}
		sort.Strings(hs)
		if len(hs) > 20000 {
			hs = hs[:20000]
		}
		hashes[k] = hs
	}
	r.mu.Unlock()
	r.emit(map[string]interface{}{"t": "done", "stats": r.stats, "sets": sets, "hashes": hashes, "nviol": r.nviol})
	r.f.Close()
}

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

type jobFn struct {
	bubble bool
	f      func(j *Job, r *Rep)
}

var jobs = map[string]jobFn{}

func reg(kind string, bubble bool, f func(j *Job, r *Rep)) { jobs[kind] = jobFn{bubble, f} }

// cases runs the job's cases [From, N).
func (j *Job) cases(f func(i int)) {
	for i := j.From; i < j.N; i++ {
		if j.Only >= 0 && i != j.Only {
			continue
		}
		if j.bubble {
			// A case does not depend on when those before it ended.
			time.Sleep(time.Until(time.Now().Truncate(time.Minute).Add(time.Minute)))
		}
		f(i)
	}
}

func TestJob(t *testing.T) {
	p := os.Getenv("VJOB")
	if p == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	j := &Job{Only: -1}
	if err := json.Unmarshal(b, j); err != nil {
		t.Fatal(err)
	}
	debug.SetGCPercent(400)
	log.SetOutput(io.Discard)
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if os.Getenv("VDEBUG") == "" {
		if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
	}
	f, err := os.Create(j.Out)
	if err != nil {
		t.Fatal(err)
	}
	r := &Rep{f: f, job: j, stats: map[string]int64{}, sets: map[string]map[string]bool{}}
	fn, ok := jobs[j.Kind]
	if !ok {
		t.Fatalf("unknown job kind %q", j.Kind)
	}
	if p := os.Getenv("VPROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	go r.watch()
	run := func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				r.emit(map[string]interface{}{"t": "panic", "i": r.caseID, "msg": fmt.Sprint(e), "stack": st})
				r.finish()
				os.Exit(3)
			}
		}()
		fn.f(j, r)
		r.finish()
		os.Exit(0)
	}
	if j.bubble = fn.bubble; fn.bubble {
		synctest.Test(t, func(t *testing.T) {
			// Leave the year 2000: the engine's epochs start in 2020.
			time.Sleep(time.Until(time.Unix(1790000000, 0)))
			run()
		})
		return
	}
	run()
}

// panicSite extracts the innermost repository frame of a stack, for signatures.
func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/unit-io/unitdb") && !strings.Contains(l, "zzverif") {
			if k := strings.LastIndex(l, "("); k > 0 {
				return l[:k]
			}
			return l
		}
	}
	return "?"
}
