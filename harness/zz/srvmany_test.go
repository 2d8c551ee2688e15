package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"time"
)

// ---- topics with more subscribers than a query of the DB returns by default (P26) ----

// srvMany connects many clients of a contract that subscribe to the same topic,
// part of them with a wildcard, and publishes while some leave and others come.
func srvMany(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
		n := 1001 + rng.Intn(200)
		if i%4 == 3 {
			n = 200 + rng.Intn(700)
		}
		w := &world{r: r, rng: rng, dir: srvDir(j, i), mem: 1 << 20, kinds: true}
		r.Case(i, fmt.Sprintf("%d clients", n))
		time.Sleep(time.Duration(rng.Int63n(int64(time.Second))))
		if !w.start(i, w.dir) {
			return
		}
		first := w.newCli("c0", 0)
		first.insecure, first.sessKey = true, 1
		if !first.register(nil) {
			return
		}
		first.connect(false)
		w.quiet()
		var subs []*cli
		add := func() {
			c := w.newCli(fmt.Sprintf("c%d", len(w.clis)), 0)
			c.insecure, c.id, c.sessKey = true, first.id, int32(1+len(w.clis))
			c.connect(false)
			subs = append(subs, c)
			if len(subs)%50 == 0 {
				w.quiet()
			}
		}
		join := func(c *cli) {
			t := "many.a"
			switch rng.Intn(6) {
			case 0:
				t = "many.*"
			case 1:
				t = "many..."
			}
			c.subscribe(t, int32(rng.Intn(2)), 0)
		}
		for k := 0; k < n; k++ {
			add()
		}
		w.quiet()
		for k, c := range subs {
			join(c)
			if k%100 == 99 {
				w.quiet()
			}
		}
		w.pass(time.Second)
		for round := 0; round < 3 && r.nviol == 0; round++ {
			for k := 1 + rng.Intn(3); k > 0; k-- {
				t := "many.a"
				if rng.Intn(4) == 0 {
					t = "many.b"
				}
				first.publish(int32(rng.Intn(2)), []pubMsg{{t, w.payload()}}, nil)
				w.pass(time.Second)
			}
			// some give their subscriptions up or leave, and as many come.
			for k := 0; k < 40; k++ {
				c := subs[rng.Intn(len(subs))]
				for t := range c.subs {
					c.unsubscribe(t)
					w.quiet()
					if rng.Intn(2) == 0 {
						join(c)
					}
					break
				}
			}
			w.pass(time.Second)
		}
		for d := time.Duration(0); d < 4*time.Second; d += time.Second {
			w.pass(time.Second)
		}
		w.quiet()
		w.checkAcks()
		w.account(true)
		r.Add("server runs", 1)
		r.Add("runs with many subscribers", 1)
		w.stop()
		os.RemoveAll(w.dir)
	})
}

func init() { reg("srvmany", true, srvMany) }
