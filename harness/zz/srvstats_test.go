package zzverif

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"os"
	"strings"
	"testing/synctest"
	"time"

	pbx "github.com/unit-io/unitdb/server/proto"

	"github.com/unit-io/unitdb/server/internal"
)

// ---- statistics of the server (P20) ------------------------------------------

type srvStats struct {
	*scen
	start              time.Time
	requests, reqBytes int64 // requests made by publishing, that may be counted or not
}

// check compares the statistics with what clients did, when all is quiet.
func (s *srvStats) check() {
	if s.r.nviol > 0 {
		return
	}
	s.quiet()
	v, err := s.srv.varz()
	if err != nil {
		s.viol("srv-varz", "Varz: %v", err)
		return
	}
	if s.rng.Intn(4) == 0 {
		rec := httptest.NewRecorder()
		url := "/varz"
		if s.rng.Intn(2) == 0 {
			url += "?callback=g"
		}
		s.srv.varzH(rec, httptest.NewRequest("GET", url, nil))
		b := strings.TrimSuffix(strings.TrimPrefix(rec.Body.String(), "g("), ")")
		if (b != rec.Body.String()) != (url != "/varz") {
			s.viol("srv-varz-http", "answer to %s: %s", url, short(rec.Body.String()))
			return
		}
		v = &internal.Varz{}
		if err := json.Unmarshal([]byte(b), v); err != nil {
			s.viol("srv-varz-http", "answer to %s is no JSON: %v: %s", url, err, short(b))
			return
		}
		s.r.Add("statistics of the server by HTTP", 1)
	}
	conns, subs := int64(0), int64(0)
	for _, c := range s.clis {
		if c.open {
			conns++
			subs += int64(len(c.subs))
		}
	}
	received := int64(0)
	for _, c := range s.clis {
		c.mu.Lock()
		for _, g := range c.s.got {
			received += int64(g.n)
		}
		c.mu.Unlock()
	}
	s.r.Add("statistics of the server checked", 1)
	got := fmt.Sprintf("connections %d subscriptions %d in %d/%d out %d/%d", v.Connections, v.Subscriptions, v.InMsgs, v.InBytes, v.OutMsgs, v.OutBytes)
	bad := func(sig string, want interface{}) {
		s.viol("srv-stat-"+sig, "statistics of the server are {%s}, %s must be %v", got, sig, want)
	}
	switch {
	case v.Connections != conns:
		bad("connections", conns)
	case v.Subscriptions != subs:
		bad("subscriptions", subs)
	case v.InMsgs < s.published || v.InMsgs > s.published+s.requests:
		bad("in_msgs", s.published)
	case v.InBytes < s.publishedBytes || v.InBytes > s.publishedBytes+s.reqBytes:
		bad("in_bytes", s.publishedBytes)
	case v.OutMsgs < 0 || v.OutBytes < 0:
		bad("out_msgs", ">= 0")
	case v.Start.Before(s.start.Add(-time.Second)) || v.Start.After(s.start.Add(time.Second)):
		bad("start", s.start)
	case time.Since(v.Now) > time.Second || time.Until(v.Now) > time.Second:
		bad("now", time.Now())
	}
	if d := v.Now.Sub(v.Start); v.Uptime != uptimeText(d) && v.Uptime != uptimeText(d+time.Second) {
		bad("uptime", uptimeText(d)+" and not "+v.Uptime)
	}
	if conns > 0 && subs > 0 {
		s.r.Seen("connections, subscriptions", fmt.Sprint(conns, " ", subs))
	}
}

// refused sends requests that are not granted.
func (s *srvStats) refused(c *cli) {
	var topics []string
	for n := 1 + s.rng.Intn(3); n > 0; n-- {
		t := ""
		switch s.rng.Intn(3) {
		case 0: // more parts than the DB accepts
			t = strings.Repeat("a.", 255+s.rng.Intn(400)) + "b"
		case 1:
			t = strings.Repeat("x", 70000)
		}
		topics = append(topics, t)
	}
	id := c.newMsgID()
	var sb []*pbx.Subscription
	for _, t := range topics {
		if !c.insecure && s.rng.Intn(2) == 0 {
			t = "AAAAAAAAAAAAAAAAAAAAAA/" + t
		}
		sb = append(sb, &pbx.Subscription{Topic: t, DeliveryMode: s.mode()})
	}
	ask := s.rng.Intn(4) > 0
	s.logf("%s refused SUBSCRIBE or UNSUBSCRIBE %d %v insecure %v", c.name, id, shorts(topics), c.insecure)
	if !ask {
		c.send(pbx.MessageType_UNSUBSCRIBE, pbx.FlowControl_NONE, &pbx.Unsubscribe{MessageID: id, Subscriptions: sb})
	} else {
		c.send(pbx.MessageType_SUBSCRIBE, pbx.FlowControl_NONE, &pbx.Subscribe{MessageID: id, Subscriptions: sb})
	}
	s.quiet()
	if n := len(c.errors(id)); ask && n != len(sb) {
		s.viol("srv-refused", "%s: %d errors for %d subscriptions that cannot be made: %s", c.name, n, len(sb), shorts(topics))
	}
	s.r.Add("requests refused", int64(len(c.errors(id))))
}

func srvStat(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 3, perContract: 4, topics: 6, wild: i%2 == 1, secure: 30, modes: 3, rejoin: true}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		t0 := time.Now()
		sc := newScen(j, r, i, cfg)
		if sc == nil {
			return
		}
		s := &srvStats{scen: sc, start: t0}
		s.requests, s.reqBytes = 1<<20, 1<<30 // keys and IDs are requested by publishing
		v, err := s.srv.varz()
		if err == nil && v.InMsgs == 0 {
			s.requests, s.reqBytes = 0, 0 // requests are not counted as messages
		}
		s.start = v.Start
		if v.Start.Before(t0) || v.Start.After(time.Now()) {
			s.viol("srv-stat-start", "the server started between %v and %v, not at %v", t0, time.Now(), v.Start)
		}
		s.check()
		for n := j.Int("ops", 60); n > 0 && r.nviol == 0; n-- {
			c := s.pick()
			switch k := s.rng.Intn(10); {
			case k < 6:
				s.step()
			case k < 7 && c.open:
				s.refused(c)
			case k < 9:
				if c.open {
					s.settle()
					s.leaveNow(c, s.rng.Intn(2) == 0, nil)
				} else {
					s.scen.rejoin(c, s.rng.Intn(2) == 0)
				}
			default:
				s.cut()
			}
			s.quiet()
			if s.rng.Intn(2) == 0 {
				s.check()
			}
			if s.rng.Intn(12) == 0 {
				s.pass(time.Duration(s.rng.Int63n(int64(2 * time.Minute))))
			}
		}
		if i%4 == 0 {
			s.pass(time.Duration(s.rng.Int63n(int64(75 * time.Minute))))
			s.check()
		}
		for _, c := range s.up() {
			s.leaveNow(c, s.rng.Intn(2) == 0, nil)
			synctest.Wait()
			s.check()
		}
		r.Add("server runs with statistics", 1)
		s.stop()
		os.RemoveAll(s.dir)
	})
}

func init() { reg("srvstats", true, srvStat) }
