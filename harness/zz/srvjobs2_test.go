package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"testing/synctest"
	"time"

	pbx "github.com/unit-io/unitdb/server/proto"
)

// ---- keys and permissions ----

// keyTopics are long enough that the hashes of their permutations differ.
func keyTopics(rng *rand.Rand) (stat, wild []string) {
	al := []string{"teams-red7", "alphaquebec", "channel19", "bravo-tango", "zulu2kilo"}
	seen := map[string]bool{}
	for len(stat) < 6 {
		ps := make([]string, 2+rng.Intn(3))
		for i := range ps {
			ps[i] = al[rng.Intn(len(al))]
		}
		if t := strings.Join(ps, "."); !seen[t] {
			seen[t] = true
			stat = append(stat, t)
		}
	}
	for len(wild) < 5 {
		ps := strings.Split(stat[rng.Intn(len(stat))], ".")
		if rng.Intn(2) == 0 {
			ps[rng.Intn(len(ps))] = "*"
		} else {
			ps[len(ps)-1] += "..."
		}
		if t := strings.Join(ps, "."); !seen[t] {
			seen[t] = true
			wild = append(wild, t)
		}
	}
	return
}

const keyAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef"

// alterKey changes the part of a key that is the hash of its topic.
func alterKey(rng *rand.Rand, k string) string {
	b := []byte(k)
	for i := 7 + rng.Intn(5); ; {
		if c := keyAlphabet[rng.Intn(32)]; c != b[i] {
			b[i] = c
			return string(b)
		}
	}
}

// key requests a key of a topic once.
func (c *cli) key(topic, typ string) string {
	if k, ok := c.keys[topic+"|"+typ]; ok {
		return k
	}
	k := c.keygen(topic, typ)
	c.keys[topic+"|"+typ] = k
	return k
}

func hasType(typ, want string) bool { return strings.ContainsAny(typ, want+"ao") }

type keyUse struct {
	kind  string
	text  string // key and topic as sent
	ok    bool
	judge bool
}

// useKey draws a key for a request of the client that needs the permission.
func (s *scen) useKey(c *cli, topic, perm string) (u keyUse) {
	rng := s.rng
	types := []string{"r", "w", "rw", "a", "o", ""}
	good := []string{perm, "rw", "a", "o", "wr"}[rng.Intn(5)]
	all := append(append([]string{}, s.stat...), s.subT...)
	u.judge = true
	defer func() {
		if perm == "w" && u.judge && strings.Contains(u.text, "/") && rng.Intn(4) == 0 {
			u.text += "?ttl=20h"
			u.kind += " with option"
		}
	}()
	switch rng.Intn(10) {
	default:
		u.kind, u.text, u.ok = "proper", c.key(topic, good)+"/"+topic, true
	case 4:
		typ := types[rng.Intn(len(types))]
		u.kind, u.text, u.ok = "type "+typ, c.key(topic, typ)+"/"+topic, hasType(typ, perm)
	case 5:
		t := all[rng.Intn(len(all))]
		u.kind, u.text, u.ok = "topic", c.key(t, good)+"/"+topic, t == topic
		u.judge = t == topic || !matches(t, topic) // whether a key with wildcards covers a topic is not claimed
	case 6:
		for _, o := range s.clis {
			if o.contract != c.contract && o.open {
				u.kind, u.text = "contract", o.key(topic, good)+"/"+topic
				return
			}
		}
		u.kind, u.text, u.ok = "proper", c.key(topic, good)+"/"+topic, true
	case 7:
		u.kind, u.text = "altered", alterKey(rng, c.key(topic, good))+"/"+topic
	case 8:
		k := c.key(topic, good)
		switch rng.Intn(4) {
		case 0:
			u.kind, u.text = "none", topic
		case 1:
			u.kind, u.text = "short", k[:rng.Intn(len(k))]+"/"+topic
		case 2:
			u.kind, u.text = "long", k+string(keyAlphabet[rng.Intn(32)])+"/"+topic
		default:
			u.kind, u.text = "zero", strings.Repeat("A", 13)+"/"+topic
		}
	case 9:
		k := c.key("...", good)
		u.kind, u.text, u.ok = "all", k+"/"+topic, perm == "r"
	}
	if perm == "w" && !plainTopic(topic) {
		u.ok, u.judge = false, false
	}
	return
}

func plainTopic(t string) bool { return !strings.Contains(t, "*") && !strings.Contains(t, "...") }

// refused checks that a request got an error that names it.
func (s *scen) refused(c *cli, id int32, what string, u keyUse) {
	if es := c.errors(id); len(es) != 1 || es[0] < 400 || es[0] > 403 {
		s.viol("not-refused", "%s: %s with %q (key: %s) must be refused, errors received for it: %v", c.name, what, u.text, u.kind, es)
	}
	s.r.Add("requests refused", 1)
	s.r.Seen("refused", what+" "+u.kind)
}

func (s *scen) granted(c *cli, id int32, what string, u keyUse) {
	if es := c.errors(id); len(es) != 0 {
		s.viol("not-granted", "%s: %s with %q (key: %s) must be granted, errors received for it: %v", c.name, what, u.text, u.kind, es)
	}
	s.r.Add("requests granted", 1)
	s.r.Seen("granted", what+" "+u.kind)
}

func srvPerm(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 2, perContract: 3, topics: 1, secure: 70, modes: 3}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		s := newScen(j, r, i, cfg)
		if s == nil {
			return
		}
		s.stat, s.subT = keyTopics(s.rng)
		refusedP := map[string]string{}
		kept := map[string][]string{} // what relays have to return, by contract and topic
		keptMay := map[string][]string{}
		for n := j.Int("ops", 60); n > 0 && r.nviol == 0; n-- {
			c := s.pick()
			r.Add("operations", 1)
			if c.insecure && s.rng.Intn(2) == 0 {
				// What was refused is not stored either.
				t := s.stat[s.rng.Intn(len(s.stat))]
				ct := fmt.Sprint(c.contract, t)
				c.mu.Lock()
				for _, p := range kept[ct] {
					c.s.want[p]++
				}
				for _, p := range keptMay[ct] {
					c.s.may[p]++
				}
				c.mu.Unlock()
				r.Add("payloads to be relayed", int64(len(kept[ct])))
				s.relay(c, t, "10h")
				s.pass(2 * time.Second)
				s.quiet()
				s.account(false)
				continue
			}
			if c.insecure {
				if s.rng.Intn(2) == 0 {
					c.subscribe(s.subscr(), s.mode(), 0)
				} else {
					ms := s.pubs(1)
					kept[fmt.Sprint(c.contract, ms[0].topic)] = append(kept[fmt.Sprint(c.contract, ms[0].topic)], ms[0].payload)
					c.publish(s.mode(), ms, nil)
				}
				s.settle()
				continue
			}
			switch s.rng.Intn(11) {
			case 8, 9, 10:
				s.permMany(c, kept, keptMay, refusedP)
			case 0, 1, 2:
				t := s.stat[s.rng.Intn(len(s.stat))]
				if s.rng.Intn(8) == 0 {
					t = s.subscr()
				}
				u := s.useKey(c, t, "w")
				s.quiet()
				id := c.newMsgID()
				m := pubMsg{t, s.payload()}
				mode := s.mode()
				s.logf("%s PUBLISH %d mode %d %s (key: %s) %s", c.name, id, mode, u.text, u.kind, short(m.payload))
				if u.ok {
					kept[fmt.Sprint(c.contract, t)] = append(kept[fmt.Sprint(c.contract, t)], m.payload)
					s.expect(c, mode, m, nil)
				}
				if !u.judge {
					if plainTopic(t) {
						continue
					}
					// Messages are not published to wildcards.
				}
				c.send(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, &pbx.Publish{MessageID: id, DeliveryMode: mode, Messages: []*pbx.PublishMessage{{Topic: u.text, Payload: []byte(m.payload)}}})
				s.quiet()
				acks := c.acked(pbx.MessageType_PUBLISH, id)
				if u.ok {
					s.granted(c, id, "PUBLISH", u)
					if acks != 1 {
						s.viol("not-acknowledged", "%s: PUBLISH %d has %d acknowledgements", c.name, id, acks)
					}
				} else {
					refusedP[m.payload] = u.text
					s.refused(c, id, "PUBLISH", u)
					if acks != 0 {
						s.viol("refused-acknowledged", "%s: PUBLISH %d to %q (key: %s) is acknowledged", c.name, id, u.text, u.kind)
					}
				}
			case 3, 4, 5:
				t := s.subscr()
				u := s.useKey(c, t, "r")
				if !u.judge || t == "..." {
					continue
				}
				s.quiet()
				id := c.newMsgID()
				mode := s.mode()
				s.logf("%s SUBSCRIBE %d mode %d %s (key: %s)", c.name, id, mode, u.text, u.kind)
				c.send(pbx.MessageType_SUBSCRIBE, pbx.FlowControl_NONE, &pbx.Subscribe{MessageID: id, Subscriptions: []*pbx.Subscription{{DeliveryMode: mode, Topic: u.text}}})
				s.quiet()
				if u.ok {
					s.granted(c, id, "SUBSCRIBE", u)
					c.mu.Lock()
					if x := c.subs[t]; x != nil {
						x.n++
					} else {
						c.subs[t] = &sub{mode: mode, n: 1}
					}
					c.mu.Unlock()
				} else {
					s.refused(c, id, "SUBSCRIBE", u)
				}
			case 6:
				t := s.someSub(c)
				if t == "" {
					continue
				}
				u := s.useKey(c, t, "r")
				if !u.judge {
					continue
				}
				s.quiet()
				id := c.newMsgID()
				s.logf("%s UNSUBSCRIBE %d %s (key: %s)", c.name, id, u.text, u.kind)
				c.send(pbx.MessageType_UNSUBSCRIBE, pbx.FlowControl_NONE, &pbx.Unsubscribe{MessageID: id, Subscriptions: []*pbx.Subscription{{Topic: u.text}}})
				s.quiet()
				if u.ok {
					s.granted(c, id, "UNSUBSCRIBE", u)
					c.noteUnsub(t)
				} else {
					s.refused(c, id, "UNSUBSCRIBE", u)
				}
			case 7:
				t := s.stat[s.rng.Intn(len(s.stat))]
				u := s.useKey(c, t, "r")
				if !u.judge {
					continue
				}
				s.quiet()
				if u.ok {
					c.mu.Lock()
					for _, p := range kept[fmt.Sprint(c.contract, t)] {
						c.s.want[p]++
					}
					for _, p := range keptMay[fmt.Sprint(c.contract, t)] {
						c.s.may[p]++
					}
					c.mu.Unlock()
				}
				id := s.relayText(c, u.text, "10h")
				s.pass(2 * time.Second)
				s.quiet()
				if u.ok {
					s.granted(c, id, "RELAY", u)
				} else {
					s.refused(c, id, "RELAY", u)
				}
			}
			s.settle()
		}
		s.settle()
		for _, c := range s.clis {
			for p, t := range refusedP {
				if c.s.got[p] != nil {
					s.viol("refused-delivered", "%s received %s, whose PUBLISH to %q was refused", c.name, short(p), t)
				}
			}
		}
		s.account(true)
		s.stop()
		os.RemoveAll(s.dir)
	})
}

// permMany makes a request for several topics, some of which may have to be refused.
func (s *scen) permMany(c *cli, kept, keptMay map[string][]string, refusedP map[string]string) {
	perm, what := "r", []string{"PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "RELAY"}[s.rng.Intn(4)]
	if what == "PUBLISH" {
		perm = "w"
	}
	type item struct {
		t string
		u keyUse
		m pubMsg
	}
	var items []item
	bad := 0
	used := map[string]bool{}
	for n := 2 + s.rng.Intn(3); n > 0; n-- {
		t := s.stat[s.rng.Intn(len(s.stat))]
		switch what {
		case "SUBSCRIBE":
			t = s.subscr()
		case "UNSUBSCRIBE":
			t = s.someSub(c)
		}
		if t == "" || t == "..." || what != "PUBLISH" && used[t] {
			continue
		}
		used[t] = true
		u := s.useKey(c, t, perm)
		if !u.judge {
			continue
		}
		if !u.ok {
			bad++
		}
		items = append(items, item{t, u, pubMsg{t, s.payload()}})
	}
	if len(items) == 0 {
		return
	}
	s.quiet()
	id := c.newMsgID()
	mode := s.mode()
	kinds := ""
	for _, x := range items {
		s.logf("%s %s %d mode %d: %s (key: %s) %s", c.name, what, id, mode, x.u.text, x.u.kind, short(x.m.payload))
		kinds += fmt.Sprintf("%v ", x.u.ok)
	}
	switch what {
	case "PUBLISH":
		p := &pbx.Publish{MessageID: id, DeliveryMode: mode}
		for _, x := range items {
			p.Messages = append(p.Messages, &pbx.PublishMessage{Topic: x.u.text, Payload: []byte(x.m.payload)})
			ct := fmt.Sprint(c.contract, x.t)
			switch {
			case !x.u.ok:
				refusedP[x.m.payload] = x.u.text
			case bad == 0:
				kept[ct] = append(kept[ct], x.m.payload)
				s.expect(c, mode, x.m, nil)
			default:
				// what becomes of the others is not claimed
				keptMay[ct] = append(keptMay[ct], x.m.payload)
				s.expect(c, mode, x.m, func(*cli, string) bool { return true })
			}
		}
		c.send(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, p)
	case "SUBSCRIBE":
		p := &pbx.Subscribe{MessageID: id}
		for _, x := range items {
			p.Subscriptions = append(p.Subscriptions, &pbx.Subscription{DeliveryMode: mode, Topic: x.u.text})
		}
		c.send(pbx.MessageType_SUBSCRIBE, pbx.FlowControl_NONE, p)
	case "UNSUBSCRIBE":
		p := &pbx.Unsubscribe{MessageID: id}
		for _, x := range items {
			p.Subscriptions = append(p.Subscriptions, &pbx.Subscription{Topic: x.u.text})
		}
		c.send(pbx.MessageType_UNSUBSCRIBE, pbx.FlowControl_NONE, p)
	case "RELAY":
		p := &pbx.Relay{MessageID: id}
		c.mu.Lock()
		for _, x := range items {
			p.RelayRequests = append(p.RelayRequests, &pbx.RelayRequest{Topic: x.u.text, Last: "10h"})
			if x.u.ok {
				for _, p := range kept[fmt.Sprint(c.contract, x.t)] {
					c.s.want[p]++
				}
				for _, p := range keptMay[fmt.Sprint(c.contract, x.t)] {
					c.s.may[p]++
				}
			}
		}
		c.mu.Unlock()
		c.send(pbx.MessageType_RELAY, pbx.FlowControl_NONE, p)
		s.pass(2 * time.Second)
	}
	s.quiet()
	es := c.errors(id)
	for _, e := range es {
		if e < 400 || e > 403 {
			s.viol("not-refused", "%s: %s of several topics (%s) is answered with error %d", c.name, what, kinds, e)
		}
	}
	if want := bad; want != len(es) && !(what == "PUBLISH" && bad > 0 && len(es) > 0 && len(es) <= bad) {
		s.viol("not-refused", "%s: %s of several topics, %d of which must be refused (%s): errors received for it: %v", c.name, what, bad, kinds, es)
	}
	for _, x := range items {
		if x.u.ok && what == "SUBSCRIBE" {
			c.mu.Lock()
			if y := c.subs[x.t]; y != nil {
				y.n++
			} else {
				c.subs[x.t] = &sub{mode: mode, n: 1}
			}
			c.mu.Unlock()
		}
		if x.u.ok && what == "UNSUBSCRIBE" {
			c.noteUnsub(x.t)
		}
	}
	if what == "PUBLISH" {
		if acks := c.acked(pbx.MessageType_PUBLISH, id); bad > 0 && acks != 0 {
			s.viol("refused-acknowledged", "%s: PUBLISH %d of several messages, %d of which must be refused, is acknowledged", c.name, id, bad)
		} else if bad == 0 && acks != 1 {
			s.viol("not-acknowledged", "%s: PUBLISH %d of several messages has %d acknowledgements", c.name, id, acks)
		}
	}
	s.r.Add("requests for several topics", 1)
	s.r.Seen("requests for several topics", what+" "+kinds)
}

// subscr is a topic to subscribe to.
func (s *scen) subscr() string {
	all := append(append([]string{}, s.stat...), s.subT...)
	return all[s.rng.Intn(len(all))]
}

func (s *scen) relayText(c *cli, text, last string) int32 {
	id := c.newMsgID()
	s.logf("%s RELAY %d %s last %s", c.name, id, text, last)
	c.send(pbx.MessageType_RELAY, pbx.FlowControl_NONE, &pbx.Relay{MessageID: id, RelayRequests: []*pbx.RelayRequest{{Topic: text, Last: last}}})
	s.r.Add("relays", 1)
	return id
}

func (s *scen) relay(c *cli, topic, last string) {
	id := s.relayText(c, c.keyed(topic, "r"), last)
	s.expectAck(c, pbx.MessageType_RELAY, id)
}

// ---- client identifiers ----

func srvID(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
		w := &world{r: r, rng: rng, dir: srvDir(j, i), mem: 1 << 20}
		s := &scen{world: w, cfg: srvCfg{modes: 1}}
		s.stat = []string{"teams.alpha.channel1"}
		r.Case(i, "ids")
		time.Sleep(time.Duration(rng.Int63n(int64(time.Second))))
		if !w.start(i, w.dir) {
			return
		}
		epochs := map[*cli]int32{}
		ids := map[string]*cli{}
		add := func(from *cli) {
			k := 0
			if from != nil {
				k = from.contract
			} else {
				for _, c := range w.clis {
					if c.contract >= k {
						k = c.contract + 1
					}
				}
			}
			w.pass(time.Duration(1000+rng.Intn(3000)) * time.Millisecond)
			c := w.newCli(fmt.Sprintf("c%d.%d", k, len(w.clis)), k)
			c.insecure = true
			if !c.register(from) {
				return
			}
			if o := ids[c.id]; o != nil {
				s.viol("id-given-twice", "%s and %s have the same identifier %s", c.name, o.name, c.id)
			}
			ids[c.id] = c
			c.primary = from == nil
		}
		add(nil)
		for n := j.Int("ops", 60); n > 0 && r.nviol == 0; n-- {
			c := s.pick()
			r.Add("operations", 1)
			switch k := rng.Intn(20); {
			case k < 2 && len(w.clis) < 8:
				add(nil)
			case k < 6 && len(w.clis) < 12:
				if c.open && c.primary {
					add(c)
				} else if c.open && !c.primary {
					if id := c.secondary(); id != "" {
						s.viol("secondary-grants", "%s, which is not a primary client, got the identifier %s", c.name, id)
					}
					c.mu.Lock()
					if rs := c.special["clientid"]; len(rs) == 0 || !strings.Contains(rs[len(rs)-1], "403") {
						s.viol("secondary-grants", "%s: a request for an identifier by a client that is not a primary one is answered by %v", c.name, rs)
					}
					c.mu.Unlock()
					r.Add("requests for identifiers refused", 1)
				}
			case k < 11:
				if c.open {
					s.leaveNow(c, rng.Intn(2) == 0, nil)
					s.quiet()
				} else {
					c.connect(true)
					s.quiet()
					c.mu.Lock()
					if c.connack != nil {
						if e, ok := epochs[c]; ok && e != c.connack.Epoch {
							s.viol("epoch", "%s: the epoch is %d, before it was %d", c.name, c.connack.Epoch, e)
						}
						epochs[c] = c.connack.Epoch
					}
					c.mu.Unlock()
					r.Add("identifiers accepted", 1)
					c.subscribe(s.stat[0], 0, 0)
					s.settle()
				}
			case k < 14:
				if c.open {
					c.publish(0, s.pubs(1), nil)
					s.settle()
				}
			case k < 19:
				s.badID(c)
			default:
				if rng.Intn(2) == 0 {
					s.restart(false)
				}
			}
		}
		s.settle()
		s.account(true)
		s.stop()
		os.RemoveAll(s.dir)
	})
}

// badID connects with an identifier that was not given by the server.
func (s *scen) badID(c *cli) {
	rng := s.rng
	id := []byte(c.id)
	kind := ""
	switch rng.Intn(7) {
	case 6:
		kind = "extended"
		for n := 1 + rng.Intn(3); n > 0; n-- {
			id = append(id, keyAlphabet[rng.Intn(32)])
		}
		if rng.Intn(3) == 0 {
			id = append(id, c.id...)
		}
	default:
		kind = "altered"
		for n := 1 + rng.Intn(3)*rng.Intn(3); n > 0; n-- {
			p := rng.Intn(51)
			for o := id[p]; id[p] == o; {
				id[p] = keyAlphabet[rng.Intn(32)]
			}
		}
		if string(id) == c.id {
			return
		}
	case 3:
		kind, id = "cut", id[:rng.Intn(52)]
	case 4:
		kind = "random"
		for p := range id {
			id[p] = keyAlphabet[rng.Intn(32)]
		}
	case 5:
		kind = "spliced"
		o := s.clis[rng.Intn(len(s.clis))]
		n := 1 + rng.Intn(50)
		id = append(append([]byte{}, id[:n]...), o.id[n:]...)
		for _, x := range s.clis {
			if x.id == string(id) || x.id[:51] == string(id[:51]) {
				return
			}
		}
	}
	h := s.world.newCli("h", -1)
	s.world.clis = s.world.clis[:len(s.world.clis)-1]
	h.id = string(id)
	h.insecure = true
	s.logf("connect with an identifier that is %s: %s of %s", kind, id, c.name)
	h.connect(rng.Intn(2) == 0)
	synctest.Wait()
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.eof || h.connack != nil && h.connack.ReturnCode == 0 {
		s.viol("bad-id-accepted", "the server accepts the identifier %q (%s, made of %q of %s)", id, kind, c.id, c.name)
	}
	if n := len(h.special["clientid"]); n != 1 {
		s.viol("no-new-id", "%d new identifiers after a connect with an invalid one (%s)", n, kind)
	}
	h.conn.Close()
	h.wmu.Lock()
	h.wclosed = true
	h.wmu.Unlock()
	h.wcond.Broadcast()
	s.r.Add("identifiers refused", 1)
	s.r.Seen("refused identifiers", kind)
}

// ---- stored messages ----

type storedMsg struct {
	payload string
	at      time.Time
	ttl     time.Duration
}

func srvStore(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 2, perContract: 3, topics: 4, secure: 30, restart: true, modes: 3, batch: i%2 == 0}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		s := newScen(j, r, i, cfg)
		if s == nil {
			return
		}
		kept := map[string][]storedMsg{}
		slack := 2 * time.Second
		floods := s.rng.Intn(4)
		if j.Int("flood", 40) > 40 {
			floods = 2 + s.rng.Intn(3)
		}
		for n := j.Int("ops", 60); n > 0 && r.nviol == 0; n-- {
			c := s.pick()
			r.Add("operations", 1)
			if !c.open {
				s.rejoin(c, false)
				s.settle()
				continue
			}
			switch k := s.rng.Intn(20); {
			case k < 2:
				c.subscribe(s.stat[s.rng.Intn(len(s.stat))], s.mode(), 0)
				s.settle()
			case k < 9:
				m, each := 1+s.rng.Intn(8), 3
				if floods > 0 && s.rng.Intn(3) == 0 {
					// A topic with many messages. (A query of the DB returns up to 1000 by default.)
					floods--
					m, each = 1+s.rng.Intn(8), j.Int("flood", 40)
					r.Add("floods", 1)
				}
				for ; m > 0; m-- {
					id := c.newMsgID()
					mode := s.mode()
					p := &pbx.Publish{MessageID: id, DeliveryMode: mode}
					for _, x := range s.pubs(1 + s.rng.Intn(each)) {
						if each > 3 {
							x.topic = s.stat[0]
						}
						st := storedMsg{payload: x.payload, at: time.Now()}
						ttl := ""
						if s.rng.Intn(3) == 0 {
							st.ttl = time.Duration(1+s.rng.Intn(400)) * time.Second
							ttl = st.ttl.String()
						}
						ct := fmt.Sprint(c.contract, x.topic)
						kept[ct] = append(kept[ct], st)
						s.logf("%s PUBLISH %d %s ttl %q %s", c.name, id, x.topic, ttl, short(x.payload))
						s.expect(c, mode, x, nil)
						text := c.keyed(x.topic, "w")
						if ttl != "" && s.rng.Intn(3) == 0 && strings.Contains(text, "/") {
							text, ttl = text+"?ttl="+ttl, ""
							r.Add("messages with a ttl in the topic", 1)
						}
						p.Messages = append(p.Messages, &pbx.PublishMessage{Topic: text, Payload: []byte(x.payload), Ttl: ttl})
						r.Add("messages published", 1)
					}
					c.send(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, p)
					s.expectAck(c, pbx.MessageType_PUBLISH, id)
				}
				s.settle()
			case k < 12:
				d := time.Duration(s.rng.Intn(90000)) * time.Millisecond
				if s.rng.Intn(4) == 0 {
					d *= 4
				}
				s.pass(d)
				s.quiet()
			case k < 19:
				t := s.stat[s.rng.Intn(len(s.stat))]
				if s.rng.Intn(12) == 0 {
					t = "nothing.was.published"
				}
				ct := fmt.Sprint(c.contract, t)
				last := time.Duration(1+s.rng.Intn(900)) * time.Second
				if ms := kept[ct]; len(ms) > 0 && s.rng.Intn(2) == 0 {
					// close to the age of a message
					a := time.Since(ms[s.rng.Intn(len(ms))].at) + time.Duration(s.rng.Intn(9)-4)*time.Second
					if a > time.Second {
						last = a.Truncate(time.Second)
					}
				}
				lasts := last.String()
				if s.rng.Intn(10) == 0 {
					lasts = ""
				}
				now := time.Now()
				c.mu.Lock()
				in, out := 0, 0
				for _, m := range kept[ct] {
					age := now.Sub(m.at)
					sure := age < last-slack && (m.ttl == 0 || age < m.ttl-slack)
					never := age > last+slack || m.ttl != 0 && age > m.ttl+slack || lasts == ""
					switch {
					case never:
						out++
					case sure:
						c.s.want[m.payload]++
						in++
					default:
						c.s.may[m.payload]++
						r.Add("stored messages at an edge, not judged", 1)
					}
				}
				c.mu.Unlock()
				if in > 1000 {
					r.Add("relays of more than 1000 messages", 1)
				}
				if in > 100 {
					r.Add("relays of more than 100 messages", 1)
				}
				r.Add("stored messages to be relayed", int64(in))
				r.Add("stored messages not to be relayed", int64(out))
				r.Seen("share of a topic relayed", fmt.Sprint(in > 0, out > 0))
				s.relay(c, t, lasts)
				s.settle()
				s.pass(5 * time.Second)
				s.quiet()
				s.account(false)
			default:
				s.restart(s.rng.Intn(2) == 0)
			}
		}
		if r.nviol == 0 {
			s.settle()
			s.account(true)
		}
		s.stop()
		os.RemoveAll(s.dir)
	})
}

func init() {
	reg("srvperm", true, srvPerm)
	reg("srvid", true, srvID)
	reg("srvstore", true, srvStore)
}
