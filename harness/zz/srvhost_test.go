package zzverif

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/golang/protobuf/proto"
	pbx "github.com/unit-io/unitdb/server/proto"
)

// ---- hostile clients ----

var goodPayload = regexp.MustCompile(`^p\d+-`)

// foe is a client that does not follow the protocol.
type foe struct {
	s     *scen
	rng   *rand.Rand
	id    string
	own   bool // it is of a contract of its own
	conn  net.Conn
	mu    sync.Mutex
	q     [][]byte
	cond  *sync.Cond
	done  bool
	stall bool
}

func (f *foe) properConnect() *pbx.Connect {
	return &pbx.Connect{Version: 1, ClientID: f.id, InsecureFlag: true, CleanSessFlag: f.rng.Intn(2) == 0, SessKey: 0x5A5A0000 + int32(f.rng.Intn(4)), Username: "H",
		BatchDuration: int32(1 + f.rng.Intn(2000)), BatchByteThreshold: int32(f.rng.Intn(100)), BatchCountThreshold: int32(f.rng.Intn(20))}
}

// newFoe returns a hostile client. It does not read if it stalls.
func (s *scen) newFoe(id string, own, stall bool) *foe {
	f := &foe{s: s, rng: s.rng, id: id, own: own}
	f.cond = sync.NewCond(&f.mu)
	via, seed := viaTCP, int64(0)
	if s.nets {
		via, seed = s.rng.Intn(3), s.rng.Int63()
	}
	a, err := s.srv.dial(via, seed)
	if err != nil {
		s.viol("harness", "dial: %v", err)
		a, _ = net.Pipe()
	}
	f.conn = a
	f.stall = stall
	go func() {
		for {
			f.mu.Lock()
			for len(f.q) == 0 && !f.done {
				f.cond.Wait()
			}
			if len(f.q) == 0 {
				f.mu.Unlock()
				return
			}
			b := f.q[0]
			f.q = f.q[1:]
			f.mu.Unlock()
			if _, err := a.Write(b); err != nil {
				return
			}
		}
	}()
	if !f.stall {
		go func() {
			rd := bufio.NewReader(a)
			for {
				h, _, err := wireRead(rd)
				if err != nil {
					io.Copy(io.Discard, a)
					return
				}
				f.s.r.Add(fmt.Sprintf("frames received by hostile clients: %v %v", h.MessageType, h.FlowControl), 1)
			}
		}()
	}
	s.r.Add("hostile connections", 1)
	return f
}

func (f *foe) write(b []byte) {
	f.mu.Lock()
	f.q = append(f.q, b)
	f.mu.Unlock()
	f.cond.Signal()
}

func (f *foe) close() {
	f.conn.Close()
	f.mu.Lock()
	f.done = true
	f.mu.Unlock()
	f.cond.Broadcast()
}

func (f *foe) oddString() string {
	switch f.rng.Intn(20) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("/", 1+f.rng.Intn(5))
	case 2:
		return strings.Repeat("a.", f.rng.Intn(300))
	case 3:
		b := make([]byte, f.rng.Intn(40))
		f.rng.Read(b)
		return string(b)
	case 4:
		return []string{"...", "*", ".", "..", "a...b", "....", "*...", "?", "?last=1h", "a?ttl=", "a?ttl=x&last=y", "/?", "a/?", "unitdb/", "unitdb/?", "?/a", "a.*.*....", "a..b", "%00", "a?last=-1h", "a?last=99999999999999h"}[f.rng.Intn(21)]
	case 5:
		return "unitdb/" + []string{"keygen", "clientid", "error", "nothing", "keygen?ttl=1", "clientid.x"}[f.rng.Intn(6)]
	case 6:
		return strings.Repeat("x", f.rng.Intn(70000))
	case 7:
		b := make([]byte, 13)
		for i := range b {
			b[i] = byte(f.rng.Intn(256))
		}
		return string(b) + "/teams.alpha"
	case 8:
		return f.s.stat[f.rng.Intn(len(f.s.stat))] + "\xff\xfe"
	case 9, 10, 11, 12, 13:
		return f.s.stat[f.rng.Intn(len(f.s.stat))]
	default:
		return f.s.subT[f.rng.Intn(len(f.s.subT))]
	}
}

func (f *foe) oddInt() int32 {
	switch f.rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return -1 - int32(f.rng.Intn(1000))
	case 2:
		return 1<<31 - 1
	case 3:
		return -1 << 31
	case 4:
		return int32(f.rng.Uint32())
	default:
		return int32(f.rng.Intn(5))
	}
}

func (f *foe) payload() []byte {
	if f.rng.Intn(8) == 0 {
		return [][]byte{nil, []byte("{}"), []byte("[]"), []byte("null"), []byte(`[{"topic":"a","type":"rw"}]`), []byte(`[{}]`), []byte(`[null]`), []byte(`[{"topic":"` + strings.Repeat("a.", 40) + `","type":"r"}]`), []byte(`[{"topic":"...","type":"oarw"}]`), []byte(`[{"topic":"","type":""}]`)}[f.rng.Intn(10)]
	}
	return []byte(strings.Repeat("H", f.rng.Intn(1+[]int{10, 300, 5000, 200000}[f.rng.Intn(4)])))
}

func (f *foe) connectFrame(odd bool) []byte {
	c := &pbx.Connect{Version: 1, ClientID: f.id, InsecureFlag: f.rng.Intn(3) > 0, CleanSessFlag: f.rng.Intn(2) == 0, SessKey: 0x5A5A0000 + int32(f.rng.Intn(4)), Username: "H"}
	if odd {
		c.Version = f.oddInt()
		c.KeepAlive = f.oddInt()
		c.Username = f.oddString()
		c.Password = f.payload()
		c.BatchDuration = f.oddInt()
		c.BatchByteThreshold = f.oddInt()
		c.BatchCountThreshold = f.oddInt()
		if f.own {
			c.SessKey = f.oddInt()
		}
		switch f.rng.Intn(8) {
		case 0:
			c.ClientID = f.oddString()
		case 1:
			c.ClientID = strings.Repeat("A", f.rng.Intn(120))
		}
	}
	return f.frame(pbx.MessageType_CONNECT, pbx.FlowControl_NONE, c)
}

// frame encodes a message even if its strings are not UTF-8.
func (f *foe) frame(typ pbx.MessageType, fc pbx.FlowControl, m proto.Message) []byte {
	body, err := proto.Marshal(m)
	if err != nil {
		body, _ = proto.Marshal(&pbx.Publish{MessageID: 1, Messages: []*pbx.PublishMessage{{Topic: f.s.stat[f.rng.Intn(len(f.s.stat))] + ".XX", Payload: []byte("H")}}})
		body = []byte(strings.Replace(string(body), "XX", "\xff\xfe", 1))
		typ, fc = pbx.MessageType_PUBLISH, pbx.FlowControl_NONE
	}
	return wireFrame(typ, fc, body)
}

func (f *foe) oddFrame() []byte {
	id := f.oddInt()
	switch k := f.rng.Intn(20); {
	case k < 7:
		p := &pbx.Publish{MessageID: id, DeliveryMode: f.oddInt()}
		for n := f.rng.Intn(4); n > 0; n-- {
			t := ""
			if f.rng.Intn(3) == 0 {
				t = f.oddString()
			}
			p.Messages = append(p.Messages, &pbx.PublishMessage{Topic: f.oddString(), Payload: f.payload(), Ttl: t})
		}
		return f.frame(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, p)
	case k < 10:
		p := &pbx.Subscribe{MessageID: id}
		for n := f.rng.Intn(4); n > 0; n-- {
			o := &pbx.Subscription{Topic: f.oddString(), DeliveryMode: f.oddInt(), Delay: f.oddInt()}
			if f.stall {
				// See "does not read".
				o = &pbx.Subscription{Topic: "hh." + o.Topic, DeliveryMode: int32(f.rng.Intn(2))}
			}
			p.Subscriptions = append(p.Subscriptions, o)
		}
		return f.frame(pbx.MessageType_SUBSCRIBE, pbx.FlowControl_NONE, p)
	case k < 12:
		p := &pbx.Unsubscribe{MessageID: id}
		for n := f.rng.Intn(4); n > 0; n-- {
			p.Subscriptions = append(p.Subscriptions, &pbx.Subscription{Topic: f.oddString(), DeliveryMode: f.oddInt()})
		}
		return f.frame(pbx.MessageType_UNSUBSCRIBE, pbx.FlowControl_NONE, p)
	case k < 14:
		p := &pbx.Relay{MessageID: id}
		for n := f.rng.Intn(3); n > 0; n-- {
			p.RelayRequests = append(p.RelayRequests, &pbx.RelayRequest{Topic: f.oddString(), Last: []string{"", "1h", "-1h", "x", "1000000h", "1ns", "\x00", "1h1h"}[f.rng.Intn(8)]})
		}
		return f.frame(pbx.MessageType_RELAY, pbx.FlowControl_NONE, p)
	case k < 18:
		return f.frame(pbx.MessageType(f.rng.Intn(10)), pbx.FlowControl(1+f.rng.Intn(7)), &pbx.ControlMessage{MessageID: id, Message: f.payload()})
	case k < 19:
		return f.connectFrame(true)
	default:
		return f.frame(pbx.MessageType(f.rng.Intn(12)-1), pbx.FlowControl(f.rng.Intn(8)-1), &pbx.Disconnect{MessageID: id})
	}
}

func (f *foe) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + f.rng.Intn(5); n > 0 && len(b) > 0; n-- {
		p := f.rng.Intn(len(b))
		switch f.rng.Intn(5) {
		case 0:
			b[p] ^= 1 << uint(f.rng.Intn(8))
		case 1:
			b[p] = byte(f.rng.Intn(256))
		case 2:
			q := p + 1 + f.rng.Intn(8)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		case 3:
			x := make([]byte, 1+f.rng.Intn(8))
			f.rng.Read(x)
			b = append(b[:p:p], append(x, b[p:]...)...)
		default:
			b = append(b, b[p:]...)
		}
	}
	return b
}

// attack writes one thing that a client is not to write.
func (f *foe) attack() (kind string) {
	switch f.rng.Intn(7) {
	case 0:
		b := make([]byte, 1+f.rng.Intn(300))
		f.rng.Read(b)
		f.write(b)
		return "garbage"
	case 1, 2:
		if f.stall {
			f.write(f.connectFrame(false))
			f.write(f.oddFrame())
			return "odd frames"
		}
		if f.own {
			f.write(f.mutate(f.connectFrame(false)))
		} else {
			f.write(f.connectFrame(false))
		}
		for n := f.rng.Intn(5); n > 0; n-- {
			f.write(f.mutate(f.oddFrame()))
		}
		return "altered frames"
	case 3:
		// A length that nothing follows.
		f.write(f.connectFrame(true))
		h, _ := proto.Marshal(&pbx.FixedHeader{MessageType: pbx.MessageType(1 + f.rng.Intn(7)), FlowControl: pbx.FlowControl(f.rng.Intn(6)), MessageLength: f.oddInt()})
		f.write(append([]byte{byte(len(h))}, h...))
		return "lengths"
	case 4:
		f.write(f.connectFrame(true))
		b := f.oddFrame()
		f.write(b[:f.rng.Intn(len(b))])
		return "cut frame"
	default:
		f.write(f.connectFrame(f.rng.Intn(2) == 0))
		for n := 1 + f.rng.Intn(12); n > 0; n-- {
			f.write(f.oddFrame())
		}
		return "odd frames"
	}
}

// srvGoroutines counts goroutines that the server started for connections.
func srvGoroutines() (n int, stacks string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if i := strings.Index(g, "created by github.com/unit-io/unitdb/server/"); i >= 0 && (strings.Contains(g, "._Conn)") || strings.Contains(g, "(*_Conn)") || strings.Contains(g, "(*batchManager)")) {
			n++
			if len(stacks) < 3000 {
				stacks += g + "\n\n"
			}
		}
	}
	return
}

func srvHost(j *Job, r *Rep) {
	j.cases(func(i int) {
		cfg := srvCfg{contracts: 2, perContract: 3, topics: 4, wild: true, secure: 30, batch: i%3 == 2, modes: 3}
		r.Case(i, fmt.Sprintf("%+v", cfg))
		s := newScen(j, r, i, cfg)
		if s == nil {
			return
		}
		s.foes = true
		if s.rng.Intn(2) == 0 {
			s.subT = append(s.subT, "...")
		}
		// Identifiers of hostile clients: a contract of their own, and one of each contract.
		h := s.newCli("foe", 1000)
		h.insecure = true
		if !h.register(nil) {
			return
		}
		s.clis = s.clis[:len(s.clis)-1]
		ids := []string{h.id}
		for _, c := range s.clis {
			if c.primary && c.open {
				s.pass(1100 * time.Millisecond)
				if id := c.secondary(); id != "" {
					ids = append(ids, id)
				}
			}
		}
		var foes []*foe
		for n := j.Int("ops", 40); n > 0 && r.nviol == 0; n-- {
			switch s.rng.Intn(4) {
			case 0:
				s.step()
			case 1:
				for k := 1 + s.rng.Intn(4); k > 0; k-- {
					x := s.rng.Intn(len(ids))
					f := s.newFoe(ids[x], x == 0, x == 0 && s.rng.Intn(6) == 0)
					kind := ""
					for a := 1 + s.rng.Intn(3); a > 0; a-- {
						kind = f.attack()
						r.Add("attacks", 1)
						r.Seen("attacks", fmt.Sprint(kind, " own contract ", f.own, " stalled ", f.stall))
					}
					s.logf("attack: %s own %v stalled %v", kind, f.own, f.stall)
					switch s.rng.Intn(3) {
					case 0:
						f.close()
					case 1:
						for g := s.rng.Intn(200); g > 0; g-- {
							runtime.Gosched()
						}
						f.close()
					default:
						foes = append(foes, f)
					}
				}
				if s.rng.Intn(2) == 0 {
					s.quiet()
				}
			case 3:
				// A subscriber that does not read, with many messages for it. They are of modes that are not
				// batched: the lock of a batch is held while a full queue is waited for, and the bubble's
				// clock stands still while a goroutine waits for a lock.
				f, p := s.newFoe(ids[0], true, true), s.newFoe(ids[0], true, false)
				t := []string{"hh.one", "hh.two"}[s.rng.Intn(2)]
				f.write(f.frame(pbx.MessageType_CONNECT, pbx.FlowControl_NONE, f.properConnect()))
				p.write(f.frame(pbx.MessageType_CONNECT, pbx.FlowControl_NONE, f.properConnect()))
				f.write(f.frame(pbx.MessageType_SUBSCRIBE, pbx.FlowControl_NONE, &pbx.Subscribe{MessageID: 1, Subscriptions: []*pbx.Subscription{{DeliveryMode: int32(s.rng.Intn(2)), Topic: t}}}))
				s.quiet()
				k := 1 + s.rng.Intn([]int{5, 40, 300}[s.rng.Intn(3)])
				for x := 0; x < k; x++ {
					p.write(f.frame(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, &pbx.Publish{MessageID: int32(x + 1), DeliveryMode: int32(s.rng.Intn(2)), Messages: []*pbx.PublishMessage{{Topic: t, Payload: []byte("H")}}}))
					if s.rng.Intn(8) == 0 {
						f.write(f.oddFrame())
					}
				}
				switch s.rng.Intn(3) {
				case 0:
					s.pass(time.Duration(s.rng.Intn(70)) * time.Second)
				case 1:
					for g := s.rng.Intn(2000); g > 0; g-- {
						runtime.Gosched()
					}
				}
				s.logf("a subscriber that does not read and %d messages for it", k)
				if s.rng.Intn(4) > 0 {
					f.close()
				} else {
					foes = append(foes, f)
				}
				foes = append(foes, p)
				r.Add("attacks", 1)
				r.Add("subscribers that do not read", 1)
				r.Seen("attacks", "does not read")
				if s.rng.Intn(2) == 0 {
					s.quiet()
				}
			case 2:
				// The server serves at the same time.
				for k := 1 + s.rng.Intn(3); k > 0; k-- {
					x := s.rng.Intn(len(ids))
					f := s.newFoe(ids[x], x == 0, x == 0 && s.rng.Intn(6) == 0)
					f.attack()
					r.Add("attacks", 1)
					foes = append(foes, f)
				}
				s.burst()
				for len(foes) > 5 {
					foes[0].close()
					foes = foes[1:]
				}
			}
		}
		if r.nviol == 0 {
			for _, f := range foes {
				f.close()
			}
			s.pass(time.Duration(s.rng.Intn(300)) * time.Second)
			s.settle()
			// A new client is served as well.
			c := s.newCli("late", 2000)
			c.insecure = true
			if c.register(nil) {
				c.connect(true)
				s.quiet()
				c.subscribe(s.stat[0], 1, 0)
				s.settle()
				c.publish(1, []pubMsg{{s.stat[0], s.payload()}}, nil)
				s.settle()
			}
			s.account(true)
			for _, c := range s.clis {
				if c.open {
					c.leave(s.rng.Intn(2) == 0)
				}
			}
			synctest.Wait()
			time.Sleep(300 * time.Second)
			synctest.Wait()
			if n, st := srvGoroutines(); n > 0 {
				s.viol("goroutines-left", "%d goroutines of connections are left 5 minutes after all connections have ended:\n%s", n, st)
			}
			foes = nil
			if n := connsLeft(); n > 0 {
				s.viol("connections-left", "%d connections are kept in memory 5 minutes after all connections have ended", n)
				atomic.StoreInt64(&trackedConns, 0)
			}
			r.Add("checks that nothing is left of connections", 1)
		}
		for _, f := range foes {
			f.close()
		}
		s.stop()
		os.RemoveAll(s.dir)
	})
}

func init() {
	reg("srvhost", true, srvHost)
}
