package zzverif

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/golang/protobuf/proto"
	"github.com/unit-io/unitdb/server/internal"
	"github.com/unit-io/unitdb/server/internal/config"
	lp "github.com/unit-io/unitdb/server/internal/net"
	pbx "github.com/unit-io/unitdb/server/proto"
)

// ---- the server under test ----

const srvKey = "4BWm1vZletvrCDGWsF6mex8oBSd59m6I"

type server struct {
	accept func(net.Conn)
	close  func()
	http   *lp.HttpServer
	grpc   *lp.GrpcServer
	wsL    *pipeListener
	grpcL  *pipeListener
	varz   func() (*internal.Varz, error)
	varzH  func(http.ResponseWriter, *http.Request)
}

// startServer starts the server on a directory. The handler that its TCP server
// calls for an accepted connection is called for connections of the harness.
func startServer(dir string, mem int) (*server, error) {
	enc, _ := json.Marshal(map[string]string{"key": srvKey})
	cfg := &config.Config{DBPath: dir, EncryptionConfig: enc, Listen: "127.0.0.1:0",
		StoreConfig: json.RawMessage(fmt.Sprintf(`{"reset":false,"adapters":{"unitdb":{"mem_size":%d}}}`, mem))}
	svc, err := internal.NewService(cfg)
	if err != nil {
		return nil, err
	}
	internal.Globals.Service = svc
	s := &server{varz: svc.Varz, varzH: svc.HandleVarz}
	s.close = func() {
		s.closeNet()
		svc.Close()
	}
	v := reflect.ValueOf(svc).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Ptr {
			continue
		}
		switch x := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(type) {
		case *lp.TcpServer:
			s.accept = x.Handler
		case *lp.HttpServer:
			s.http = x
		case *lp.GrpcServer:
			s.grpc = x
		}
	}
	if s.accept == nil {
		return nil, errors.New("harness: no TCP server in the service")
	}
	return s, nil
}

// ---- wire format, written from docs/utp.md and unitdb.proto ----

func wireFrame(typ pbx.MessageType, fc pbx.FlowControl, body []byte) []byte {
	h, _ := proto.Marshal(&pbx.FixedHeader{MessageType: typ, FlowControl: fc, MessageLength: int32(len(body))})
	var b []byte
	n := len(h)
	for {
		d := byte(n % 128)
		n /= 128
		if n > 0 {
			d |= 0x80
		}
		b = append(b, d)
		if n == 0 {
			break
		}
	}
	return append(append(b, h...), body...)
}

func wireMsg(typ pbx.MessageType, fc pbx.FlowControl, m proto.Message) []byte {
	var body []byte
	if m != nil {
		body, _ = proto.Marshal(m)
	}
	return wireFrame(typ, fc, body)
}

func wireRead(r *bufio.Reader) (h pbx.FixedHeader, body []byte, err error) {
	n, shift := 0, uint(0)
	for {
		b, err := r.ReadByte()
		if err != nil {
			return h, nil, err
		}
		n |= int(b&127) << shift
		if b&128 == 0 {
			break
		}
		if shift += 7; shift > 28 {
			return h, nil, errors.New("wire: header length")
		}
	}
	hb := make([]byte, n)
	if _, err = io.ReadFull(r, hb); err != nil {
		return h, nil, err
	}
	if err = proto.Unmarshal(hb, &h); err != nil {
		return h, nil, err
	}
	if h.MessageLength < 0 || h.MessageLength > 64<<20 {
		return h, nil, fmt.Errorf("wire: message length %d", h.MessageLength)
	}
	body = make([]byte, h.MessageLength)
	_, err = io.ReadFull(r, body)
	return h, body, err
}

// ---- client ----

const (
	slNotified = iota // NOTIFY seen
	slAsked           // RECEIVE sent
	slGot             // PUBLISH seen, RECEIPT not sent
	slReceipt         // RECEIPT sent
	slDirect          // PUBLISH seen that was not notified, not acknowledged
	slAcked           // ... acknowledged
)

type slot struct {
	id       int32
	state    int
	mode     int32
	payloads []string // nil: not seen yet
	conn     int      // the connection of the session the state is of
	maybe    bool     // the server may or may not be done with it
}

type got struct {
	n, notify int
	at        []time.Time
	topic     string
	batch     []int // size of the PUBLISH it came with
	topicBad  string
}

// sess is what a client knows of its session.
type sess struct {
	ids    map[int32]*slot
	got    map[string]*got
	want   map[string]int // how often a payload is to be received
	wantN  map[string]int // ... how often after a NOTIFY
	may    map[string]int // how often it may be received on top of that
	conns  int
	lostOK bool // undelivered messages may be lost
	seen   []string
}

func newSess() *sess {
	return &sess{ids: map[int32]*slot{}, got: map[string]*got{}, want: map[string]int{}, wantN: map[string]int{}, may: map[string]int{}}
}

type sub struct {
	mode, delay int32
	n           int
	at          int
}

type cli struct {
	w        *world
	name     string
	id       string
	contract int
	insecure bool
	primary  bool
	sessKey  int32
	bDur     int32
	bBytes   int32
	bCount   int32
	s        *sess
	keys     map[string]string // topic+"|"+type -> key

	mu       sync.Mutex
	conn     net.Conn
	wmu      sync.Mutex
	wcond    *sync.Cond
	wq       [][]byte
	wclosed  bool
	wgen     int
	eof      bool
	open     bool // connected, as far as the client did not leave
	connack  *pbx.ConnectAcknowledge
	connacks int
	acks     map[string]int
	errs     map[int32][]int
	special  map[string][]string
	pings    int
	nextID   int32
	subs     map[string]*sub
	chunk    int
	via      int     // how it connects
	batches  [][]int // lengths of the payloads of each PUBLISH with more than one
	resuming bool    // NOTIFY of what was there before is expected
	notified int

	holdNotify, holdReceipt, holdAck bool

	pauseMu sync.Mutex
	pause   *sync.Cond
	paused  bool // it does not read
}

type world struct {
	r        *Rep
	rng      *rand.Rand
	dir      string
	srv      *server
	clis     []*cli
	ctr      int
	trace    []string
	tmu      sync.Mutex
	pendAcks []pendAck
	kinds    bool // check how a message is delivered
	mem      int
	sampled  bool
	nets     bool // clients connect in various ways
	foes     bool // there are messages of hostile clients

	published, publishedBytes int64
}

func (w *world) logf(f string, a ...interface{}) {
	w.tmu.Lock()
	w.trace = append(w.trace, fmt.Sprintf(f, a...))
	w.tmu.Unlock()
}

func (w *world) viol(sig, f string, a ...interface{}) {
	w.tmu.Lock()
	tr := w.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	t := strings.Join(tr, "\n  ")
	w.tmu.Unlock()
	w.r.Viol(sig, f+"\nlast events:\n  %s", append(a, t)...)
}

func (w *world) newCli(name string, contract int) *cli {
	c := &cli{w: w, name: name, contract: contract, s: newSess(), keys: map[string]string{}, special: map[string][]string{}}
	c.wcond = sync.NewCond(&c.wmu)
	c.pause = sync.NewCond(&c.pauseMu)
	w.clis = append(w.clis, c)
	return c
}

// write queues bytes to be sent.
func (c *cli) write(b []byte) {
	c.wmu.Lock()
	c.wq = append(c.wq, b)
	c.wmu.Unlock()
	c.wcond.Signal()
}

func (c *cli) writer(conn net.Conn, gen int) {
	for {
		c.wmu.Lock()
		for len(c.wq) == 0 && !c.wclosed && gen == c.wgen {
			c.wcond.Wait()
		}
		if len(c.wq) == 0 || gen != c.wgen {
			c.wmu.Unlock()
			return
		}
		b := bytes.Join(c.wq, nil)
		c.wq = nil
		c.wmu.Unlock()
		for len(b) > 0 {
			n := len(b)
			if c.chunk > 0 && n > c.chunk {
				n = c.chunk
			}
			if _, err := conn.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
		}
	}
}

// connect opens a connection and waits until all is quiet.
func (c *cli) connect(clean bool) {
	w := c.w
	seed := int64(0)
	if w.nets {
		c.via = w.rng.Intn(3)
		seed = w.rng.Int63()
	}
	a, err := w.srv.dial(c.via, seed)
	if err != nil {
		w.viol("harness", "dial: %v", err)
		a, _ = net.Pipe()
	}
	w.r.Add("connections by "+[]string{"TCP", "WebSocket", "gRPC"}[c.via], 1)
	c.mu.Lock()
	c.conn = a
	c.eof, c.open, c.connack, c.connacks = false, true, nil, 0
	c.acks, c.errs = map[string]int{}, map[int32][]int{}
	c.subs = map[string]*sub{}
	c.pings = 0
	c.s.conns++
	c.resuming = !clean
	c.notified = 0
	if clean {
		for id := range c.s.ids {
			delete(c.s.ids, id)
		}
	}
	c.mu.Unlock()
	c.wmu.Lock()
	c.wq, c.wclosed = nil, false
	c.wgen++
	gen := c.wgen
	c.wmu.Unlock()
	c.wcond.Broadcast()
	n := c.s.conns
	go c.writer(a, gen)
	go c.reader(a, n)
	w.logf("%s connect via %d clean=%v sess=%d insecure=%v batch=%d/%d/%d", c.name, c.via, clean, c.sessKey, c.insecure, c.bDur, c.bBytes, c.bCount)
	c.write(wireMsg(pbx.MessageType_CONNECT, pbx.FlowControl_NONE, &pbx.Connect{Version: 1, ClientID: c.id, InsecureFlag: c.insecure, CleanSessFlag: clean,
		SessKey: c.sessKey, KeepAlive: 60, Username: "u", BatchDuration: c.bDur, BatchByteThreshold: c.bBytes, BatchCountThreshold: c.bCount}))
	w.r.Add("connects", 1)
}

func (c *cli) send(typ pbx.MessageType, fc pbx.FlowControl, m proto.Message) {
	c.write(wireMsg(typ, fc, m))
}

func (c *cli) ctrl(fc pbx.FlowControl, id int32) {
	c.send(pbx.MessageType_PUBLISH, fc, &pbx.ControlMessage{MessageID: id})
}

// inDoubt notes that the server may or may not be done with what was answered.
func (c *cli) inDoubt() {
	for _, sl := range c.s.ids {
		if sl.state == slReceipt || sl.state == slAcked {
			sl.maybe = true
		}
	}
}

// leave ends the connection: with a DISCONNECT or without.
func (c *cli) leave(polite bool) {
	c.w.logf("%s leaves polite=%v", c.name, polite)
	c.mu.Lock()
	c.open = false
	conn := c.conn
	c.inDoubt()
	c.mu.Unlock()
	if polite {
		c.send(pbx.MessageType_DISCONNECT, pbx.FlowControl_NONE, &pbx.Disconnect{})
	} else {
		conn.Close()
	}
	c.wmu.Lock()
	c.wclosed = true
	c.wmu.Unlock()
	c.wcond.Broadcast()
}

func (c *cli) reader(conn net.Conn, connNo int) {
	defer conn.Close()
	rd := bufio.NewReader(conn)
	for {
		c.pauseMu.Lock()
		for c.paused {
			c.pause.Wait()
		}
		c.pauseMu.Unlock()
		h, body, err := wireRead(rd)
		if err != nil {
			c.mu.Lock()
			if c.s.conns == connNo {
				c.eof = true
			}
			if strings.HasPrefix(err.Error(), "wire") || strings.HasPrefix(err.Error(), "proto") {
				c.w.viol("wire-garbage", "%s received what is not a message: %v", c.name, err)
			}
			c.mu.Unlock()
			return
		}
		c.mu.Lock()
		if c.s.conns == connNo {
			c.frame(h, body)
			if !c.open { // what is answered while the connection ends may get through
				c.inDoubt()
			}
		}
		c.mu.Unlock()
	}
}

// reads has the client stop to read, or read again.
func (c *cli) reads(on bool) {
	c.w.logf("%s reads=%v", c.name, on)
	c.pauseMu.Lock()
	c.paused = !on
	c.pauseMu.Unlock()
	c.pause.Broadcast()
}

func (c *cli) frame(h pbx.FixedHeader, body []byte) {
	w := c.w
	w.r.Add("messages received by clients", 1)
	if h.FlowControl != pbx.FlowControl_NONE {
		var m pbx.ControlMessage
		if err := proto.Unmarshal(body, &m); err != nil {
			w.viol("wire-garbage", "%s: control message: %v", c.name, err)
			return
		}
		w.logf("%s <- %v %v id %d", c.name, h.MessageType, h.FlowControl, m.MessageID)
		switch h.FlowControl {
		case pbx.FlowControl_ACKNOWLEDGE:
			switch h.MessageType {
			case pbx.MessageType_CONNECT:
				var a pbx.ConnectAcknowledge
				proto.Unmarshal(m.Message, &a)
				c.connack = &a
				c.connacks++
			case pbx.MessageType_PINGREQ:
				c.pings++
			default:
				c.acks[fmt.Sprint(h.MessageType, m.MessageID)]++
			}
		case pbx.FlowControl_NOTIFY:
			c.onNotify(m.MessageID)
		case pbx.FlowControl_COMPLETE:
			sl := c.s.ids[m.MessageID]
			if sl == nil || sl.state != slReceipt {
				if sl == nil || !sl.maybe {
					w.viol("complete-unasked", "%s: COMPLETE for message %d it sent no RECEIPT for", c.name, m.MessageID)
				}
				return
			}
			delete(c.s.ids, m.MessageID)
			w.r.Add("reliable deliveries completed", 1)
		default:
			w.viol("wire-control", "%s received %v %v", c.name, h.MessageType, h.FlowControl)
		}
		return
	}
	if h.MessageType != pbx.MessageType_PUBLISH {
		w.viol("wire-type", "%s received a %v", c.name, h.MessageType)
		return
	}
	var p pbx.Publish
	if err := proto.Unmarshal(body, &p); err != nil {
		w.viol("wire-garbage", "%s: publish: %v", c.name, err)
		return
	}
	c.onPub(&p)
}

func (c *cli) onNotify(id int32) {
	w := c.w
	w.r.Add("NOTIFY received", 1)
	c.notified++
	sl := c.s.ids[id]
	if sl != nil && sl.conn == c.s.conns && !sl.maybe {
		w.viol("notify-id-in-use", "%s: NOTIFY for message %d, which is not completed (state %d)", c.name, id, sl.state)
		return
	}
	if sl == nil {
		sl = &slot{id: id}
		c.s.ids[id] = sl
	} else {
		w.r.Add("messages notified again after a reconnect", 1)
	}
	sl.conn = c.s.conns
	sl.state = slNotified
	sl.maybe = false
	if !c.holdNotify {
		sl.state = slAsked
		c.ctrl(pbx.FlowControl_RECEIVE, id)
	}
}

func (c *cli) onPub(p *pbx.Publish) {
	w := c.w
	var ps, ts []string
	for _, m := range p.Messages {
		ps = append(ps, string(m.Payload))
		ts = append(ts, m.Topic)
	}
	w.logf("%s <- PUBLISH id %d mode %d %v %v", c.name, p.MessageID, p.DeliveryMode, ts, shorts(ps))
	if p.MessageID == 0 {
		w.viol("publish-without-id", "%s: PUBLISH without a message identifier (payloads %v)", c.name, shorts(ps))
	}
	sl := c.s.ids[p.MessageID]
	notify := false
	switch {
	case sl == nil || sl.maybe && sl.state != slAsked || sl.state == slAcked:
		sl = &slot{id: p.MessageID, state: slDirect, conn: c.s.conns}
		c.s.ids[p.MessageID] = sl
	case sl.state == slAsked:
		sl.state = slGot
		notify = true
	default:
		w.viol("publish-id-in-use", "%s: PUBLISH with the identifier %d of another message (state %d)", c.name, p.MessageID, sl.state)
		return
	}
	sl.mode = p.DeliveryMode
	if sl.payloads != nil {
		w.r.Add("messages sent again", 1)
		if !equalS(sl.payloads, ps) {
			w.viol("resent-differs", "%s: message %d is sent again with other payloads: %v, before %v", c.name, p.MessageID, shorts(ps), shorts(sl.payloads))
		}
	} else {
		sl.payloads = ps
		if len(ps) > 1 {
			var b []int
			for _, q := range ps {
				b = append(b, len(q))
			}
			c.batches = append(c.batches, b)
		}
		for i, q := range ps {
			if strings.HasPrefix(ts[i], "unitdb/") {
				if strings.HasPrefix(ts[i], "unitdb/error") {
					var e struct{ Status, Id int }
					json.Unmarshal([]byte(q), &e)
					c.errs[int32(e.Id)] = append(c.errs[int32(e.Id)], e.Status)
				} else {
					k := strings.Trim(strings.TrimPrefix(ts[i], "unitdb/"), "/")
					c.special[k] = append(c.special[k], q)
				}
				continue
			}
			if w.foes && !goodPayload.MatchString(q) {
				w.r.Add("payloads received of hostile clients", 1)
				continue
			}
			g := c.s.got[q]
			if g == nil {
				g = &got{topic: ts[i]}
				c.s.got[q] = g
			}
			if g.topic != ts[i] {
				g.topicBad = ts[i]
			}
			g.n++
			g.batch = append(g.batch, len(ps))
			if notify {
				g.notify++
			}
			g.at = append(g.at, time.Now())
			c.s.seen = append(c.s.seen, q)
			w.r.Add("payloads received", 1)
		}
	}
	special := len(ts) == 1 && strings.HasPrefix(ts[0], "unitdb/")
	switch {
	case notify || sl.mode == 1:
		if !c.holdReceipt || special {
			sl.state = slReceipt
			c.ctrl(pbx.FlowControl_RECEIPT, sl.id)
		} else {
			sl.state = slGot
		}
	case !c.holdAck || special:
		sl.state = slAcked
		c.ctrl(pbx.FlowControl_ACKNOWLEDGE, sl.id)
	}
}

// release answers everything that was held back.
func (c *cli) release() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.holdNotify, c.holdReceipt, c.holdAck = false, false, false
	if !c.open {
		return
	}
	var ids []int32
	for id := range c.s.ids {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		sl := c.s.ids[id]
		if sl.conn != c.s.conns {
			continue
		}
		switch sl.state {
		case slNotified:
			sl.state = slAsked
			c.ctrl(pbx.FlowControl_RECEIVE, id)
		case slGot:
			sl.state = slReceipt
			c.ctrl(pbx.FlowControl_RECEIPT, id)
		case slDirect:
			sl.state = slAcked
			c.ctrl(pbx.FlowControl_ACKNOWLEDGE, id)
		}
	}
}

// settled checks a connection when nothing happens any more.
func (c *cli) settled() {
	w := c.w
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.open {
		return
	}
	if c.eof {
		w.viol("closed", "%s: the server closed the connection", c.name)
		c.open = false
		return
	}
	if c.connacks != 1 || c.connack.ReturnCode != 0 {
		w.viol("connack", "%s: %d CONNECT acknowledgements (%v)", c.name, c.connacks, c.connack)
	}
	for id, sl := range c.s.ids {
		switch {
		case sl.state == slAcked && sl.conn == c.s.conns:
			delete(c.s.ids, id) // the server is done with it
		case sl.conn == c.s.conns && sl.state == slAsked:
			w.viol("no-publish-after-receive", "%s: no PUBLISH for message %d after its RECEIVE", c.name, id)
			delete(c.s.ids, id)
		case sl.conn == c.s.conns && sl.state == slReceipt:
			w.viol("no-complete", "%s: no COMPLETE for message %d after its RECEIPT", c.name, id)
			delete(c.s.ids, id)
		case sl.conn != c.s.conns && sl.maybe:
			delete(c.s.ids, id)
		case sl.conn != c.s.conns && c.resuming:
			w.viol("not-resumed", "%s: message %d (state %d, payloads %v) was not completed when the connection was lost, but there is no NOTIFY for it after the reconnect", c.name, id, sl.state, shorts(sl.payloads))
			delete(c.s.ids, id)
		}
	}
}

// quiet waits until nothing happens any more and checks all clients.
func (w *world) quiet() {
	synctest.Wait()
	for _, c := range w.clis {
		c.settled()
	}
}

// pass lets time pass; clients show that they are alive.
func (w *world) pass(d time.Duration) {
	for d > 0 {
		t := d
		if t > 40*time.Second {
			t = 40 * time.Second
		}
		d -= t
		for _, c := range w.clis {
			if c.open {
				c.send(pbx.MessageType_PINGREQ, pbx.FlowControl_NONE, nil)
			}
		}
		time.Sleep(t)
	}
}

// account compares what was received with what was to be received. When all is
// true nothing may be missing.
func (w *world) account(all bool) {
	for _, c := range w.clis {
		c.mu.Lock()
		held := map[string]int{}
		if !all {
			for _, sl := range c.s.ids {
				if sl.payloads == nil {
					held["?"]++
				}
			}
		}
		for p, g := range c.s.got {
			if g.topicBad != "" {
				w.viol("topic-changed", "%s: payload %s came with topic %q and %q", c.name, short(p), g.topic, g.topicBad)
				g.topicBad = ""
			}
			switch {
			case c.s.want[p]+c.s.may[p] == 0:
				w.viol("unexpected-message", "%s received payload %s (topic %s), to which it is not subscribed", c.name, short(p), g.topic)
			case g.n > c.s.want[p]+c.s.may[p]:
				w.viol("delivered-twice", "%s received payload %s %d times, expected %d", c.name, short(p), g.n, c.s.want[p])
			case w.kinds && g.notify > c.s.wantN[p]+c.s.may[p]:
				w.viol("mode", "%s received payload %s %d times after a NOTIFY, expected %d", c.name, short(p), g.notify, c.s.wantN[p])
			case w.kinds && g.n-g.notify > c.s.want[p]-c.s.wantN[p]+c.s.may[p]:
				w.viol("mode", "%s received payload %s %d times without a NOTIFY, expected %d", c.name, short(p), g.n-g.notify, c.s.want[p]-c.s.wantN[p])
			default:
				continue
			}
			c.s.may[p] += 1000 // reported once
		}
		missing := 0
		var ms []string
		for p, n := range c.s.want {
			if g := c.s.got[p]; g == nil && n > 0 || g != nil && g.n < n {
				if g != nil {
					n -= g.n
				}
				missing += n
				ms = append(ms, short(p))
			}
		}
		if missing > 0 && (all || c.open && missing > held["?"]) && !c.s.lostOK {
			sort.Strings(ms)
			if len(ms) > 20 {
				ms = ms[:20]
			}
			w.viol("message-lost", "%s did not receive %d messages (%d notified and not received): payloads %v", c.name, missing, held["?"], ms)
			for p, n := range c.s.want {
				if g := c.s.got[p]; g == nil || g.n < n {
					c.s.may[p] += n
					delete(c.s.want, p)
				}
			}
		}
		w.r.Add("payloads accounted for", int64(len(c.s.want)))
		c.mu.Unlock()
	}
}

// ---- operations ----

func (c *cli) newMsgID() int32 {
	c.nextID++
	if c.nextID > 60000 {
		c.nextID = 1
	}
	return c.nextID
}

// must asks for exactly one acknowledgement of a request, checked when all is quiet.
func (c *cli) acked(typ pbx.MessageType, id int32) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.acks[fmt.Sprint(typ, id)]
}

func (c *cli) errors(id int32) []int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.errs[id]
}

// key returns the topic prefixed with a key of the given type, if the client is a secure one.
func (c *cli) keyed(topic, typ string) string {
	if c.insecure {
		return topic
	}
	if k, ok := c.keys[topic+"|"+typ]; ok {
		return k + "/" + topic
	}
	k := c.keygen(topic, typ)
	if k == "" {
		return topic
	}
	c.keys[topic+"|"+typ] = k
	return k + "/" + topic
}

// keygen requests a key and waits for it.
func (c *cli) keygen(topic, typ string) string {
	b, _ := json.Marshal([]map[string]string{{"topic": topic, "type": typ}})
	c.mu.Lock()
	n := len(c.special["keygen"])
	c.mu.Unlock()
	c.send(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, &pbx.Publish{MessageID: c.newMsgID(), Messages: []*pbx.PublishMessage{{Topic: "unitdb/keygen", Payload: b}}})
	c.w.quiet()
	c.mu.Lock()
	defer c.mu.Unlock()
	rs := c.special["keygen"]
	if len(rs) != n+1 {
		c.w.viol("keygen", "%s: %d answers to a request for a key of %q", c.name, len(rs)-n, topic)
		return ""
	}
	var resp []struct {
		Status     int
		Key, Topic string
	}
	if err := json.Unmarshal([]byte(rs[n]), &resp); err != nil || len(resp) != 1 || resp[0].Status != 200 || resp[0].Topic != topic || resp[0].Key == "" {
		c.w.viol("keygen", "%s: the answer to a request for a key of %q is %s", c.name, topic, rs[n])
		return ""
	}
	c.w.r.Add("keys generated", 1)
	return resp[0].Key
}

// register gets an identifier: a primary one of a new contract, or a secondary one
// from a primary client.
func (c *cli) register(from *cli) bool {
	w := c.w
	if from == nil {
		c.primary = true
		c.id = ""
		c.connect(true)
		synctest.Wait()
		c.mu.Lock()
		defer c.mu.Unlock()
		ids := c.special["clientid"]
		if len(ids) != 1 || len(ids[0]) < 52 {
			w.viol("clientid", "%s: no client ID for a client that connects without one: %v", c.name, ids)
			return false
		}
		if !c.eof {
			w.viol("clientid", "%s: a connection without a client ID stays open", c.name)
		}
		c.open = false
		c.conn.Close()
		c.wmu.Lock()
		c.wclosed = true
		c.wmu.Unlock()
		c.wcond.Broadcast()
		c.id = ids[0]
		c.s = newSess()
		w.r.Add("primary client IDs", 1)
		return true
	}
	id := from.secondary()
	if id == "" {
		w.viol("clientid", "%s: no secondary client ID for a primary client: %v", from.name, from.special["clientid"])
		return false
	}
	c.id = id
	return true
}

func (c *cli) secondary() string {
	c.mu.Lock()
	n := len(c.special["clientid"])
	c.mu.Unlock()
	c.send(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, &pbx.Publish{MessageID: c.newMsgID(), Messages: []*pbx.PublishMessage{{Topic: "unitdb/clientid", Payload: []byte("{}")}}})
	c.w.quiet()
	c.mu.Lock()
	defer c.mu.Unlock()
	rs := c.special["clientid"]
	if len(rs) != n+1 {
		c.w.viol("clientid", "%s: %d answers to a request for a client ID", c.name, len(rs)-n)
		return ""
	}
	var resp struct {
		Status int
		Key    string
	}
	if json.Unmarshal([]byte(rs[n]), &resp) != nil || resp.Status != 200 {
		return ""
	}
	c.w.r.Add("secondary client IDs", 1)
	return resp.Key
}

func (c *cli) subscribe(topic string, mode, delay int32) {
	id := c.newMsgID()
	c.w.logf("%s SUBSCRIBE %d %s mode %d delay %d", c.name, id, topic, mode, delay)
	c.send(pbx.MessageType_SUBSCRIBE, pbx.FlowControl_NONE, &pbx.Subscribe{MessageID: id, Subscriptions: []*pbx.Subscription{{DeliveryMode: mode, Delay: delay, Topic: c.keyed(topic, "r")}}})
	c.mu.Lock()
	if s := c.subs[topic]; s != nil {
		s.n++
	} else {
		c.subs[topic] = &sub{mode: mode, delay: delay, n: 1}
	}
	c.mu.Unlock()
	c.w.expectAck(c, pbx.MessageType_SUBSCRIBE, id)
}

func (c *cli) unsubscribe(topic string) {
	c.sendUnsub(topic)
	c.noteUnsub(topic)
}

func (c *cli) sendUnsub(topic string) {
	id := c.newMsgID()
	c.w.logf("%s UNSUBSCRIBE %d %s", c.name, id, topic)
	c.send(pbx.MessageType_UNSUBSCRIBE, pbx.FlowControl_NONE, &pbx.Unsubscribe{MessageID: id, Subscriptions: []*pbx.Subscription{{Topic: c.keyed(topic, "r")}}})
	c.w.expectAck(c, pbx.MessageType_UNSUBSCRIBE, id)
}

func (c *cli) noteUnsub(topic string) {
	c.mu.Lock()
	if s := c.subs[topic]; s != nil {
		if s.n--; s.n <= 0 {
			delete(c.subs, topic)
		}
	}
	c.mu.Unlock()
}

type pubMsg struct{ topic, payload string }

// publish sends messages and notes who is to receive them.
func (c *cli) publish(mode int32, ms []pubMsg, may func(o *cli, topic string) bool) {
	id := c.newMsgID()
	p := &pbx.Publish{MessageID: id, DeliveryMode: mode}
	for _, m := range ms {
		p.Messages = append(p.Messages, &pbx.PublishMessage{Topic: c.keyed(m.topic, "w"), Payload: []byte(m.payload)})
		c.w.logf("%s PUBLISH %d mode %d %s %s", c.name, id, mode, m.topic, short(m.payload))
		c.w.expect(c, mode, m, may)
		c.w.r.Add("messages published", 1)
		c.w.published++
		c.w.publishedBytes += int64(len(m.payload))
	}
	c.send(pbx.MessageType_PUBLISH, pbx.FlowControl_NONE, p)
	c.w.expectAck(c, pbx.MessageType_PUBLISH, id)
}

func (w *world) expect(c *cli, mode int32, m pubMsg, may func(o *cli, topic string) bool) {
	for _, o := range w.clis {
		o.mu.Lock()
		if o.open && o.contract == c.contract {
			for t, s := range o.subs {
				if !matches(t, m.topic) {
					continue
				}
				if may != nil && may(o, t) {
					o.s.may[m.payload]++
					continue
				}
				o.s.want[m.payload]++
				if mode > 0 && s.mode > 0 {
					o.s.wantN[m.payload]++
				}
				w.r.Seen("publish mode, subscription mode, delayed", fmt.Sprint(mode, s.mode, s.delay > 0))
			}
		}
		o.mu.Unlock()
	}
}

func (w *world) expectAck(c *cli, typ pbx.MessageType, id int32) {
	w.pendAcks = append(w.pendAcks, pendAck{c, typ, id, c.s.conns})
}

func (w *world) payload() string {
	w.ctr++
	return mixPayload(w.rng, fmt.Sprintf("p%d-", w.ctr))
}

type pendAck struct {
	c    *cli
	typ  pbx.MessageType
	id   int32
	conn int
}

// acks checks the acknowledgements of requests when all is quiet.
func (w *world) checkAcks() {
	for _, p := range w.pendAcks {
		if p.conn != p.c.s.conns || !p.c.open {
			continue
		}
		if n := p.c.acked(p.typ, p.id); n != 1 {
			w.viol("not-acknowledged", "%s: %d acknowledgements of %v %d (errors %v)", p.c.name, n, p.typ, p.id, p.c.errors(p.id))
		}
		w.r.Add("requests acknowledged", 1)
	}
	w.pendAcks = w.pendAcks[:0]
}

func (w *world) start(i int, dir string) bool {
	var err error
	if w.srv, err = startServer(dir, w.mem); err != nil {
		w.r.Viol("start", "the server does not start: %v", err)
		return false
	}
	return true
}

func (w *world) stop() {
	for _, c := range w.clis {
		if c.open {
			c.leave(false)
		}
	}
	synctest.Wait()
	w.srv.close()
	synctest.Wait()
	w.r.Seen("histories", strings.Join(w.trace, ";"))
	if !w.sampled {
		w.sampled = true
		n := len(w.trace)
		if n > 40 {
			n = 40
		}
		w.r.Sample(w.trace[:n])
	}
}

var srvSeq int64

func srvDir(j *Job, i int) string {
	d := filepath.Join(j.Dir, fmt.Sprintf("srv%d_%d", i, atomic.AddInt64(&srvSeq, 1)))
	os.MkdirAll(d, 0755)
	return d
}
