package zzverif

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"

	"github.com/golang/protobuf/proto"
	lp "github.com/unit-io/unitdb/server/internal/net"
	pbx "github.com/unit-io/unitdb/server/proto"
	"github.com/unit-io/unitdb/server/utp"
)

// ---- wire codec ----

// wired is a message in three forms.
type wired struct {
	msg  lp.MessagePack
	typ  pbx.MessageType
	fc   pbx.FlowControl
	body proto.Message
}

type codecGen struct{ rng *rand.Rand }

func (g *codecGen) str() string {
	switch g.rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return "été.日本.\U0001F600"
	case 2:
		return string(bytes.Repeat([]byte("t."), g.rng.Intn(200)))
	}
	b := make([]byte, g.rng.Intn(30))
	for i := range b {
		b[i] = byte(g.rng.Intn(128))
	}
	return string(b)
}

func (g *codecGen) bytes() []byte {
	n := []int{1, 20, 127, 128, 300, 16384, 70000}[g.rng.Intn(7)]
	if n > 1000 && g.rng.Intn(8) > 0 {
		n = 50
	}
	b := make([]byte, 1+g.rng.Intn(n))
	g.rng.Read(b)
	return b
}

func (g *codecGen) i32() int32 {
	return []int32{0, 1, -1, 127, 128, 1<<31 - 1, -1 << 31, int32(g.rng.Uint32())}[g.rng.Intn(8)]
}

func (g *codecGen) u16() uint16 {
	return []uint16{0, 1, 127, 128, 65535, 32768, uint16(g.rng.Intn(65536))}[g.rng.Intn(7)]
}

func (g *codecGen) u8() uint8 { return []uint8{0, 1, 2, 255, 128}[g.rng.Intn(5)] }

func (g *codecGen) msg() wired {
	n := g.rng.Intn(5)
	switch g.rng.Intn(8) {
	case 0:
		m := &utp.Connect{Version: g.i32(), InsecureFlag: g.rng.Intn(2) == 0, ClientID: g.str(), KeepAlive: g.i32(), CleanSessFlag: g.rng.Intn(2) == 0, SessKey: g.i32(), Username: g.str(),
			Password: g.bytes(), BatchDuration: g.i32(), BatchByteThreshold: g.i32(), BatchCountThreshold: g.i32()}
		return wired{m, pbx.MessageType_CONNECT, 0, &pbx.Connect{Version: m.Version, InsecureFlag: m.InsecureFlag, ClientID: m.ClientID, KeepAlive: m.KeepAlive, CleanSessFlag: m.CleanSessFlag, SessKey: m.SessKey,
			Username: m.Username, Password: m.Password, BatchDuration: m.BatchDuration, BatchByteThreshold: m.BatchByteThreshold, BatchCountThreshold: m.BatchCountThreshold}}
	case 1:
		m := &utp.Publish{MessageID: g.u16(), DeliveryMode: g.u8()}
		p := &pbx.Publish{MessageID: int32(m.MessageID), DeliveryMode: int32(m.DeliveryMode)}
		for ; n > 0; n-- {
			x := &utp.PublishMessage{Topic: g.str(), Payload: g.bytes(), Ttl: g.str()}
			m.Messages = append(m.Messages, x)
			p.Messages = append(p.Messages, &pbx.PublishMessage{Topic: x.Topic, Payload: x.Payload, Ttl: x.Ttl})
		}
		return wired{m, pbx.MessageType_PUBLISH, 0, p}
	case 2:
		m := &utp.Relay{MessageID: g.u16()}
		p := &pbx.Relay{MessageID: int32(m.MessageID)}
		for ; n > 0; n-- {
			x := &utp.RelayRequest{Topic: g.str(), Last: g.str()}
			m.RelayRequests = append(m.RelayRequests, x)
			p.RelayRequests = append(p.RelayRequests, &pbx.RelayRequest{Topic: x.Topic, Last: x.Last})
		}
		return wired{m, pbx.MessageType_RELAY, 0, p}
	case 3:
		m := &utp.Subscribe{MessageID: g.u16()}
		p := &pbx.Subscribe{MessageID: int32(m.MessageID)}
		for ; n > 0; n-- {
			x := &utp.Subscription{DeliveryMode: g.u8(), Delay: g.i32(), Topic: g.str()}
			m.Subscriptions = append(m.Subscriptions, x)
			p.Subscriptions = append(p.Subscriptions, &pbx.Subscription{DeliveryMode: int32(x.DeliveryMode), Delay: x.Delay, Topic: x.Topic})
		}
		return wired{m, pbx.MessageType_SUBSCRIBE, 0, p}
	case 4:
		m := &utp.Unsubscribe{MessageID: g.u16()}
		p := &pbx.Unsubscribe{MessageID: int32(m.MessageID)}
		for ; n > 0; n-- {
			x := &utp.Subscription{DeliveryMode: g.u8(), Topic: g.str()}
			m.Subscriptions = append(m.Subscriptions, x)
			p.Subscriptions = append(p.Subscriptions, &pbx.Subscription{DeliveryMode: int32(x.DeliveryMode), Topic: x.Topic})
		}
		return wired{m, pbx.MessageType_UNSUBSCRIBE, 0, p}
	case 5:
		return wired{&utp.Pingreq{}, pbx.MessageType_PINGREQ, 0, &pbx.PingRequest{}}
	case 6:
		m := &utp.Disconnect{MessageID: g.u16()}
		return wired{m, pbx.MessageType_DISCONNECT, 0, &pbx.Disconnect{MessageID: int32(m.MessageID)}}
	}
	m := &utp.ControlMessage{MessageID: g.u16(), MessageType: utp.PUBLISH, FlowControl: utp.FlowControl(1 + g.rng.Intn(5))}
	if m.FlowControl == utp.ACKNOWLEDGE {
		m.MessageType = utp.MessageType(1 + g.rng.Intn(6))
	}
	if g.rng.Intn(2) == 0 {
		m.Message = g.bytes()
	}
	return wired{m, pbx.MessageType(m.MessageType), pbx.FlowControl(m.FlowControl), &pbx.ControlMessage{MessageID: int32(m.MessageID), Message: m.Message}}
}

// pieces is a reader that returns any number of bytes at a time.
type pieces struct {
	b    []byte
	rng  *rand.Rand
	err  error
	read int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, p.err
	}
	n := len(b)
	if n > 1 && p.rng.Intn(3) > 0 {
		n = 1 + p.rng.Intn(n)
	}
	if n > len(p.b) {
		n = len(p.b)
	}
	copy(b, p.b[:n])
	p.b = p.b[n:]
	p.read += n
	if len(p.b) == 0 && p.rng.Intn(3) == 0 {
		return n, p.err
	}
	return n, nil
}

func sameMsg(a, b lp.MessagePack) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	// nil and empty are the same
	return reflect.TypeOf(a) == reflect.TypeOf(b) && fmt.Sprintf("%+v", deref(a)) == fmt.Sprintf("%+v", deref(b))
}

func deref(m lp.MessagePack) interface{} {
	switch x := m.(type) {
	case *utp.Publish:
		s := fmt.Sprintf("%d %d %v", x.MessageID, x.DeliveryMode, x.IsForwarded)
		for _, y := range x.Messages {
			s += fmt.Sprintf("|%q %x %q", y.Topic, y.Payload, y.Ttl)
		}
		return s
	case *utp.Relay:
		s := fmt.Sprintf("%d %v", x.MessageID, x.IsForwarded)
		for _, y := range x.RelayRequests {
			s += fmt.Sprintf("|%q %q", y.Topic, y.Last)
		}
		return s
	case *utp.Subscribe:
		s := fmt.Sprintf("%d %v", x.MessageID, x.IsForwarded)
		for _, y := range x.Subscriptions {
			s += fmt.Sprintf("|%+v", *y)
		}
		return s
	case *utp.Unsubscribe:
		s := fmt.Sprintf("%d %v", x.MessageID, x.IsForwarded)
		for _, y := range x.Subscriptions {
			s += fmt.Sprintf("|%+v", *y)
		}
		return s
	}
	return reflect.ValueOf(m).Elem().Interface()
}

// canonical encodes a message of the protocol by what it means.
func canonical(typ pbx.MessageType, fc pbx.FlowControl, body []byte) string {
	var m proto.Message
	switch {
	case fc != 0:
		m = &pbx.ControlMessage{}
	case typ == pbx.MessageType_CONNECT:
		m = &pbx.Connect{}
	case typ == pbx.MessageType_PUBLISH:
		m = &pbx.Publish{}
	case typ == pbx.MessageType_RELAY:
		m = &pbx.Relay{}
	case typ == pbx.MessageType_SUBSCRIBE:
		m = &pbx.Subscribe{}
	case typ == pbx.MessageType_UNSUBSCRIBE:
		m = &pbx.Unsubscribe{}
	case typ == pbx.MessageType_PINGREQ:
		m = &pbx.PingRequest{}
	case typ == pbx.MessageType_DISCONNECT:
		m = &pbx.Disconnect{}
	default:
		return "unknown type"
	}
	if err := proto.Unmarshal(body, m); err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprint(typ, fc, proto.MarshalTextString(m))
}

var errCut = errors.New("the connection broke")

func srvCodec(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
		g := &codecGen{rng}
		r.Case(i, "codec")
		// A stream of messages, some of them written by the harness's codec.
		var ms []wired
		var stream []byte
		var frames [][]byte
		for n := 1 + rng.Intn(12); n > 0; n-- {
			m := g.msg()
			ms = append(ms, m)
			mine := wireMsg(m.typ, m.fc, m.body)
			buf, err := m.msg.ToBinary()
			if err != nil {
				r.Viol("codec-encode", "%T %+v: %v", m.msg, deref(m.msg), err)
				return
			}
			theirs := append([]byte{}, buf.Bytes()...)
			h, body, err := wireRead(bufio.NewReader(bytes.NewReader(theirs)))
			if err != nil || h.MessageType != m.typ || h.FlowControl != m.fc {
				r.Viol("codec-encode", "%T %+v is encoded with the header %v, %v; it is to be %v %v", m.msg, deref(m.msg), &h, err, m.typ, m.fc)
				return
			}
			rest, _ := proto.Marshal(m.body)
			if x, y := canonical(h.MessageType, h.FlowControl, body), canonical(m.typ, m.fc, rest); x != y {
				r.Viol("codec-encode", "%T is encoded as %s\nit is to be %s", m.msg, x, y)
				return
			}
			r.Add("messages encoded", 1)
			switch m.msg.(type) {
			case *utp.Publish, *utp.ControlMessage, *utp.Disconnect:
				// what the server writes
				b, err := lp.Encode(m.msg)
				if err != nil || canonicalFrame(b.Bytes()) != canonicalFrame(theirs) {
					r.Viol("codec-encode", "%T: Encode and ToBinary differ: %v", m.msg, err)
				}
			}
			f := mine
			if rng.Intn(2) == 0 {
				f = theirs
			}
			frames = append(frames, f)
			stream = append(stream, f...)
			r.Seen("messages", fmt.Sprintf("%T %v", m.msg, m.fc))
		}
		r.Seen("histories", string(stream))
		var src io.Reader = &pieces{b: stream, rng: rng, err: io.EOF}
		if rng.Intn(2) == 0 {
			src = bufio.NewReaderSize(src, 16+rng.Intn(65536))
		}
		for n, m := range ms {
			x, err := lp.Read(src)
			if err != nil {
				r.Viol("codec-decode", "message %d of a stream, %T %+v: %v", n, m.msg, deref(m.msg), err)
				return
			}
			if !sameMsg(x, m.msg) {
				r.Viol("codec-decode", "message %d of a stream, %T %+v, is decoded as %T %+v", n, m.msg, deref(m.msg), x, deref(x))
				return
			}
			if x.Info() != m.msg.Info() || x.Type() != m.msg.Type() {
				r.Viol("codec-decode", "message %d: Info and Type are %+v, %v instead of %+v, %v", n, x.Info(), x.Type(), m.msg.Info(), m.msg.Type())
			}
			r.Add("messages decoded", 1)
		}
		if x, err := lp.Read(src); err == nil {
			r.Viol("codec-decode", "after the last message of a stream comes %T %+v", x, deref(x))
		}
		// A frame that is cut is an error, the one of the connection.
		f := frames[rng.Intn(len(frames))]
		for n := 0; n < len(f); n++ {
			if len(f) > 300 && n > 100 && n < len(f)-100 && rng.Intn(len(f)) > 50 {
				continue
			}
			e := errCut
			if rng.Intn(2) == 0 {
				e = io.EOF
			}
			x, err := lp.Read(&pieces{b: f[:n], rng: rng, err: e})
			if err == nil {
				r.Viol("codec-cut", "%d of %d bytes of a frame are decoded as %T %+v", n, len(f), x, deref(x))
				return
			}
			if e == errCut && err != errCut {
				r.Viol("codec-cut", "a connection that breaks after %d of %d bytes of a frame: %v instead of the error of the connection", n, len(f), err)
				return
			}
			r.Add("cut frames", 1)
		}
		// Altered bytes may mean anything, but they do no harm.
		foe := &foe{rng: rng}
		for n := 0; n < 30; n++ {
			b := stream
			if len(b) > 5000 {
				b = b[:5000]
			}
			b = foe.mutate(b)
			if rng.Intn(5) == 0 {
				b = make([]byte, rng.Intn(200))
				rng.Read(b)
			}
			src := &pieces{b: b, rng: rng, err: io.EOF}
			left := len(b)
			var m0, m1 runtime.MemStats
			if n == 0 {
				runtime.ReadMemStats(&m0)
			}
			for {
				before := len(src.b)
				x, err := lp.Read(src)
				if err != nil {
					break
				}
				if len(src.b) == before {
					r.Viol("codec-empty", "a message of no bytes: %T", x)
					break
				}
				r.Add("messages decoded from altered streams", 1)
			}
			if n == 0 {
				runtime.ReadMemStats(&m1)
				if d := m1.TotalAlloc - m0.TotalAlloc; d > uint64(1<<22+100*left) {
					r.Viol("codec-memory", "%d bytes are allocated for a stream of %d bytes", d, left)
				}
			}
			r.Add("altered streams", 1)
		}
	})
}

func canonicalFrame(b []byte) string {
	h, body, err := wireRead(bufio.NewReader(bytes.NewReader(b)))
	if err != nil {
		return err.Error()
	}
	return canonical(h.MessageType, h.FlowControl, body)
}

func init() {
	reg("srvcodec", false, srvCodec)
}
