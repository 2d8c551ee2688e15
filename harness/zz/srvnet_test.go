package zzverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/net/listener"
	pbx "github.com/unit-io/unitdb/server/proto"
	"google.golang.org/grpc"
)

// ---- transports ----

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

// pipeListener accepts connections that the harness dials in memory.
type pipeListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func newPipeListener() *pipeListener {
	return &pipeListener{ch: make(chan net.Conn), closed: make(chan struct{})}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, errors.New("listener closed")
	}
}

func (l *pipeListener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

func (l *pipeListener) Addr() net.Addr { return pipeAddr{} }

func (l *pipeListener) dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- b:
		return a, nil
	case <-l.closed:
		return nil, errors.New("listener closed")
	}
}

// byteConn is the client's side of a connection on top of messages.
type byteConn struct {
	net.Conn // nil: other methods are not used
	rng      *rand.Rand
	wmu      sync.Mutex
	max      int
	send     func(p []byte) error
	recv     func() ([]byte, error)
	end      func()
	once     sync.Once
	rest     []byte
}

func (c *byteConn) Read(p []byte) (int, error) {
	for len(c.rest) == 0 {
		b, err := c.recv()
		if err != nil {
			return 0, err
		}
		c.rest = b
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

// Write splits what is written into messages of any size.
func (c *byteConn) Write(p []byte) (int, error) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	for b := p; ; {
		n := len(b)
		if c.rng != nil && n > 0 && c.rng.Intn(3) == 0 {
			n = 1 + c.rng.Intn(n)
		}
		if n > c.max {
			n = c.max
		}
		if err := c.send(b[:n]); err != nil {
			return 0, err
		}
		if b = b[n:]; len(b) == 0 {
			return len(p), nil
		}
	}
}

func (c *byteConn) Close() error {
	c.once.Do(c.end)
	return nil
}

func wsClient(raw net.Conn, seed int64) (net.Conn, error) {
	u, _ := url.Parse("ws://server/")
	ws, _, err := websocket.NewClient(raw, u, http.Header{}, 1024, 1024)
	if err != nil {
		return nil, err
	}
	return &byteConn{rng: rand.New(rand.NewSource(seed)), max: 1 << 22,
		send: func(p []byte) error { return ws.WriteMessage(websocket.BinaryMessage, p) },
		recv: func() ([]byte, error) {
			typ, b, err := ws.ReadMessage()
			if err == nil && typ != websocket.BinaryMessage {
				// A browser would take it for text.
				err = fmt.Errorf("a WebSocket message of type %d", typ)
			} else if err != nil {
				err = io.EOF
			}
			return b, err
		},
		end: func() { ws.Close() }}, nil
}

func grpcClient(dial func() (net.Conn, error), seed int64) (net.Conn, error) {
	cc, err := grpc.Dial("pipe", grpc.WithInsecure(), grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return dial() }))
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	st, err := pbx.NewUnitdbClient(cc).Stream(ctx)
	if err != nil {
		cancel()
		cc.Close()
		return nil, err
	}
	return &byteConn{rng: rand.New(rand.NewSource(seed)), max: 500000,
		send: func(p []byte) error { return st.Send(&pbx.Packet{Data: p}) },
		recv: func() ([]byte, error) {
			m, err := st.Recv()
			if err != nil {
				return nil, io.EOF
			}
			return m.Data, nil
		},
		end: func() {
			cancel()
			cc.Close()
		}}, nil
}

const (
	viaTCP = iota
	viaWS
	viaGRPC
)

// dial connects a client by one of the transports.
func (s *server) dial(via int, seed int64) (net.Conn, error) {
	switch via {
	case viaWS:
		if s.wsL == nil {
			s.wsL = newPipeListener()
			s.http.Serve(s.wsL)
		}
		raw, err := s.wsL.dial()
		if err != nil {
			return nil, err
		}
		return wsClient(raw, seed)
	case viaGRPC:
		if s.grpcL == nil {
			s.grpcL = newPipeListener()
			s.grpc.Serve(s.grpcL)
		}
		return grpcClient(s.grpcL.dial, seed)
	}
	a, b := net.Pipe()
	t := &tracked{b}
	atomic.AddInt64(&trackedConns, 1)
	runtime.SetFinalizer(t, func(*tracked) { atomic.AddInt64(&trackedConns, -1) })
	s.accept(t)
	return a, nil
}

// tracked is the server's end of a connection, which is counted until nothing
// refers to it.
type tracked struct{ net.Conn }

var trackedConns int64

// connsLeft counts the connections that something in the process still refers to.
func connsLeft() int64 {
	for n := 0; n < 10; n++ {
		runtime.GC()
		if atomic.LoadInt64(&trackedConns) == 0 {
			break
		}
		for k := 0; k < 1000; k++ {
			runtime.Gosched()
		}
	}
	return atomic.LoadInt64(&trackedConns)
}

func (s *server) closeNet() {
	if s.wsL != nil {
		s.wsL.Close()
	}
	if s.grpcL != nil {
		s.grpcL.Close()
	}
}

// ---- byte streams ----

// srvNet checks that the transports carry bytes as they are.
func srvNet(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
		r.Case(i, "streams")
		var mu sync.Mutex
		var accepted []net.Conn
		got := make(chan net.Conn)
		handler := func(c net.Conn) {
			mu.Lock()
			accepted = append(accepted, c)
			mu.Unlock()
			got <- c
		}
		hs, gs := lp.NewHttpServer(), lp.NewGrpcServer(lp.WithDefaultOptions())
		hs.Handler, gs.Handler = handler, handler
		s := &server{http: hs, grpc: gs}
		for k := 0; k < 4; k++ {
			via := viaWS + rng.Intn(2)
			name := []string{"", "WebSocket", "gRPC"}[via]
			type dialed struct {
				c   net.Conn
				err error
			}
			dc := make(chan dialed, 1)
			go func() {
				c, err := s.dial(via, rng.Int63())
				dc <- dialed{c, err}
			}()
			sc := <-got
			d := <-dc
			if d.err != nil {
				r.Viol("harness", "dial %s: %v", name, d.err)
				return
			}
			r.Add("connections", 1)
			writers := 1 + rng.Intn(3)
			total := [2]int{}
			var wg sync.WaitGroup
			for dir := 0; dir < 2; dir++ {
				from, to := d.c, sc
				if dir == 1 {
					from, to = sc, d.c
				}
				ws := 1
				if dir == 1 {
					ws = writers // the server may write from several goroutines
				}
				// What is written: records of a writer, numbered.
				plans := make([][]int, ws)
				for w := range plans {
					for n := 1 + rng.Intn(12); n > 0; n-- {
						l := []int{1, 20, 300, 5000, 65536, 200000}[rng.Intn(6)]
						l = 1 + rng.Intn(l)
						if rng.Intn(10) == 0 {
							l = 65536 // the buffer of the reader
						}
						if dir == 1 && rng.Intn(25) == 0 {
							l = 1<<22 + rng.Intn(1<<21)
						}
						if dir == 0 && via == viaWS && rng.Intn(25) == 0 {
							l = 1<<19 + rng.Intn(1<<21)
						}
						plans[w] = append(plans[w], l)
						total[dir] += l + 4
					}
				}
				want := total[dir]
				dir := dir
				seed := rng.Int63()
				var wwg sync.WaitGroup
				for w := range plans {
					wwg.Add(1)
					wg.Add(1)
					w := w
					go func() {
						defer wg.Done()
						defer wwg.Done()
						for n, l := range plans[w] {
							b := record(w, n, l)
							if x, err := from.Write(b); err != nil || x != len(b) {
								r.Viol("stream-write", "%s: Write of %d bytes returns %d, %v", name, len(b), x, err)
								return
							}
							for y := range b {
								b[y] = 0xEE // the buffer belongs to the writer again
							}
						}
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewSource(seed))
					var all []byte
					big := make([]byte, 70000)
					for len(all) < want {
						n := 1 + rr.Intn([]int{1, 10, 1000, 65536, 70000}[rr.Intn(5)])
						if rr.Intn(8) == 0 {
							n = 65536
						}
						p := big[:n]
						x, err := to.Read(p)
						if x < 0 || x > n {
							r.Viol("stream-read", "%s: Read into %d bytes returns %d", name, n, x)
							return
						}
						all = append(all, p[:x]...)
						if err != nil {
							r.Viol("stream-lost", "%s: Read returns %v after %d of %d bytes", name, err, len(all), want)
							return
						}
						r.Add("reads", 1)
					}
					if len(all) > want {
						r.Viol("stream-more", "%s: %d bytes arrive, %d were written", name, len(all), want)
					}
					// Each record is whole, and those of a writer are in order.
					next := make([]int, len(plans))
					for b := all; len(b) > 0; {
						w := int(b[0])
						if w >= len(plans) || next[w] >= len(plans[w]) {
							r.Viol("stream-altered", "%s: %d bytes before the end there is no record", name, len(b))
							return
						}
						x := record(w, next[w], plans[w][next[w]])
						if len(b) < len(x) || !bytes.Equal(x, b[:len(x)]) {
							r.Viol("stream-altered", "%s: record %d of writer %d (%d bytes) is altered or interleaved with others", name, next[w], w, len(x))
							return
						}
						b = b[len(x):]
						next[w]++
					}
					r.Add("bytes compared", int64(len(all)))
					r.Seen("directions", fmt.Sprint(name, dir))
				}()
			}
			wg.Wait()
			if r.nviol > 0 {
				break
			}
			r.Seen("histories", fmt.Sprint(i, k, name, total, writers))
			// The end of the connection is seen on the other side.
			first, second := d.c, sc
			kind := "client"
			if rng.Intn(2) == 0 {
				first, second = sc, d.c
				kind = "server"
			}
			done := make(chan error, 1)
			go func() {
				p := make([]byte, 100)
				n, err := second.Read(p)
				if err == nil {
					err = fmt.Errorf("Read returns %d bytes that were not written", n)
				} else {
					err = nil
				}
				done <- err
			}()
			if rng.Intn(2) == 0 {
				time.Sleep(time.Second)
			}
			first.Close()
			select {
			case err := <-done:
				if err != nil {
					r.Viol("stream-end", "%s: after the %s closed the connection, %v", name, kind, err)
				}
			case <-time.After(200 * time.Second):
				r.Viol("stream-end", "%s: the %s closed the connection, its end is not seen by the other side", name, kind)
			}
			r.Add("ends of connections seen", 1)
			second.Close()
			d.c.Close()
			if r.nviol > 0 {
				break
			}
		}
		s.closeNet()
		mu.Lock()
		for _, c := range accepted {
			c.Close()
		}
		mu.Unlock()
		time.Sleep(300 * time.Second)
	})
}

// record is the n-th thing that writer w writes.
func record(w, n, l int) []byte {
	b := make([]byte, l+4)
	b[0], b[1], b[2], b[3] = byte(w), byte(n), byte(l), byte(l>>8)
	x := uint32(w*1000003 + n*7919 + l)
	for i := 4; i < len(b); i++ {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// slowConn writes in pieces.
type slowConn struct {
	net.Conn
	mu   sync.Mutex
	rng  *rand.Rand
	left int
}

func (c *slowConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for b := p; ; {
		n := len(b)
		if c.left > 0 && n > 1 {
			n = 1 + c.rng.Intn(3)
			if n > len(b) {
				n = len(b)
			}
			c.left--
		}
		if _, err := c.Conn.Write(b[:n]); err != nil {
			return 0, err
		}
		if b = b[n:]; len(b) == 0 {
			return len(p), nil
		}
		time.Sleep(time.Duration(c.rng.Intn(3)) * time.Millisecond)
	}
}

// srvMux checks that connections to the one port of the server reach the server of
// their protocol with all their bytes.
func srvMux(j *Job, r *Rep) {
	j.cases(func(i int) {
		rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
		r.Case(i, "mux")
		l, err := listener.New("127.0.0.1:0")
		if err != nil {
			r.Viol("harness", "listen: %v", err)
			return
		}
		l.SetReadTimeout(120 * time.Second)
		var ends sync.WaitGroup
		echo := func(kind byte) func(net.Conn) {
			return func(c net.Conn) {
				defer ends.Done()
				defer c.Close()
				// The first byte of an answer names the server it came to.
				if _, err := c.Write([]byte{kind}); err != nil {
					return
				}
				p := make([]byte, 3000)
				for {
					n, err := c.Read(p)
					if n > 0 {
						if _, err := c.Write(p[:n]); err != nil {
							return
						}
					}
					if err != nil {
						return
					}
				}
			}
		}
		hs, ts := lp.NewHttpServer(), lp.NewTcpServer()
		hs.Handler, ts.Handler = echo('W'), echo('T')
		l.ServeCallback(listener.MatchWS("GET"), hs.Serve)
		l.ServeCallback(listener.MatchAny(), ts.Serve)
		served := make(chan struct{})
		go func() {
			l.Serve()
			close(served)
		}()
		var wg sync.WaitGroup
		for k := 0; k < 12; k++ {
			ends.Add(1)
			wg.Add(1)
			rr := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer wg.Done()
				raw, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					r.Viol("harness", "dial: %v", err)
					ends.Done()
					return
				}
				sc := &slowConn{Conn: raw, rng: rand.New(rand.NewSource(rr.Int63())), left: rr.Intn(12)}
				var c net.Conn = sc
				kind := byte('T')
				b := make([]byte, 4+rr.Intn(20000))
				rr.Read(b)
				switch rr.Intn(4) {
				case 0, 1:
					kind = 'W'
					if c, err = wsClient(sc, rr.Int63()); err != nil {
						r.Viol("mux-websocket", "a WebSocket connection is not accepted: %v", err)
						raw.Close()
						ends.Done()
						return
					}
				case 2:
					copy(b, []string{"GE", "G", "get", "PRI * ", "POST / ", " GET", "HTTP", "ET"}[rr.Intn(8)])
					if bytes.HasPrefix(b, []byte("GET")) {
						b[2] = 'X'
					}
				default:
					if b[0] == 'G' {
						b[0] = 7
					}
				}
				go func() {
					for rest := b; len(rest) > 0; {
						n := 1 + rr.Intn(len(rest))
						if _, err := c.Write(rest[:n]); err != nil {
							return
						}
						rest = rest[n:]
					}
				}()
				got := make([]byte, len(b)+1)
				raw.SetReadDeadline(time.Now().Add(300 * time.Second))
				n, err := io.ReadFull(c, got)
				switch {
				case err != nil:
					r.Viol("mux-lost", "%d of %d bytes of a connection (%c, it starts with %q) come back: %v", n, len(got), kind, b[:4], err)
				case got[0] != kind:
					r.Viol("mux-server", "a connection (%c, it starts with %q) came to the server %c", kind, b[:4], got[0])
				case !bytes.Equal(got[1:], b):
					r.Viol("mux-altered", "bytes of a connection (%c) are altered", kind)
				}
				r.Add("bytes compared", int64(len(b)))
				r.Add("connections to one port", 1)
				r.Seen("protocols told apart", fmt.Sprintf("%c %q", kind, b[:2]))
				c.Close()
			}()
		}
		wg.Wait()
		if r.nviol == 0 {
			done := make(chan struct{})
			go func() {
				ends.Wait()
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(300 * time.Second):
				r.Viol("mux-end", "the end of a connection did not come to its server")
			}
		}
		r.Seen("histories", fmt.Sprint("mux", i))
		l.Close()
		<-served
	})
}

var _ proto.Message

func init() {
	reg("srvnet", true, srvNet)
	reg("srvmux", false, srvMux)
}
