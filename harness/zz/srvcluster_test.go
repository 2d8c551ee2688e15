package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/rs/zerolog"
	"github.com/unit-io/unitdb/server/internal"
)

// ---- election of a leader in a cluster (P33) -------------------------------------
//
// Real nodes of one cluster run in one process. Each believes that the others listen
// where in fact a link of the harness does, which records every call, delays it or
// fails it, and passes it on to the real node.

type clusNet struct {
	r     *Rep
	mu    sync.Mutex
	names []string
	addr  []string
	up    []string // addresses of nodes that run
	links [][]*clusLink // from, to
	log   []string
	bad   bool
	t0    time.Time

	grants  map[int]map[int]int          // term, voter: candidate it voted for
	stood   map[int]map[int]bool         // term: nodes that asked for votes
	votes   map[int]map[int]map[int]bool // term, candidate: voters whose vote was delivered
	leaders map[int]int                  // term: leader that pinged
	known   []int                        // highest term each node has shown to know
	sigs    map[string]string            // signature of the ring for a list of nodes
	pings   map[int]map[int]clusPing     // receiver, sender: its latest ping
	seq     int                          // of pings
	asked   int                          // requests to vote
	late    []internal.ClusterPing       // pings that were not delivered
}

type clusPing struct {
	seq, term int
	nodes     string
	ok        bool
}

type clusLink struct {
	n        *clusNet
	from, to int
	l        net.Listener
	mu       sync.Mutex
	cut      bool
	soft     bool // calls fail, connections can be made
	delay    func() time.Duration
	conns    map[net.Conn]bool
	client   *rpc.Client
}

var errLinkCut = errors.New("link is cut")

func (n *clusNet) logf(f string, a ...interface{}) {
	n.log = append(n.log, fmt.Sprintf("%d:", time.Since(n.t0).Milliseconds())+fmt.Sprintf(f, a...))
	if len(n.log) > 400 {
		n.log = append(n.log[:40:40], n.log[len(n.log)-200:]...)
	}
}

func (n *clusNet) viol(sig, f string, a ...interface{}) {
	if n.bad {
		return
	}
	n.bad = true
	l := n.log
	if len(l) > 120 {
		l = l[len(l)-120:]
	}
	n.r.Viol(sig, "%s | %d nodes; %s", fmt.Sprintf(f, a...), len(n.names), strings.Join(l, "; "))
}

// pass forwards a call to the real node.
func (l *clusLink) pass(method string, req, resp interface{}) error {
	l.n.mu.Lock()
	addr := l.n.up[l.to]
	l.n.mu.Unlock()
	l.mu.Lock()
	if l.cut || addr == "" {
		l.mu.Unlock()
		return errLinkCut
	}
	if l.client == nil {
		c, err := rpc.Dial("tcp", addr)
		if err != nil {
			l.mu.Unlock()
			return err
		}
		l.client = c
	}
	c, d := l.client, time.Duration(0)
	if l.delay != nil {
		d = l.delay()
	}
	l.mu.Unlock()
	time.Sleep(d / 2)
	err := c.Call(method, req, resp)
	time.Sleep(d - d/2)
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.cut {
		return errLinkCut
	}
	if err != nil {
		l.client = nil
	}
	return err
}

// Ping passes a leader's ping on.
func (l *clusLink) Ping(p *internal.ClusterPing, unused *bool) error {
	l.n.ping(l.from, l.to, p)
	err := l.pass("Cluster.Ping", p, unused)
	if err == errLinkCut { // it is delivered late, or not at all
		l.n.mu.Lock()
		if len(l.n.late) < 1000 {
			l.n.late = append(l.n.late, *p)
		}
		l.n.mu.Unlock()
	}
	if err == nil {
		l.n.pinged(l.from, l.to, p)
	}
	return err
}

// Vote passes a request to vote on.
func (l *clusLink) Vote(q *internal.ClusterVoteRequest, resp *internal.ClusterVoteResponse) error {
	before := l.n.ask(l.from, l.to, q)
	err := l.pass("Cluster.Vote", q, resp)
	if err == nil {
		l.n.vote(l.from, l.to, q, resp, before)
	}
	return err
}

func (l *clusLink) set(cut bool) {
	l.mu.Lock()
	l.cut = cut
	var cs []net.Conn
	if cut && !l.soft {
		for c := range l.conns {
			cs = append(cs, c)
		}
		if l.client != nil {
			l.client.Close()
			l.client = nil
		}
	}
	l.mu.Unlock()
	for _, c := range cs {
		c.Close()
	}
}

func (l *clusLink) serve() {
	s := rpc.NewServer()
	s.RegisterName("Cluster", l)
	for {
		c, err := l.l.Accept()
		if err != nil {
			return
		}
		l.mu.Lock()
		if l.cut && !l.soft {
			l.mu.Unlock()
			c.Close()
			continue
		}
		l.conns[c] = true
		l.mu.Unlock()
		go func() {
			s.ServeConn(c)
			l.mu.Lock()
			delete(l.conns, c)
			l.mu.Unlock()
		}()
	}
}

func (n *clusNet) ping(from, to int, p *internal.ClusterPing) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bad {
		return
	}
	n.r.Add("pings", 1)
	n.logf("%d pings %d term %d nodes %v", from, to, p.Term, p.Nodes)
	if p.Leader != n.names[from] {
		n.viol("ping-leader", "node %d pings as leader %q", from, p.Leader)
		return
	}
	if l, ok := n.leaders[p.Term]; ok && l != from {
		n.viol("two-leaders", "nodes %d and %d are both leaders in term %d", l, from, p.Term)
		return
	}
	if _, ok := n.leaders[p.Term]; !ok {
		n.leaders[p.Term] = from
		n.r.Add("leaders_elected", 1)
		if v := len(n.votes[p.Term][from]) + 1; 2*v <= len(n.names) {
			n.viol("no-majority", "node %d is leader in term %d with %d votes of %d nodes", from, p.Term, v, len(n.names))
			return
		}
		if w, ok := n.grants[p.Term][from]; ok {
			n.viol("two-votes", "node %d, which voted for %d in term %d, is leader in it", from, w, p.Term)
			return
		}
	}
	nodes := append([]string{}, p.Nodes...)
	sort.Strings(nodes)
	k := strings.Join(nodes, ",")
	if s, ok := n.sigs[k]; ok && s != p.Signature {
		n.viol("ring", "node %d sends a ring for nodes %s that differs from an earlier one for these nodes", from, k)
		return
	}
	for o, s := range n.sigs {
		if s == p.Signature && o != k {
			n.viol("ring", "node %d sends the ring of nodes %s with the nodes %s", from, o, k)
			return
		}
	}
	n.sigs[k] = p.Signature
	has := false
	for _, x := range nodes {
		has = has || x == n.names[from]
	}
	if !has {
		n.viol("ring", "the leader %d is not among its nodes %s", from, k)
	}
	if p.Term > n.known[from] {
		n.known[from] = p.Term
	}
}

func (n *clusNet) pinged(from, to int, p *internal.ClusterPing) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bad {
		return
	}
	if n.pings[to] == nil {
		n.pings[to] = map[int]clusPing{}
	}
	nodes := append([]string{}, p.Nodes...)
	sort.Strings(nodes)
	n.seq++
	n.pings[to][from] = clusPing{n.seq, p.Term, strings.Join(nodes, ","), true}
}

// ask records a request to vote and returns the term that the voter surely knows.
func (n *clusNet) ask(from, to int, q *internal.ClusterVoteRequest) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bad {
		return 0
	}
	n.r.Add("vote_requests", 1)
	n.asked++
	n.logf("%d asks %d to vote in term %d", from, to, q.Term)
	if q.Node != n.names[from] {
		n.viol("candidate", "node %d asks to vote for %q", from, q.Node)
	}
	if n.stood[q.Term] == nil {
		n.stood[q.Term] = map[int]bool{}
	}
	n.stood[q.Term][from] = true
	if w, ok := n.grants[q.Term][from]; ok {
		n.viol("two-votes", "node %d stands in term %d, in which it voted for %d", from, q.Term, w)
	}
	if q.Term > n.known[from] {
		n.known[from] = q.Term
	}
	return n.known[to]
}

func (n *clusNet) vote(from, to int, q *internal.ClusterVoteRequest, resp *internal.ClusterVoteResponse, before int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bad {
		return
	}
	n.logf("%d votes %v for %d in term %d (its term %d)", to, resp.Result, from, q.Term, resp.Term)
	if resp.Term > n.known[to] {
		n.known[to] = resp.Term
	}
	if resp.Term < q.Term {
		n.viol("vote-term", "node %d, asked to vote in term %d, answers with term %d", to, q.Term, resp.Term)
		return
	}
	if !resp.Result {
		n.r.Add("votes_refused", 1)
		return
	}
	n.r.Add("votes_granted", 1)
	if before >= q.Term {
		n.viol("stale-vote", "node %d votes for %d in term %d, it had been in term %d", to, from, q.Term, before)
		return
	}
	if n.stood[q.Term][to] {
		n.viol("two-votes", "node %d votes for %d in term %d, in which it stands itself", to, from, q.Term)
		return
	}
	if n.grants[q.Term] == nil {
		n.grants[q.Term] = map[int]int{}
	}
	if w, ok := n.grants[q.Term][to]; ok && w != from {
		n.viol("two-votes", "node %d votes for %d and for %d in term %d", to, w, from, q.Term)
		return
	}
	n.grants[q.Term][to] = from
	if n.votes[q.Term] == nil {
		n.votes[q.Term] = map[int]map[int]bool{}
	}
	if n.votes[q.Term][from] == nil {
		n.votes[q.Term][from] = map[int]bool{}
	}
	n.votes[q.Term][from][to] = true
}

// rejected asks a node whether a ring is not its own.
func (n *clusNet) rejected(node int, sig string) (bool, error) {
	c, err := rpc.Dial("tcp", n.addr[node])
	if err != nil {
		return false, err
	}
	defer c.Close()
	rej := false
	err = c.Call("Cluster.Master", &internal.ClusterReq{Node: "zz", Signature: sig, Conn: &internal.ClusterSess{}}, &rej)
	return rej, err
}

// term asks a node for its term: with a request to vote in a term that is long over.
func (n *clusNet) term(node int) (int, error) {
	n.mu.Lock()
	before := n.known[node]
	n.mu.Unlock()
	c, err := rpc.Dial("tcp", n.addr[node])
	if err != nil {
		return 0, err
	}
	defer c.Close()
	var resp internal.ClusterVoteResponse
	if err = c.Call("Cluster.Vote", &internal.ClusterVoteRequest{Node: n.names[node], Term: -1}, &resp); err != nil {
		return 0, err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.r.Add("terms_read", 1)
	if resp.Result {
		n.viol("stale-vote", "node %d votes in term -1", node)
	}
	if resp.Term < before {
		n.viol("term-back", "node %d is in term %d, it had been in term %d", node, resp.Term, before)
	}
	if resp.Term > n.known[node] {
		n.known[node] = resp.Term
	}
	return resp.Term, nil
}

// settled tells whether one leader leads exactly the nodes of group, which all know it and have its ring.
func (n *clusNet) settled(group []int, since int) (bool, string) {
	n.mu.Lock()
	var names []string
	for _, g := range group {
		names = append(names, n.names[g])
	}
	sort.Strings(names)
	want := strings.Join(names, ",")
	sig := n.sigs[want]
	leader, term, why := -1, -1, ""
	for _, g := range group {
		for f, p := range n.pings[g] {
			if p.seq > since && p.term > term {
				leader, term = f, p.term
			}
		}
	}
	if leader < 0 {
		why = "no node leads"
	} else {
		first := n.seq + 1
		for _, g := range group {
			p := n.pings[g][leader]
			switch {
			case g == leader:
			case p.seq <= since:
				why = fmt.Sprintf("node %d is not pinged by the leader %d", g, leader)
			case p.nodes != want:
				why = fmt.Sprintf("node %d leads %s, the nodes that are connected are %s", leader, p.nodes, want)
			case p.seq < first:
				first = p.seq
			}
		}
		for _, g := range group {
			for f, p := range n.pings[g] {
				if f != leader && p.seq > first {
					why = fmt.Sprintf("nodes %d and %d lead", leader, f)
				}
			}
		}
	}
	n.mu.Unlock()
	if why != "" {
		return false, why
	}
	for _, g := range group {
		if t, err := n.term(g); err != nil || t != term {
			return false, fmt.Sprintf("node %d is in term %d, that of the leader is %d %v", g, t, term, err)
		}
		rej, err := n.rejected(g, sig)
		if err != nil {
			return false, err.Error()
		}
		if rej {
			return false, fmt.Sprintf("node %d has not the ring of nodes %s", g, want)
		}
	}
	return true, ""
}

// stale delivers pings of former leaders to nodes that know a later one: they must not take their ring.
func (n *clusNet) stale(rng *rand.Rand, group []int, hb time.Duration) {
	n.mu.Lock()
	var cur int
	for t := range n.leaders {
		if t > cur {
			cur = t
		}
	}
	var names []string
	for _, g := range group {
		names = append(names, n.names[g])
	}
	sort.Strings(names)
	sig := n.sigs[strings.Join(names, ",")]
	var ps []internal.ClusterPing
	for _, p := range n.late {
		if p.Term < cur && p.Signature != sig {
			ps = append(ps, p)
		}
	}
	if len(n.late) > 200 {
		n.late = n.late[len(n.late)-100:]
	}
	asked, bad := n.asked, n.bad
	n.mu.Unlock()
	if len(ps) == 0 || bad {
		return
	}
	p := ps[rng.Intn(len(ps))]
	for _, g := range group {
		if rej, err := n.rejected(g, p.Signature); err != nil || !rej {
			return // it has this ring from when it was the right one
		}
	}
	for _, g := range group {
		if n.names[g] == p.Leader {
			continue
		}
		if t, err := n.term(g); err != nil || t <= p.Term {
			return
		}
		c, err := rpc.Dial("tcp", n.addr[g])
		if err != nil {
			return
		}
		for k := 0; k < 3; k++ {
			unused := false
			c.Call("Cluster.Ping", &p, &unused)
		}
		c.Close()
		n.r.Add("late_pings", 3)
	}
	for t := time.Now(); time.Since(t) < 2*hb; time.Sleep(hb / 8) {
		for _, g := range group {
			rej, err := n.rejected(g, p.Signature)
			n.mu.Lock()
			if err == nil && !rej && n.names[g] != p.Leader && asked == n.asked {
				n.viol("stale-ring", "node %d takes the ring of %v from a late ping of %s of term %d, when in term %d", g, p.Nodes, p.Leader, p.Term, cur)
			}
			n.mu.Unlock()
		}
	}
}

func (n *clusNet) wait(what string, group []int, calm time.Duration) bool {
	n.mu.Lock()
	since := n.seq
	n.mu.Unlock()
	why := ""
	t := time.Now()
	for time.Since(t) < 40*time.Second {
		n.mu.Lock()
		bad := n.bad
		n.mu.Unlock()
		if bad {
			return false
		}
		ok, w := n.settled(group, since)
		if ok {
			if calm > 0 { // and remains so
				n.mu.Lock()
				asked := n.asked
				n.mu.Unlock()
				time.Sleep(calm)
				n.mu.Lock()
				ok, since = asked == n.asked, n.seq
				n.mu.Unlock()
				if !ok {
					why = fmt.Sprintf("a node asks for votes though all are pinged (waited %v)", calm)
					n.r.Add("restless", 1)
					continue
				}
			}
			n.r.Add("settled", 1)
			n.r.Add("settle_ms", time.Since(t).Milliseconds())
			return true
		}
		why = w
		time.Sleep(5 * time.Millisecond)
		n.r.Add("polls", 1)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.viol("not-settled", "%s, after 40 s, with nodes %v connected: %s", what, group, why)
	return false
}

// lone listeners: an address that was free a moment ago.
func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func (n *clusNet) build(rng *rand.Rand, hb, vote, fail int) {
	N := len(n.names)
	n.links = make([][]*clusLink, N)
	n.addr, n.up = make([]string, N), make([]string, N)
	for i := range n.links {
		n.links[i] = make([]*clusLink, N)
		for j := range n.links[i] {
			if i == j {
				continue
			}
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			n.links[i][j] = &clusLink{n: n, from: i, to: j, l: l, conns: map[net.Conn]bool{}, soft: rng.Intn(2) == 0}
			go n.links[i][j].serve()
		}
	}
	for i := range n.names {
		for try := 0; ; try++ {
			n.addr[i] = freeAddr()
			if n.startNode(i, hb, vote, fail) {
				n.mu.Lock()
				n.up[i] = n.addr[i]
				n.mu.Unlock()
				break
			}
			if try > 20 {
				panic("no port")
			}
		}
	}
}

func (n *clusNet) startNode(i, hb, vote, fail int) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if s := fmt.Sprint(p); !strings.Contains(s, "address already in use") {
				panic(p)
			}
			ok = false
		}
	}()
	type nd struct {
		Name string `json:"name"`
		Addr string `json:"addr"`
	}
	var nodes []nd
	for j, name := range n.names {
		a := n.addr[i]
		if j != i {
			a = n.links[i][j].l.Addr().String()
		}
		nodes = append(nodes, nd{name, a})
	}
	cfg, _ := json.Marshal(map[string]interface{}{"nodes": nodes, "failover": map[string]interface{}{"enabled": true, "heartbeat": hb, "vote_after": vote, "node_fail_after": fail}})
	internal.Globals.Cluster = nil
	rpc.DefaultServer = rpc.NewServer() // each node serves its own object
	self := n.names[i]
	internal.ClusterInit(cfg, &self)
	internal.Globals.Cluster.Start()
	// The listener takes the default server when its goroutine first runs.
	c, err := rpc.Dial("tcp", n.addr[i])
	if err != nil {
		panic(err)
	}
	c.Call("Cluster.None", &struct{}{}, nil)
	c.Close()
	return true
}

func (n *clusNet) connect(f func(i, j int) bool) {
	for i := range n.links {
		for j, l := range n.links[i] {
			if l != nil {
				l.set(!f(i, j))
			}
		}
	}
}

func (n *clusNet) lead() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	best := -1
	for t := range n.leaders {
		if t > best {
			best = t
		}
	}
	if best < 0 {
		return 0
	}
	return n.leaders[best]
}

func clusterCase(j *Job, r *Rep, i int) (failed bool) {
	rng := rand.New(rand.NewSource(j.Seed*1000003 + int64(i)))
	N := 3 + rng.Intn(3)
	n := &clusNet{r: r, t0: time.Now(), grants: map[int]map[int]int{}, stood: map[int]map[int]bool{}, votes: map[int]map[int]map[int]bool{}, leaders: map[int]int{},
		known: make([]int, N), sigs: map[string]string{}, pings: map[int]map[int]clusPing{}}
	for k := 0; k < N; k++ {
		n.names = append(n.names, fmt.Sprintf("%c%d", 'a'+rng.Intn(26), k))
	}
	hb, vote, fail := 15+rng.Intn(30), 3+rng.Intn(6), 2+rng.Intn(6)
	r.Case(i, fmt.Sprintf("%d nodes heartbeat %d ms vote after %d fail after %d", N, hb, vote, fail))
	n.build(rng, hb, vote, fail)
	all := make([]int, N)
	for k := range all {
		all[k] = k
	}
	beat := func(k int) { time.Sleep(time.Duration(k*hb) * time.Millisecond) }
	hist := fmt.Sprint(N, hb, vote, fail)
	ok := n.wait("after the start", all, 0)
	for step := j.Int("steps", 5); ok && step > 0; step-- {
		n.mu.Lock()
		n.logf("-- step %d", step)
		n.mu.Unlock()
		switch k := rng.Intn(6); k {
		case 0, 1: // a minority is cut off, often with the leader
			m := 1 + rng.Intn((N-1)/2)
			out := map[int]bool{}
			if k == 0 {
				out[n.lead()] = true
			}
			for len(out) < m {
				out[rng.Intn(N)] = true
			}
			hist += fmt.Sprint(";cut ", len(out))
			n.connect(func(a, b int) bool { return out[a] == out[b] })
			var group []int
			for a := range n.names {
				if !out[a] {
					group = append(group, a)
				}
			}
			if ok = n.wait("after a minority was cut off", group, 0); ok {
				n.stale(rng, group, time.Duration(hb)*time.Millisecond)
			}
			r.Add("partitions", 1)
		case 2: // no majority at all
			n.connect(func(a, b int) bool { return false })
			hist += ";apart"
			beat(2 + rng.Intn(3*vote))
			r.Add("all_apart", 1)
		case 3: // links fail and recover at random, also in one direction only
			hist += ";flaky"
			for k := 0; k < 10; k++ {
				m := rng.Intn(N*N) + 1
				n.connect(func(a, b int) bool { return rng.Intn(m) != 0 })
				beat(rng.Intn(vote + 2))
			}
			r.Add("flaky_phases", 1)
		case 4: // slow links
			hist += ";slow"
			seed := rng.Int63()
			var mu sync.Mutex
			drng := rand.New(rand.NewSource(seed))
			max := 1 + rng.Intn(3*vote*hb)
			for a := range n.links {
				for _, l := range n.links[a] {
					if l == nil {
						continue
					}
					l.mu.Lock()
					l.delay = func() time.Duration {
						mu.Lock()
						defer mu.Unlock()
						if drng.Intn(3) == 0 {
							return time.Duration(drng.Intn(max)) * time.Millisecond
						}
						return 0
					}
					l.mu.Unlock()
				}
			}
			beat(4 * vote)
			for a := range n.links {
				for _, l := range n.links[a] {
					if l != nil {
						l.mu.Lock()
						l.delay = nil
						l.mu.Unlock()
					}
				}
			}
			r.Add("slow_phases", 1)
		case 5: // a node is cut off until it is given up, then another while the first returns
			hist += ";swap"
			x := (n.lead() + 1 + rng.Intn(N-1)) % N
			n.connect(func(a, b int) bool { return (a == x) == (b == x) })
			var group []int
			for a := range n.names {
				if a != x {
					group = append(group, a)
				}
			}
			if ok = n.wait("after a node was cut off", group, 0); !ok {
				break
			}
			y := n.lead()
			n.connect(func(a, b int) bool { return (a == y) == (b == y) })
			beat(rng.Intn(2 * vote))
			r.Add("swaps", 1)
		}
		if !ok {
			break
		}
		if rng.Intn(4) != 0 {
			n.connect(func(a, b int) bool { return true })
			ok = n.wait("after all nodes were connected again", all, 0)
			hist += ";heal"
			if ok {
				n.stale(rng, all, time.Duration(hb)*time.Millisecond)
			}
		}
	}
	if ok {
		n.connect(func(a, b int) bool { return true })
		ok = n.wait("at the end", all, time.Duration(2*vote*hb)*time.Millisecond)
	}
	n.mu.Lock()
	for t, l := range n.leaders {
		hist += fmt.Sprintf(";%d:%d", t, l)
	}
	failed = n.bad
	n.bad = true // what the nodes do from now on does not count
	n.mu.Unlock()
	for a := range n.links {
		for _, l := range n.links[a] {
			if l != nil {
				l.mu.Lock()
				l.soft = false
				l.mu.Unlock()
				l.set(true) // it keeps its port: the nodes cannot be stopped
			}
		}
	}
	r.Seen("histories", hist)
	if i < 3 {
		r.Sample(map[string]interface{}{"nodes": N, "history": hist})
	}
	r.Add("cases", 1)
	return
}

func init() {
	reg("cluster", false, func(j *Job, r *Rep) {
		stdlog.SetOutput(io.Discard)
		s, err := startServer(filepath.Join(j.Dir, "db"), 1)
		if err != nil {
			panic(err)
		}
		_ = s
		// A fatal log entry ends the program. It is the only kind of entry made here.
		zerolog.LevelFieldMarshalFunc = func(l zerolog.Level) string {
			if l == zerolog.FatalLevel {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, false)]
				r.Viol("node-ends", "a node ends its program\n%s", buf)
				r.finish()
				os.Exit(0)
			}
			return l.String()
		}
		zerolog.SetGlobalLevel(zerolog.FatalLevel)
		failed := false
		j.cases(func(i int) {
			if !failed {
				failed = clusterCase(j, r, i)
			}
		})
	})
}
