package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

func init() {
	register("C14", "networks of running instances exchanging messages "+
		"over grpc and simulated links, with replayed, lost and junk "+
		"messages on the links; the logs of sends and receipts are "+
		"checked for exactly-once delivery, order and content; "+
		"non-trivial when the interleaving of receipts is new", runC14)
	register("C22", "subscriptions to payloads under arriving messages, "+
		"competing subscribers, cancellation, dead clients, failing "+
		"streams and shutdown; non-trivial when the scenario's story "+
		"is new", runC22)
}

// receipt is one response of a subscription.
type receipt struct {
	node  int
	typ   uint64
	value []byte
	reply *rpath
}

// sub is a client's subscription.
type sub struct {
	typ    uint64
	cancel func()
	mu     sync.Mutex
	got    []receipt
	err    error
	done   chan struct{}
	hook   func(receipt)
}

func (s *sub) list() []receipt {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]receipt{}, s.got...)
}

func (s *sub) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

// subscribe opens a subscription and reads it.
func subscribe(conn *grpc.ClientConn, node int, typ uint64,
	hook func(receipt)) *sub {

	ctx, cancel := context.WithCancel(context.Background())
	s := &sub{typ: typ, cancel: cancel, done: make(chan struct{}),
		hook: hook}
	go func() {
		defer close(s.done)
		st, err := offersrpc.NewOffersClient(conn).SubscribeOnionPayload(
			ctx, &offersrpc.SubscribeOnionPayloadRequest{
				TlvType: typ})
		for err == nil {
			var resp *offersrpc.SubscribeOnionPayloadResponse
			resp, err = st.Recv()
			if err != nil {
				break
			}
			rc := receipt{node, typ, resp.Value,
				rpcPath(resp.ReplyPath)}
			if string(resp.Value) == warmup {
				s.mu.Lock()
				s.got = append(s.got, rc)
				s.mu.Unlock()
				continue
			}
			if s.hook != nil {
				s.hook(rc)
			}
			s.mu.Lock()
			s.got = append(s.got, rc)
			s.mu.Unlock()
		}
		s.mu.Lock()
		s.err = err
		s.mu.Unlock()
	}()
	return s
}

const warmup = "warm up"

// noWarm removes the responses of the warm up.
func noWarm(l []receipt) []receipt {
	var out []receipt
	for _, r := range l {
		if string(r.value) != warmup {
			out = append(out, r)
		}
	}
	return out
}

// warm makes sure that a subscription is active: it gets messages.
func (n *node) warm(r *rand.Rand, s *sub) {
	p := &probe{lnd: n.lnd}
	eventually(fmt.Sprintf("subscription to %d gets a message", s.typ),
		func() bool {
			if s.count() > 0 {
				return true
			}
			select {
			case <-s.done:
				Fail("subscription to %d ended: %v", s.typ, s.err)
			default:
			}
			n.lnd.inject(n.lnd.vertex(), onionType, p.toSelf(r, nil,
				[]rec{{s.typ, []byte(warmup)}}))
			time.Sleep(time.Millisecond)
			return s.count() > 0
		})
}

// settle waits until a node has processed all that was injected so far, and
// its subscriber to the sentinel has it.
func (n *node) settle(r *rand.Rand, s *sub) {
	val := rbytes(r, 16)
	p := &probe{lnd: n.lnd}
	n.lnd.inject(n.lnd.vertex(), onionType, p.toSelf(r, nil,
		[]rec{{sentinelType, val}}))
	eventually("delivery of a message to a subscriber, after the "+
		"messages before it", func() bool {

		l := s.list()
		for i := len(l) - 1; i >= 0; i-- {
			if sameBytes(l[i].value, val) {
				return true
			}
		}
		return false
	})
}

// ---- C14 ----

// sentMsg is the record of a message that a client asked to send.
type sentMsg struct {
	id     string
	stream string // messages of one stream stay in order
	seq    int
	to     int
	typ    uint64
	value  []byte
	reply  *rpath
	failed bool
	err    error
}

type netRun struct {
	v     *V
	r     *rand.Rand
	net   *simNet
	nodes []*node
	subs  []*sub
	sents []*sub // sentinel subscriptions

	mu       sync.Mutex
	sentLog  map[string]*sentMsg
	receipts []receipt
	replies  int64 // answers being sent
	lost     int64 // messages lost between relays
	problems []string
}

var netTypes = []uint64{64, 65, 1001}

func newNetRun(v *V, r *rand.Rand, n int) *netRun {
	t := &netRun{v: v, r: r, net: newSimNet(), sentLog: map[string]*sentMsg{}}
	var lnds []*fakeLnd
	for _, k := range freshKeys(r, n) {
		lnds = append(lnds, t.net.add(k))
	}
	// A random tree, and some more channels.
	for i := 1; i < n; i++ {
		t.net.channel(lnds[i].vertex(), lnds[r.Intn(i)].vertex())
	}
	for i := r.Intn(n); i > 0; i-- {
		a, b := r.Intn(n), r.Intn(n)
		if a != b {
			t.net.channel(lnds[a].vertex(), lnds[b].vertex())
		}
	}
	for i, f := range lnds {
		jr := rand.New(rand.NewSource(r.Int63()))
		var jm sync.Mutex
		f.jitter = func() {
			jm.Lock()
			defer jm.Unlock()
			if jr.Intn(3) == 0 {
				spin(jr)
			}
		}
		f.lag = lags(r)
		nd := startNode(f)
		t.nodes = append(t.nodes, nd)
		i := i
		for _, typ := range netTypes {
			t.subs = append(t.subs, subscribe(nd.conn, i, typ,
				func(rc receipt) { t.received(i, rc) }))
		}
		t.sents = append(t.sents, subscribe(nd.conn, i, sentinelType,
			nil))
	}
	for i, s := range t.subs {
		t.nodes[i/len(netTypes)].warm(r, s)
	}
	for i, s := range t.sents {
		t.nodes[i].warm(r, s)
	}
	return t
}

func (t *netRun) problem(format string, args ...interface{}) {
	t.mu.Lock()
	t.problems = append(t.problems, fmt.Sprintf(format, args...))
	t.mu.Unlock()
}

const replyFlag = 'R'

// received records a receipt, and answers it if it asks for an answer.
func (t *netRun) received(i int, rc receipt) {
	t.mu.Lock()
	t.receipts = append(t.receipts, rc)
	t.mu.Unlock()
	if len(rc.value) < 2 || rc.value[0] != replyFlag || rc.reply == nil {
		return
	}
	from := int(rc.value[1])
	if sameBytes(rc.reply.intro, pub33(t.nodes[i].lnd.key)) {
		return
	}
	// The subscription must not wait for the answer to be sent.
	atomic.AddInt64(&t.replies, 1)
	go func() {
		defer atomic.AddInt64(&t.replies, -1)
		m := &sentMsg{
			id: "reply" + string(rc.value), to: from, typ: 64,
			value:  append([]byte("r"), rc.value[2:]...),
			stream: "reply" + string(rc.value),
		}
		t.send(i, m, &offersrpc.SendOnionMessageRequest{
			BlindedDestination: rpcBlinded(rc.reply),
		})
		t.v.Count("answers over reply paths", 1)
	}()
}

// send asks a node to send a message and logs it.
func (t *netRun) send(from int, m *sentMsg,
	req *offersrpc.SendOnionMessageRequest) {

	req.FinalPayloads = map[uint64][]byte{m.typ: m.value}
	req.ReplyPath = rpcBlinded(m.reply)
	t.mu.Lock()
	t.sentLog[string(m.value)] = m
	t.mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 4*patience)
	defer cancel()
	_, err := t.nodes[from].client.SendOnionMessage(ctx, req)
	if err != nil {
		t.mu.Lock()
		m.failed, m.err = true, err
		t.mu.Unlock()
	}
}

// workload has clients at all nodes send messages.
func (t *netRun) workload(perClient int) {
	var wg sync.WaitGroup
	n := len(t.nodes)
	for i := range t.nodes {
		for c := 0; c < 2; c++ {
			wg.Add(1)
			i, c := i, c
			r := rand.New(rand.NewSource(t.r.Int63()))
			go func() {
				defer wg.Done()
				for k := 0; k < perClient; k++ {
					t.one(r, i, c, k, n)
				}
			}()
		}
	}
	within("clients sending messages", wg.Wait)
	t.answered()
}

// answered waits for the answers that are being sent.
func (t *netRun) answered() {
	eventually("clients have answered messages", func() bool {
		return atomic.LoadInt64(&t.replies) == 0
	})
}

func (t *netRun) path(i int) (*rpath, error) {
	resp, err := t.nodes[i].client.GenerateBlindedRoute(
		context.Background(), &offersrpc.GenerateBlindedRouteRequest{})
	if err != nil {
		return nil, err
	}
	return rpcPath(resp.Route), nil
}

func (t *netRun) one(r *rand.Rand, from, client, seq, n int) {
	to := r.Intn(n - 1)
	if to >= from {
		to++
	}
	m := &sentMsg{to: to, typ: netTypes[r.Intn(len(netTypes))], seq: seq}
	req := &offersrpc.SendOnionMessageRequest{}
	kind := r.Intn(4)
	var dest *rpath
	if kind == 3 {
		var err error
		if dest, err = t.path(to); err != nil {
			t.problem("generating a path to node %d: %v", to, err)
			return
		}
		if sameBytes(dest.intro, pub33(t.nodes[from].lnd.key)) {
			kind = 0
		}
	}
	switch kind {
	case 3:
		req.BlindedDestination = rpcBlinded(dest)
		t.v.Count("sent to blinded path", 1)
	case 2:
		req.DirectConnect = true
		fallthrough
	default:
		req.Pubkey = pub33(t.nodes[to].lnd.key)
		t.v.Count("sent to node", 1)
	}
	m.value = append([]byte{'m', byte(from)}, rbytes(r, 16)...)
	if r.Intn(6) == 0 {
		m.value = append(m.value, rbytes(r, r.Intn(450))...)
	}
	if r.Intn(3) == 0 {
		var err error
		if m.reply, err = t.path(from); err != nil {
			t.problem("generating a path to node %d: %v", from, err)
			return
		}
		m.value[0] = replyFlag
	}
	m.stream = fmt.Sprintf("%d.%d to %d/%d by %d", from, client, to, m.typ,
		kind)
	if kind == 3 {
		// The path taken depends on the introduction node.
		m.stream += fmt.Sprintf(" over %x", dest.intro)
	}
	t.send(from, m, req)
}

// quiesce waits until no message is on its way any more.
func (t *netRun) quiesce() {
	for {
		before := atomic.LoadInt64(&t.net.sent)
		for i, n := range t.nodes {
			n.settle(t.r, t.sents[i])
		}
		t.answered()
		if atomic.LoadInt64(&t.net.sent) == before {
			break
		}
	}
	// Responses to subscribers that are still in their streams.
	time.Sleep(5 * time.Millisecond)
}

// delivered gives the number of messages that were received.
func (t *netRun) delivered() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.receipts)
}

func (t *netRun) sentOK() (ok, failed int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, m := range t.sentLog {
		if m.failed {
			failed++
		} else {
			ok++
		}
	}
	return
}

// check compares the logs.
func (t *netRun) check(lossy bool) {
	t.quiesce()
	eventually("all messages that were sent are received", func() bool {
		ok, _ := t.sentOK()
		return t.delivered()+int(atomic.LoadInt64(&t.lost)) >= ok
	})
	t.quiesce()

	t.mu.Lock()
	defer t.mu.Unlock()
	for _, p := range t.problems {
		Fail("%s", p)
	}
	seen := map[string]bool{}
	last := map[string]int{}
	shape := ""
	for _, rc := range t.receipts {
		m, ok := t.sentLog[string(rc.value)]
		if !ok {
			Fail("node %d received %x, which nobody sent", rc.node,
				rc.value)
		}
		if seen[string(rc.value)] {
			Fail("node %d received %x twice", rc.node, rc.value)
		}
		seen[string(rc.value)] = true
		if m.failed {
			Fail("message was delivered, but sending it failed: %v",
				m.err)
		}
		if m.to != rc.node || m.typ != rc.typ {
			Fail("node %d type %d received the message for node "+
				"%d type %d", rc.node, rc.typ, m.to, m.typ)
		}
		if m.reply.String() != rc.reply.String() {
			Fail("received reply path %s, sent %s", rc.reply,
				m.reply)
		}
		if prev, ok := last[m.stream]; ok && m.seq < prev {
			Fail("messages of one sender reordered: %d after %d "+
				"in %s", m.seq, prev, m.stream)
		}
		last[m.stream] = m.seq
		shape += fmt.Sprint(rc.node, ".", m.stream[:1], " ")
	}
	ok := 0
	for _, m := range t.sentLog {
		if !m.failed {
			ok++
			continue
		}
		if !lossy {
			Fail("sending failed: %v (%s)", m.err, m.stream)
		}
	}
	lost := int(atomic.LoadInt64(&t.lost))
	if len(seen)+lost != ok {
		Fail("%d messages sent, %d received, %d lost on links", ok,
			len(seen), lost)
	}
	t.v.Distinct(shape)
	t.v.Count("messages received", int64(len(seen)))
	t.v.Count("messages lost on links", int64(lost))
}

func (t *netRun) stop() {
	for i, n := range t.nodes {
		n.noShutdown()
		if c := n.lnd.subscriptions(); c != 1 {
			Fail("node %d has %d subscriptions to messages", i, c)
		}
		n.stop()
	}
}

func runC14(v *V) {
	loud()
	v.Cases("network", 4, v.N(40, 900), func(i int, r *rand.Rand) {
		t := newNetRun(v, r, 3+r.Intn(4))
		var replayed int64
		var mu sync.Mutex
		tr := rand.New(rand.NewSource(r.Int63()))
		var old []lndclient.CustomMessage
		hostile := r.Intn(3) != 0
		t.net.tamper = func(from, to route.Vertex,
			m lndclient.CustomMessage) ([]lndclient.CustomMessage,
			error) {

			out := []lndclient.CustomMessage{m}
			if !hostile {
				return out, nil
			}
			mu.Lock()
			defer mu.Unlock()
			switch tr.Intn(8) {
			case 0:
				// Sent twice by the peer.
				out = append(out, m)
				replayed++
			case 1:
				junk := m
				junk.Data = rbytes(tr, tr.Intn(1500))
				out = []lndclient.CustomMessage{junk, m}
			case 2:
				junk := m
				junk.MsgType = uint32(32768 + tr.Intn(100))
				out = []lndclient.CustomMessage{junk, m}
			case 3:
				if len(old) > 0 {
					out = append(out, old[tr.Intn(len(old))])
					replayed++
				}
			}
			old = append(old, m)
			return out, nil
		}
		t.workload(v.N(8, 12))
		t.check(false)
		mu.Lock()
		v.Count("replayed on links", replayed)
		mu.Unlock()
		t.stop()
		v.Sample("network", map[string]interface{}{
			"nodes": len(t.nodes), "sent": len(t.sentLog),
			"received": len(t.receipts), "replayed": replayed})
	})

	v.Cases("many payloads", 8, v.N(40, 800), func(i int, r *rand.Rand) {
		manyPayloads(v, r)
	})

	// Links fail at random: a message is lost or its sender gets an error,
	// nothing else happens.
	v.Cases("lossy", 4, v.N(16, 600), func(i int, r *rand.Rand) {
		t := newNetRun(v, r, 3+r.Intn(4))
		tr := rand.New(rand.NewSource(r.Int63()))
		var mu sync.Mutex
		var failedSends int64
		for _, n := range t.nodes {
			n := n
			inner := n.lnd.onSend
			n.lnd.onSend = func(ctx context.Context,
				m lndclient.CustomMessage) error {

				mu.Lock()
				fail := tr.Intn(8) == 0
				mu.Unlock()
				if fail {
					atomic.AddInt64(&failedSends, 1)
					return errors.New("link failure")
				}
				return inner(ctx, m)
			}
		}
		t.workload(v.N(8, 12))
		t.answered()
		t.quiesce()
		// A failed send either is reported to the client, or was at a
		// relay, where the message is lost.
		_, failed := t.sentOK()
		atomic.StoreInt64(&t.lost, atomic.LoadInt64(&failedSends)-
			int64(failed))
		if t.lost < 0 {
			Fail("%d sends failed, %d failures reported",
				failedSends, failed)
		}
		t.check(true)
		t.stop()
	})

	v.Require("payloads of full messages", 1000)
	v.Require("messages received", 500)
	v.Require("replayed on links", 50)
	v.Require("messages lost on links", 10)
	v.Require("answers over reply paths", 50)
	v.Require("sent to blinded path", 100)
}

// ---- C22 ----

// fakeStream is a server side stream that fails at will.
type fakeStream struct {
	grpc.ServerStream
	ctx  context.Context
	send func(*offersrpc.SubscribeOnionPayloadResponse) error
}

func (s *fakeStream) Context() context.Context     { return s.ctx }
func (s *fakeStream) SetHeader(metadata.MD) error  { return nil }
func (s *fakeStream) SendHeader(metadata.MD) error { return nil }
func (s *fakeStream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	return s.send(r)
}

// manyPayloads sends messages with as many payloads as an onion can carry to a
// node with a handler for each of them.
func manyPayloads(v *V, r *rand.Rand) {
	var types []uint64
	seen := map[uint64]bool{sentinelType: true}
	n := []int{1, 2, 20, 63, 64, 65, 130, 300}[r.Intn(8)] + r.Intn(3)
	for len(types) < n {
		t := uint64(64 + r.Intn(3*n+100))
		if r.Intn(40) == 0 {
			t = redge(r)
		}
		if t >= 64 && !seen[t] {
			seen[t] = true
			types = append(types, t)
		}
	}
	p := newProbe(r, types...)
	defer p.stop()
	from := newFakeLnd(rkey(r))
	from.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{peerOf(p.lnd.vertex())}, nil
	}
	from.onSend = func(_ context.Context, m lndclient.CustomMessage) error {
		p.lnd.inject(from.vertex(), m.MsgType, m.Data)
		return nil
	}
	m := from.messenger(func(error) {})
	longest := []int{1, 1, 2, 10, 60}[r.Intn(5)]
	for j := 0; j < 4; j++ {
		var final []rec
		for _, k := range r.Perm(n) {
			x := rec{types[k], rbytes(r, r.Intn(longest))}
			if recsLen(append(final, x)) > 1100 {
				break
			}
			final = append(final, x)
		}
		req := onionmsg.NewSendMessageRequest(p.lnd.key.PubKey(), nil,
			nil, toFinal(final), true)
		within("send", func() {
			if err := m.SendMessage(context.Background(),
				req); err != nil {

				Fail("send of %d payloads of %d bytes: %v",
					len(final), recsLen(final), err)
			}
		})
		got, _ := p.flush()
		want := map[uint64][]byte{}
		for _, x := range final {
			want[x.t] = x.v
		}
		for _, g := range got {
			w, ok := want[g.typ]
			if !ok || !sameBytes(g.value, w) || g.reply != nil {
				Fail("delivered %s, want %x (expected: %v)", g,
					w, ok)
			}
			delete(want, g.typ)
		}
		if len(want) != 0 {
			Fail("%d of %d payloads were not delivered", len(want),
				len(final))
		}
		v.Count("payloads of full messages", int64(len(got)))
		v.Distinct("full", len(final), longest)
	}
	p.noShutdown()
}

// expectMsgs injects messages with random payloads and returns what each type
// must get.
func injectPayloads(r *rand.Rand, n *node, types []uint64, count int,
	want map[uint64][]receipt) {

	p := &probe{lnd: n.lnd}
	var paths []*rpath
	for j := 0; j < count; j++ {
		var reply *rpath
		if r.Intn(2) == 0 {
			reply = rpathNear(r, paths, 2, 30)
			paths = append(paths, reply)
		}
		var final []rec
		for _, t := range types {
			if r.Intn(2) == 0 {
				val := rbytes(r, 16+r.Intn(30))
				if r.Intn(12) == 0 {
					val = nil
				}
				if r.Intn(12) == 0 && len(final) == 0 {
					// All that an onion can carry.
					val = rbytes(r, 500+r.Intn(710))
					reply = nil
					final = append(final, rec{t, val})
					want[t] = append(want[t], receipt{typ: t,
						value: val})
					break
				}
				final = append(final, rec{t, val})
				want[t] = append(want[t], receipt{typ: t,
					value: val, reply: reply})
			}
		}
		if r.Intn(3) == 0 && recsLen(final) < 400 {
			final = append(final, rec{99999, rbytes(r, 10)})
		}
		n.lnd.inject(n.lnd.vertex(), onionType,
			p.toSelf(r, reply, sortRecs(final)))
	}
}

func recsLen(recs []rec) int { return len(encRecs(recs)) }

func checkReceipts(typ uint64, got, want []receipt, what string) {
	got = noWarm(got)
	for i := range want {
		if i >= len(got) {
			Fail("%s: type %d got %d of %d payloads", what, typ,
				len(got), len(want))
		}
		if !sameBytes(got[i].value, want[i].value) {
			Fail("%s: type %d payload %d is %x, want %x", what, typ,
				i, got[i].value, want[i].value)
		}
		if got[i].reply.String() != want[i].reply.String() {
			Fail("%s: type %d payload %d has reply path %s, want "+
				"%s", what, typ, i, got[i].reply, want[i].reply)
		}
	}
	if len(got) != len(want) {
		Fail("%s: type %d got %d payloads, want %d", what, typ,
			len(got), len(want))
	}
}

func plainNode(r *rand.Rand) *node {
	f := newFakeLnd(rkey(r))
	f.onSend = newRecorder().outgoing
	return startNode(f)
}

// gatedStream is the server's side of a subscription whose client takes what
// is sent when it is let.
type gatedStream struct {
	grpc.ServerStream
	ctx  context.Context
	gate func() // blocks while the client does not read
	mu   sync.Mutex
	got  []receipt
}

func (s *gatedStream) Context() context.Context { return s.ctx }

func (s *gatedStream) Send(m *offersrpc.SubscribeOnionPayloadResponse) error {
	s.gate()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, receipt{value: m.Value,
		reply: rpcPath(m.ReplyPath)})
	return nil
}

func (s *gatedStream) list() []receipt {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]receipt{}, s.got...)
}

func slowReader(v *V, r *rand.Rand) {
	n := plainNode(r)
	defer n.stop()
	types := []uint64{64, 65, 1 << 20}[:1+r.Intn(3)]
	slow := r.Intn(len(types))
	burst := []int{3, 30, 150, 400, 1200}[r.Intn(5)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	shut := make(chan struct{})
	var streams []*gatedStream
	results := make(chan error, len(types))
	for j, t := range types {
		st := &gatedStream{ctx: ctx, gate: func() {}}
		if j == slow {
			st.gate = func() { <-shut }
		}
		streams = append(streams, st)
		t := t
		go func() {
			// It may be refused while another probes below.
			for {
				err := n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: t}, st)
				if status.Code(err) != codes.Unavailable {
					results <- err
					return
				}
			}
		}()
	}
	// All of them are active when each is refused to another.
	for _, t := range types {
		t := t
		eventually("a subscription becomes active", func() bool {
			c, stop := context.WithTimeout(context.Background(),
				5*time.Millisecond)
			defer stop()
			err := n.srv.SubscribeOnionPayload(
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: t}, &fakeStream{ctx: c,
					send: func(*offersrpc.
						SubscribeOnionPayloadResponse) error {
						return nil
					}})
			return status.Code(err) == codes.Unavailable &&
				c.Err() == nil
		})
	}
	want := map[uint64][]receipt{}
	injectPayloads(r, n, types, burst, want)
	// The messages before the one that the client doesn't take go on to
	// others meanwhile, until the node holds back or has taken all.
	was, still := -1, 0
	for still < 5 {
		time.Sleep(4 * time.Millisecond)
		now := n.lnd.takenCount()
		if now == was {
			still++
		} else {
			was, still = now, 0
		}
	}
	close(shut)
	for j, st := range streams {
		st, t := st, types[j]
		eventually(fmt.Sprintf("the client that was slow for a while "+
			"gets its %d payloads", len(want[t])), func() bool {
			return len(st.list()) >= len(want[t])
		})
		checkReceipts(t, st.list(), want[t], "slow client")
		v.Count("payloads to slow clients", int64(len(want[t])))
	}
	cancel()
	for range types {
		var err error
		within("end of the subscription", func() { err = <-results })
		if status.Code(err) != codes.Canceled {
			Fail("cancelled subscription: %v", err)
		}
	}
	n.noShutdown()
	v.Distinct("slow", burst, len(types), slow, was)
}

// longIdle has subscriptions for which nothing arrives for a long time.
func longIdle(v *V, r *rand.Rand) {
	n := plainNode(r)
	defer n.stop()
	types := []uint64{64, 65, 1 << 33}
	var subs []*sub
	for _, t := range types {
		subs = append(subs, subscribe(n.conn, 0, t, nil))
	}
	sen := subscribe(n.conn, 0, sentinelType, nil)
	n.warm(r, sen)
	// One of them never got anything.
	for _, s := range subs[1:] {
		n.warm(r, s)
	}
	n.settle(r, sen)
	quiet := v.idleTime(r)
	v.Idle(quiet)
	if v.stopped() {
		return
	}
	for _, s := range append(subs[1:], sen) {
		select {
		case <-s.done:
			Fail("subscription to %d ended after %v without "+
				"messages: %v", s.typ, quiet, s.err)
		default:
		}
		second := subscribe(n.conn, 0, s.typ, nil)
		await(second.done, "a second subscriber is refused, after a "+
			"long time without messages")
		if c := status.Code(second.err); c != codes.Unavailable {
			Fail("second subscriber, after a long time: %v",
				second.err)
		}
	}
	want := map[uint64][]receipt{}
	injectPayloads(r, n, types, 12, want)
	n.settle(r, sen)
	for _, s := range subs {
		s := s
		eventually(fmt.Sprintf("subscriber to %d gets its %d payloads "+
			"after %v without messages", s.typ, len(want[s.typ]),
			quiet), func() bool {

			return len(noWarm(s.list())) >= len(want[s.typ])
		})
		checkReceipts(s.typ, s.list(), want[s.typ], "after a long time")
	}
	n.noShutdown()
	v.Count("subscriptions after a long time", int64(len(subs)))
}

// stalled has a client that does not read for a long time, and then goes on.
func stalled(v *V, r *rand.Rand, d time.Duration) {
	n := plainNode(r)
	defer n.stop()
	types := []uint64{64, 65}
	sen := subscribe(n.conn, 0, sentinelType, nil)
	n.warm(r, sen)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	shut := make(chan struct{})
	var streams []*gatedStream
	ended := make(chan error, len(types))
	for j, t := range types {
		st := &gatedStream{ctx: ctx, gate: func() {}}
		if j == 0 {
			st.gate = func() { <-shut }
		}
		streams = append(streams, st)
		t := t
		go func() {
			// It may be refused while another probes below.
			for {
				err := n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: t}, st)
				if status.Code(err) != codes.Unavailable {
					ended <- err
					return
				}
			}
		}()
	}
	for _, t := range types {
		t := t
		eventually("a subscription becomes active", func() bool {
			s := subscribe(n.conn, 0, t, nil)
			defer s.cancel()
			select {
			case <-s.done:
				return status.Code(s.err) == codes.Unavailable
			case <-time.After(50 * time.Millisecond):
				return false
			}
		})
	}
	want := map[uint64][]receipt{}
	injectPayloads(r, n, types, 40, want)
	v.Idle(d)
	if v.stopped() {
		return
	}
	close(shut)
	for j, t := range types {
		st, t := streams[j], t
		eventually(fmt.Sprintf("the subscriber to %d gets its %d "+
			"payloads after a client did not read for %v", t,
			len(want[t]), d), func() bool {
			return len(st.list()) >= len(want[t])
		})
		n.settle(r, sen)
		checkReceipts(t, st.list(), want[t], "stalled client")
		v.Count("payloads to stalled clients", int64(len(want[t])))
	}
	select {
	case err := <-ended:
		Fail("a subscription ended with %v, its client did not read "+
			"for %v", err, d)
	default:
	}
	n.noShutdown()
}

func runC22(v *V) {
	loud()
	stall := v.Background("stalled", 4, func(i int, r *rand.Rand) {
		stalled(v, r, []time.Duration{4 * time.Second, 12 * time.Second,
			33 * time.Second, v.idleTime(r)}[i%4])
	})
	defer v.Require("payloads to stalled clients", 40)
	defer stall()
	idle := v.Background("idle", 3, func(i int, r *rand.Rand) {
		longIdle(v, r)
	})
	defer v.Require("subscriptions after a long time", 3)
	defer idle()

	v.Cases("delivery", 8, v.N(100, 2000), func(i int, r *rand.Rand) {
		n := plainNode(r)
		defer n.closeGrpc()
		types := []uint64{64, 65, 70, 255, 1 << 33}
		k := 1 + r.Intn(4)
		var subs []*sub
		for j := 0; j < k; j++ {
			subs = append(subs, subscribe(n.conn, 0, types[j], nil))
		}
		sen := subscribe(n.conn, 0, sentinelType, nil)
		for _, s := range append(subs, sen) {
			n.warm(r, s)
		}
		n.settle(r, sen)
		want := map[uint64][]receipt{}
		injectPayloads(r, n, types, 5+r.Intn(20), want)
		n.settle(r, sen)
		for _, s := range subs {
			s := s
			eventually(fmt.Sprintf("subscriber to %d gets its %d "+
				"payloads", s.typ, len(want[s.typ])),
				func() bool {
					return len(noWarm(s.list())) >=
						len(want[s.typ])
				})
			checkReceipts(s.typ, s.list(), want[s.typ], "delivery")
			v.Count("payloads received", int64(len(want[s.typ])))
		}
		n.noShutdown()
		// The connection stays up until the streams have ended.
		n.halt()
		for _, s := range subs {
			s := s
			await(s.done, "a subscription ends when the server stops")
			if c := status.Code(s.err); c != codes.Aborted {
				Fail("subscription ended with %v after the "+
					"server stopped", s.err)
			}
			v.Count("aborted", 1)
			checkReceipts(s.typ, s.list(), want[s.typ], "at the end")
		}
		v.Distinct("delivery", k, len(want[64]), len(want[65]))
	})

	v.Cases("competition", 8, v.N(40, 1500), func(i int, r *rand.Rand) {
		n := plainNode(r)
		defer n.stop()
		const typ = 70
		sen := subscribe(n.conn, 0, sentinelType, nil)
		n.warm(r, sen)
		story := ""
		for round := 0; round < 3; round++ {
			// Many subscribe at once, one gets the type.
			conns := []*grpc.ClientConn{n.conn}
			k := 2 + r.Intn(3)
			var subs []*sub
			for j := 0; j < k; j++ {
				subs = append(subs, subscribe(conns[0], 0, typ,
					nil))
			}
			left := func() []*sub {
				var out []*sub
				for _, s := range subs {
					select {
					case <-s.done:
					default:
						out = append(out, s)
					}
				}
				return out
			}
			eventually("all but one of the subscribers to a type "+
				"are refused", func() bool {
				return len(left()) <= 1
			})
			for _, s := range subs {
				select {
				case <-s.done:
					c := status.Code(s.err)
					if c != codes.Unavailable {
						Fail("second subscriber: %v", s.err)
					}
					if s.count() != 0 {
						Fail("a refused subscriber got " +
							"messages")
					}
					v.Count("refused", 1)
				default:
				}
			}
			l := left()
			if len(l) != 1 {
				Fail("%d of %d subscribers got the type in "+
					"round %d", len(l), k, round)
			}
			win := l[0]
			n.warm(r, win)
			want := map[uint64][]receipt{}
			n.settle(r, sen)
			injectPayloads(r, n, []uint64{typ}, 4, want)
			n.settle(r, sen)
			eventually("the subscriber gets its payloads",
				func() bool {
					return len(noWarm(win.list())) >=
						len(want[typ])
				})
			checkReceipts(typ, win.list(), want[typ], "competition")

			// The type is free again after the subscription ends.
			win.cancel()
			await(win.done, "cancelled subscription ends")
			n.freed(typ)
			// Messages that nobody subscribes to are dropped.
			injectPayloads(r, n, []uint64{typ}, 3,
				map[uint64][]receipt{})
			n.settle(r, sen)
			v.Count("resubscriptions", 1)
			story += fmt.Sprint(k)
		}
		v.Distinct("competition", story)
		n.noShutdown()
	})

	// A type is free again however often, and however, its subscriptions
	// ended.
	v.Cases("cycles", 4, v.N(4, 60), func(i int, r *rand.Rand) {
		n := plainNode(r)
		defer n.stop()
		typ := 64 + redge(r)>>1
		if typ == sentinelType {
			typ++
		}
		p := &probe{lnd: n.lnd}
		rounds := v.N(400, 5000)
		for round := 0; round < rounds; round++ {
			ctx, cancel := context.WithCancel(context.Background())
			got := make(chan []byte, 1)
			ends := []string{"cancelled", "send fails"}[r.Intn(2)]
			fault := bareErr(r)
			st := &fakeStream{ctx: ctx, send: func(
				m *offersrpc.SubscribeOnionPayloadResponse) error {

				select {
				case got <- m.Value:
				default:
				}
				if ends == "send fails" {
					return fault
				}
				return nil
			}}
			ended := make(chan error, 1)
			go func() {
				ended <- n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: typ}, st)
			}()
			val := u64(uint64(round) | 1<<60)
			var had []byte
			for had == nil {
				n.lnd.inject(n.lnd.vertex(), onionType,
					p.toSelf(r, nil, []rec{{typ, val}}))
				select {
				case had = <-got:
				case err := <-ended:
					select {
					case had = <-got:
						ended <- err
						continue
					default:
					}
					cancel()
					Fail("subscription %d to %d ended: %v",
						round, typ, err)
				case <-time.After(5 * time.Millisecond):
				}
			}
			// It can be one that the last subscription left.
			if x := u64of(had); len(had) != 8 || x>>60 != 1 ||
				x&(1<<60-1) > uint64(round) {

				Fail("subscription %d to %d got %x", round, typ,
					had)
			}
			if ends == "cancelled" {
				cancel()
			}
			within("subscription ends ("+ends+")", func() { <-ended })
			cancel()
			v.Count("subscriptions to a type that was used before", 1)
		}
		v.Distinct("cycles", typ)
		n.noShutdown()
	})

	// What a subscription did not send before it ended is not for the next
	// one.
	v.Cases("left over", 4, v.N(8, 120), func(i int, r *rand.Rand) {
		n := plainNode(r)
		defer n.stop()
		sen := subscribe(n.conn, 0, sentinelType, nil)
		n.warm(r, sen)
		typ := 64 + redge(r)>>1
		if typ == sentinelType {
			typ++
		}
		p := &probe{lnd: n.lnd}
		inject := func(round, k int) {
			n.lnd.inject(n.lnd.vertex(), onionType, p.toSelf(r, nil,
				[]rec{{typ, u64(uint64(round)<<32 |
					uint64(k))}}))
		}
		for round := 1; round <= 12; round++ {
			ctx, cancel := context.WithCancel(context.Background())
			got := make(chan []byte, 1000)
			fault := bareErr(r)
			var release chan struct{}
			how := []string{"cancelled", "send fails late"}[r.Intn(2)]
			release = make(chan struct{})
			st := &fakeStream{ctx: ctx, send: func(
				m *offersrpc.SubscribeOnionPayloadResponse) error {

				got <- m.Value
				select {
				case <-release:
					return fault
				case <-ctx.Done():
					return status.FromContextError(
						ctx.Err()).Err()
				}
			}}
			ended := make(chan error, 1)
			go func() {
				ended <- n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: typ}, st)
			}()
			var first []byte
			for k := 1; first == nil; k++ {
				inject(round, k)
				select {
				case first = <-got:
				case err := <-ended:
					cancel()
					Fail("subscription %d to %d ended: %v",
						round, typ, err)
				case <-time.After(2 * time.Millisecond):
				}
			}
			if len(first) != 8 || u64of(first)>>32 != uint64(round) {
				cancel()
				Fail("subscription %d to %d got %x, which came "+
					"before it", round, typ, first)
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				inject(round, 1000+k)
			}
			spin(r)
			if how == "cancelled" {
				cancel()
			} else {
				close(release)
			}
			within("subscription ends ("+how+")", func() { <-ended })
			cancel()
			// Those that were on their way have no one to go to.
			n.settle(r, sen)
			v.Count("subscriptions after one that had more to send", 1)
		}
		v.Distinct("left over", typ)
		n.noShutdown()
	})

	// A client that doesn't read, with more messages than the stream can
	// hold, then goes away in some way.
	v.Cases("dead client", 8, v.N(24, 800), func(i int, r *rand.Rand) {
		n := plainNode(r)
		defer n.closeGrpc()
		const typ = 64
		sen := subscribe(n.conn, 0, sentinelType, nil)
		n.warm(r, sen)
		conn := n.dial()
		gate := make(chan struct{})
		s := subscribe(conn, 0, typ, func(receipt) { <-gate })
		n.warm(r, s)
		p := &probe{lnd: n.lnd}
		for j := 0; j < 150; j++ {
			n.lnd.inject(n.lnd.vertex(), onionType, p.toSelf(r, nil,
				[]rec{{typ, rbytes(r, 1100)}}))
		}
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		how := []string{"cancel", "close connection", "stop"}[r.Intn(3)]
		switch how {
		case "cancel":
			s.cancel()
		case "close connection":
			_ = conn.Close()
		case "stop":
			n.halt()
		}
		close(gate)
		if how != "stop" {
			n.settle(r, sen)
			n.freed(typ)
			// Works for the next subscriber.
			s2 := subscribe(n.conn, 0, typ, nil)
			n.warm(r, s2)
			n.noShutdown()
			n.halt()
		}
		await(s.done, "the subscription of a dead client ends")
		_ = conn.Close()
		v.Count("dead clients", 1)
		v.Distinct("dead", how, s.count())
	})

	// A client reads slowly, or not at all for a while, and then goes on:
	// it misses nothing.
	v.Cases("slow client", 8, v.N(24, 600), func(i int, r *rand.Rand) {
		slowReader(v, r)
	})

	v.Cases("failing stream", 8, v.N(96, 2500), func(i int, r *rand.Rand) {
		n := plainNode(r)
		defer n.stop()
		const typ = 100
		sen := subscribe(n.conn, 0, sentinelType, nil)
		n.warm(r, sen)
		p := &probe{lnd: n.lnd}
		after := r.Intn(4)
		fault := bareErr(r)
		if i%2 == 0 {
			fault = status.Error(codes.Code(1+i/2%16), "failed")
		}
		var got, late int64
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		st := &fakeStream{ctx: ctx, send: func(
			*offersrpc.SubscribeOnionPayloadResponse) error {

			if k := int(atomic.AddInt64(&got, 1)); k > after {
				if k > after+1 {
					atomic.AddInt64(&late, 1)
				}
				return fault
			}
			return nil
		}}
		ended := make(chan struct{})
		var err error
		go func() {
			err = n.srv.SubscribeOnionPayload(
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: typ}, st)
			close(ended)
		}()
		byCancel := r.Intn(3) == 0
		cutoff := 1 + r.Intn(10)
		for j := 0; ; j++ {
			n.lnd.inject(n.lnd.vertex(), onionType, p.toSelf(r, nil,
				[]rec{{typ, rbytes(r, 20)}}))
			if byCancel && j == cutoff {
				cancel()
			}
			select {
			case <-ended:
			default:
				if j < 30 {
					continue
				}
				await(ended, "a subscription whose stream "+
					"fails ends")
			}
			break
		}
		n.settle(r, sen)
		c := status.Code(err)
		// If it is cancelled before it begins, the server may count as
		// not ready.
		if atomic.LoadInt64(&late) != 0 {
			Fail("%d payloads written to a stream after it had "+
				"failed with %v", late, fault)
		}
		if err == nil || !errors.Is(err, fault) && !(byCancel &&
			(c == codes.Canceled || c == codes.Unavailable)) {
			Fail("subscription with a failing stream ended with %v "+
				"(cancelled %v)", err, byCancel)
		}
		n.freed(typ)
		n.noShutdown()
		v.Count("failed streams", 1)
		v.Distinct("failing", after, byCancel, c)
	})

	v.Cases("status", 8, v.N(60, 1500), func(i int, r *rand.Rand) {
		n := newNode(newFakeLnd(rkey(r)))
		n.lnd.onSend = newRecorder().outgoing
		defer n.stop()
		call := func(ctx context.Context, typ uint64) (err error) {
			within("subscription", func() {
				err = n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: typ},
					&fakeStream{ctx: ctx})
			})
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(),
			time.Duration(r.Intn(5))*time.Millisecond)
		if c := status.Code(call(ctx, 64)); c != codes.Unavailable {
			Fail("subscription before start: %v", c)
		}
		cancel()
		if err := n.srv.Start(n.lnd.services()); err != nil {
			Fail("start: %v", err)
		}
		bad := uint64(r.Intn(64))
		if c := status.Code(call(context.Background(), bad)); c !=
			codes.InvalidArgument {
			Fail("subscription to type %d: %v", bad, c)
		}
		ctx, cancel = context.WithTimeout(context.Background(),
			time.Duration(1+r.Intn(5))*time.Millisecond)
		typ := uint64(64 + r.Intn(1<<30))
		// A context that is done at once may also count as not ready.
		if c := status.Code(call(ctx, typ)); c != codes.Canceled &&
			c != codes.Unavailable {
			Fail("cancelled subscription: %v", c)
		}
		cancel()
		n.freed(typ)
		v.Count("statuses", 3)
		v.Distinct("status", bad)
	})

	v.Require("payloads received", 300)
	v.Require("aborted", 50)
	v.Require("refused", 100)
	v.Require("resubscriptions", 60)
	v.Require("subscriptions to a type that was used before", 500)
	v.Require("dead clients", 20)
	v.Require("failed streams", 40)
	v.Require("payloads to slow clients", 300)
}

// freed checks that a type can be subscribed to again.
func (n *node) freed(typ uint64) {
	eventually(fmt.Sprintf("type %d is free after its subscription ended",
		typ), func() bool {

		ctx, cancel := context.WithTimeout(context.Background(),
			20*time.Millisecond)
		defer cancel()
		err := n.srv.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ},
			&fakeStream{ctx: ctx, send: func(
				*offersrpc.SubscribeOnionPayloadResponse) error {
				return nil
			}})
		return status.Code(err) == codes.Canceled
	})
}
