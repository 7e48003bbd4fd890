package main

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/keychain"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
)

// This file simulates the lnd node underneath a boltnd instance, and a network
// of such nodes. The simulation records every call that the code under test
// makes, and injects faults on request.

const onionType = 513

// ---- detecting calls and events that never come ----

var beats int64

func init() {
	go func() {
		for {
			time.Sleep(10 * time.Millisecond)
			atomic.AddInt64(&beats, 1)
		}
	}()
}

const patience = 20 * time.Second

// await waits for an event that must come. If it hasn't come after a long time
// in which this process did get to run, that is a violation.
func await(done <-chan struct{}, format string, args ...interface{}) {
	awaitFor(patience, done, format, args...)
}

func awaitFor(patience time.Duration, done <-chan struct{}, format string,
	args ...interface{}) {

	select {
	case <-done:
		return
	default:
	}
	start, from := time.Now(), atomic.LoadInt64(&beats)
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case <-done:
		return
	case <-t.C:
	}
	// A process that was starved or suspended proves nothing.
	got := atomic.LoadInt64(&beats) - from
	want := int64(time.Since(start) / (10 * time.Millisecond))
	what := fmt.Sprintf(format, args...)
	if got < want/2 {
		Inconclusive("starved while waiting for: %s", what)
	}
	select {
	case <-done:
		return
	default:
	}
	Fail("nothing happened for %v: %s", patience, what)
}

// within runs a call that must return, and passes on its panics.
func within(what string, f func()) {
	done := make(chan struct{})
	var x interface{}
	go func() {
		defer close(done)
		defer func() { x = recover() }()
		f()
	}()
	await(done, "%s has not returned", what)
	if x != nil {
		if _, ok := x.(violation); ok {
			panic(x)
		}
		if _, ok := x.(inconclusive); ok {
			panic(x)
		}
		Fail("%s: panic: %v", what, x)
	}
}

// eventually waits for a condition that must come about.
func eventually(what string, cond func() bool) {
	if cond() {
		return
	}
	done, stop := make(chan struct{}), make(chan struct{})
	var x interface{}
	go func() {
		// A verdict of the condition is the caller's.
		defer func() {
			if y := recover(); y != nil {
				x = y
				close(done)
			}
		}()
		d := 100 * time.Microsecond
		for {
			select {
			case <-stop:
				return
			case <-time.After(d):
			}
			if cond() {
				close(done)
				return
			}
			if d < 20*time.Millisecond {
				d *= 2
			}
		}
	}()
	defer close(stop)
	await(done, "%s", what)
	if x != nil {
		panic(x)
	}
}

// ---- a simulated lnd ----

// fakeLnd is the lnd node of one boltnd instance.
type fakeLnd struct {
	lndclient.LightningClient

	key *btcec.PrivateKey

	// Behaviour of the calls. A call that is nil here panics, unless there
	// is a default.
	onSend     func(ctx context.Context, m lndclient.CustomMessage) error
	onPeers    func(ctx context.Context) ([]lndclient.Peer, error)
	onConnect  func(ctx context.Context, v route.Vertex, host string, permanent bool) error
	onNode     func(ctx context.Context, v route.Vertex, channels bool) (*lndclient.NodeInfo, error)
	onRoutes   func(ctx context.Context, r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error)
	onChannels func(ctx context.Context, active, public bool) ([]lndclient.ChannelInfo, error)
	onECDH     func(ctx context.Context, pub *btcec.PublicKey) error
	onInfo     func(ctx context.Context) error
	onSub      func(ctx context.Context) error

	// jitter, if set, delays the delivery of messages at random.
	jitter func()
	// lag, if set, delays calls at random.
	lag func()

	mu    sync.Mutex
	cond  *sync.Cond
	calls map[string]int
	queue []lndclient.CustomMessage
	taken int
	subs  int
	live  int
	// ending is how the stream fails, once set.
	ending string
	endErr error
}

func newFakeLnd(key *btcec.PrivateKey) *fakeLnd {
	f := &fakeLnd{key: key, calls: map[string]int{}}
	f.cond = sync.NewCond(&f.mu)
	return f
}

// delay holds up a call, if calls are to be held up.
func (f *fakeLnd) delay() {
	if f.lag != nil {
		f.lag()
	}
}

// lags makes a function that sometimes holds up its caller.
func lags(r *rand.Rand) func() {
	jr := rand.New(rand.NewSource(r.Int63()))
	var mu sync.Mutex
	// Some are slow more often.
	often := []int{3, 6, 6, 12}[jr.Intn(4)]
	return func() {
		if raceEnabled {
			jitter()
			return
		}
		mu.Lock()
		k := jr.Intn(often)
		d := time.Duration(jr.Intn(2500)) * time.Microsecond
		if jr.Intn(5) == 0 {
			d *= 8
		}
		mu.Unlock()
		switch k {
		case 0:
			time.Sleep(d)
		case 1:
			runtime.Gosched()
		}
	}
}

func (f *fakeLnd) called(name string) {
	if raceEnabled {
		// Nothing is to order the calls.
		return
	}
	f.mu.Lock()
	f.calls[name]++
	f.mu.Unlock()
}

// callCount gives the number of calls of an api.
func (f *fakeLnd) callCount(name string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.calls[name]
}

// expired is what a call fails with whose context has ended already.
func expired(ctx context.Context) error {
	if err := ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	return nil
}

func vertex(k *btcec.PublicKey) route.Vertex { return route.NewVertex(k) }

func (f *fakeLnd) vertex() route.Vertex { return vertex(f.key.PubKey()) }

func (f *fakeLnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	f.called("GetInfo")
	if f.onInfo != nil {
		if err := f.onInfo(ctx); err != nil {
			return nil, err
		}
	}
	return &lndclient.Info{IdentityPubkey: f.vertex()}, nil
}

func (f *fakeLnd) SendCustomMessage(ctx context.Context,
	m lndclient.CustomMessage) error {

	f.called("SendCustomMessage")
	f.delay()
	// The data has to stay as it is for as long as the call takes, not any
	// longer.
	m.Data = append([]byte{}, m.Data...)
	if err := expired(ctx); err != nil {
		return err
	}
	return f.onSend(ctx, m)
}

func (f *fakeLnd) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	f.called("ListPeers")
	if err := expired(ctx); err != nil {
		return nil, err
	}
	return f.onPeers(ctx)
}

func (f *fakeLnd) Connect(ctx context.Context, v route.Vertex, host string,
	permanent bool) error {

	f.called("Connect")
	if err := expired(ctx); err != nil {
		return err
	}
	return f.onConnect(ctx, v, host, permanent)
}

func (f *fakeLnd) GetNodeInfo(ctx context.Context, v route.Vertex,
	channels bool) (*lndclient.NodeInfo, error) {

	f.called("GetNodeInfo")
	if err := expired(ctx); err != nil {
		return nil, err
	}
	return f.onNode(ctx, v, channels)
}

func (f *fakeLnd) QueryRoutes(ctx context.Context,
	r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {

	f.called("QueryRoutes")
	if err := expired(ctx); err != nil {
		return nil, err
	}
	return f.onRoutes(ctx, r)
}

func (f *fakeLnd) ListChannels(ctx context.Context, active,
	public bool) ([]lndclient.ChannelInfo, error) {

	f.called("ListChannels")
	if err := expired(ctx); err != nil {
		return nil, err
	}
	return f.onChannels(ctx, active, public)
}

// SubscribeCustomMessages has the semantics of lndclient: an unbuffered message
// channel, an error channel with space for one error, both closed when the
// stream ends, which cancellation of the context does.
func (f *fakeLnd) SubscribeCustomMessages(ctx context.Context) (
	<-chan lndclient.CustomMessage, <-chan error, error) {

	f.called("SubscribeCustomMessages")
	if f.onSub != nil {
		if err := f.onSub(ctx); err != nil {
			return nil, nil, err
		}
	}
	msgs := make(chan lndclient.CustomMessage)
	errs := make(chan error, 1)

	f.mu.Lock()
	f.subs++
	f.live++
	f.mu.Unlock()

	go func() {
		<-ctx.Done()
		f.mu.Lock()
		f.cond.Broadcast()
		f.mu.Unlock()
	}()
	go f.pump(ctx, msgs, errs)
	return msgs, errs, nil
}

func (f *fakeLnd) pump(ctx context.Context, msgs chan lndclient.CustomMessage,
	errs chan error) {

	defer func() {
		f.mu.Lock()
		f.live--
		f.cond.Broadcast()
		f.mu.Unlock()
	}()
	for {
		f.mu.Lock()
		for len(f.queue) == 0 && ctx.Err() == nil && f.ending == "" {
			f.cond.Wait()
		}
		switch {
		case ctx.Err() != nil:
			f.mu.Unlock()
			close(errs)
			close(msgs)
			return
		case len(f.queue) == 0:
			how, err := f.ending, f.endErr
			f.mu.Unlock()
			switch how {
			case "error":
				errs <- err
			case "error and close":
				errs <- err
				close(errs)
				close(msgs)
				return
			case "close errors":
				close(errs)
			case "close messages":
				close(msgs)
				<-ctx.Done()
				return
			case "close":
				close(errs)
				close(msgs)
				return
			}
			<-ctx.Done()
			return
		}
		m := f.queue[0]
		f.queue = f.queue[1:]
		f.mu.Unlock()
		if f.jitter != nil {
			f.jitter()
		}
		select {
		case msgs <- m:
			f.mu.Lock()
			f.taken++
			f.cond.Broadcast()
			f.mu.Unlock()
		case <-ctx.Done():
		}
	}
}

// inject queues a message from a peer.
func (f *fakeLnd) inject(from route.Vertex, typ uint32, data []byte) {
	f.mu.Lock()
	f.queue = append(f.queue, lndclient.CustomMessage{
		Peer: from, MsgType: typ, Data: append([]byte{}, data...),
	})
	f.cond.Broadcast()
	f.mu.Unlock()
}

// end fails the stream, after the messages that are queued.
func (f *fakeLnd) end(how string, err error) {
	f.mu.Lock()
	f.ending, f.endErr = how, err
	f.cond.Broadcast()
	f.mu.Unlock()
}

// liveStreams gives the number of subscriptions that have not ended.
func (f *fakeLnd) liveStreams() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.live
}

// takenCount gives the number of messages that were consumed.
func (f *fakeLnd) takenCount() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.taken
}

func (f *fakeLnd) subscriptions() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.subs
}

// fakeSigner is lnd's signer.
type fakeSigner struct {
	lndclient.SignerClient
	lnd *fakeLnd
}

// DeriveSharedKey uses the node's key, or another key if the key locator is for
// another key.
func (s *fakeSigner) DeriveSharedKey(ctx context.Context,
	pub *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {

	s.lnd.called("DeriveSharedKey")
	s.lnd.delay()
	if err := expired(ctx); err != nil {
		return [32]byte{}, err
	}
	if s.lnd.onECDH != nil {
		if err := s.lnd.onECDH(ctx, pub); err != nil {
			return [32]byte{}, err
		}
	}
	key := s.lnd.key
	if loc != nil && (loc.Family != keychain.KeyFamilyNodeKey ||
		loc.Index != 0) {

		h := sha256.Sum256([]byte(fmt.Sprintf("%x/%v/%v",
			key.Serialize(), loc.Family, loc.Index)))
		key, _ = btcec.PrivKeyFromBytes(h[:])
	}
	return (&sphinx.PrivKeyECDH{PrivKey: key}).ECDH(pub)
}

// messenger makes an onion messenger on top of this lnd.
func (f *fakeLnd) messenger(shutdown func(error)) *onionmsg.Messenger {
	ecdh, err := onionmsg.NewNodeECDH(f, &fakeSigner{lnd: f})
	must(err)
	return onionmsg.NewOnionMessenger(
		&chaincfg.RegressionNetParams, f, ecdh, shutdown,
	)
}

func (f *fakeLnd) services() *lndclient.LndServices {
	return &lndclient.LndServices{
		Client: f, Signer: &fakeSigner{lnd: f},
		ChainParams: &chaincfg.RegressionNetParams,
		NodePubkey:  f.vertex(),
	}
}

// ---- one running instance ----

// shutdowns records the requests for a shutdown of the daemon.
type shutdowns struct {
	mu   sync.Mutex
	errs []error
}

func (s *shutdowns) request(err error) {
	s.mu.Lock()
	s.errs = append(s.errs, err)
	s.mu.Unlock()
}

func (s *shutdowns) list() []error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]error{}, s.errs...)
}

// node is a boltnd rpc server on a simulated lnd, reachable over grpc.
type node struct {
	lnd    *fakeLnd
	srv    *rpcserver.Server
	down   shutdowns
	lis    *bufconn.Listener
	grpc   *grpc.Server
	conn   *grpc.ClientConn
	client offersrpc.OffersClient
}

func newNode(lnd *fakeLnd) *node {
	n := &node{lnd: lnd}
	var err error
	n.srv, err = rpcserver.NewServer(n.down.request)
	must(err)
	n.lis = bufconn.Listen(1 << 20)
	n.grpc = grpc.NewServer()
	offersrpc.RegisterOffersServer(n.grpc, n.srv)
	go func() { _ = n.grpc.Serve(n.lis) }()
	n.conn = n.dial()
	n.client = offersrpc.NewOffersClient(n.conn)
	return n
}

// dial makes a new client connection.
func (n *node) dial() *grpc.ClientConn {
	conn, err := grpc.Dial("bufconn", grpc.WithInsecure(),
		grpc.WithContextDialer(func(context.Context, string) (net.Conn,
			error) {

			return n.lis.Dial()
		}))
	must(err)
	return conn
}

func startNode(lnd *fakeLnd) *node {
	n := newNode(lnd)
	if err := n.srv.Start(lnd.services()); err != nil {
		Fail("server start: %v", err)
	}
	return n
}

// halt stops the server, which must work.
func (n *node) halt() {
	within("stopping the server", func() {
		if err := n.srv.Stop(); err != nil {
			Fail("server stop: %v", err)
		}
	})
}

// stop stops the server and closes its connections.
func (n *node) stop() {
	n.halt()
	n.closeGrpc()
}

func (n *node) closeGrpc() {
	_ = n.conn.Close()
	n.grpc.Stop()
}

// noShutdown checks that no shutdown of the daemon was requested.
func (n *node) noShutdown() {
	if l := n.down.list(); len(l) != 0 {
		Fail("shutdown of the daemon requested: %v", l)
	}
}

// ---- a network of simulated nodes ----

// simNet connects simulated lnds.
type simNet struct {
	mu    sync.Mutex
	lnds  map[route.Vertex]*fakeLnd
	order []route.Vertex
	edges map[route.Vertex]map[route.Vertex]bool // channels
	peers map[route.Vertex]map[route.Vertex]bool // connections
	nodes map[route.Vertex]*lndclient.NodeInfo
	sent  int64

	// tamper may change what happens to a message: the copies returned
	// are delivered in order, an error fails the send.
	tamper func(from, to route.Vertex, m lndclient.CustomMessage) (
		[]lndclient.CustomMessage, error)
}

func newSimNet() *simNet {
	return &simNet{
		lnds:  map[route.Vertex]*fakeLnd{},
		edges: map[route.Vertex]map[route.Vertex]bool{},
		peers: map[route.Vertex]map[route.Vertex]bool{},
	}
}

func (s *simNet) connect(a, b route.Vertex) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.peers[a][b], s.peers[b][a] = true, true
}

// channel opens a channel, between nodes which then are connected.
func (s *simNet) channel(a, b route.Vertex) {
	s.connect(a, b)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.edges[a][b], s.edges[b][a] = true, true
}

var errNotConnected = errors.New("peer is not connected")

// path finds a shortest path over channels, always the same one.
func (s *simNet) path(from, to route.Vertex) []route.Vertex {
	s.mu.Lock()
	defer s.mu.Unlock()
	prev := map[route.Vertex]route.Vertex{from: from}
	todo := []route.Vertex{from}
	for len(todo) > 0 {
		at := todo[0]
		todo = todo[1:]
		if at == to && at != from {
			var p []route.Vertex
			for at != from {
				p = append([]route.Vertex{at}, p...)
				at = prev[at]
			}
			return p
		}
		for _, v := range s.order {
			if _, ok := prev[v]; !ok && s.edges[at][v] {
				prev[v] = at
				todo = append(todo, v)
			}
		}
	}
	return nil
}

// add makes a new simulated lnd in the network.
func (s *simNet) add(key *btcec.PrivateKey) *fakeLnd {
	f := newFakeLnd(key)
	me := f.vertex()
	s.mu.Lock()
	s.lnds[me] = f
	s.order = append(s.order, me)
	s.edges[me] = map[route.Vertex]bool{}
	s.peers[me] = map[route.Vertex]bool{}
	s.mu.Unlock()

	f.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
		if err := ctx.Err(); err != nil {
			return err
		}
		s.mu.Lock()
		to, ok := s.lnds[m.Peer]
		ok = ok && s.peers[me][m.Peer]
		tamper := s.tamper
		s.mu.Unlock()
		if !ok {
			return errNotConnected
		}
		copies := []lndclient.CustomMessage{m}
		if tamper != nil {
			var err error
			copies, err = tamper(me, m.Peer, m)
			if err != nil {
				return err
			}
		}
		for _, c := range copies {
			atomic.AddInt64(&s.sent, 1)
			to.inject(me, c.MsgType, c.Data)
		}
		return nil
	}
	f.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		var out []lndclient.Peer
		for v := range s.peers[me] {
			out = append(out, peerOf(v))
		}
		return out, nil
	}
	f.onConnect = func(_ context.Context, v route.Vertex, host string,
		_ bool) error {

		s.mu.Lock()
		_, ok := s.lnds[v]
		s.mu.Unlock()
		if !ok || host != simHost(v) {
			return fmt.Errorf("can't reach %v at %s", v, host)
		}
		s.connect(me, v)
		return nil
	}
	f.onNode = func(_ context.Context, v route.Vertex, channels bool) (
		*lndclient.NodeInfo, error) {

		return s.nodeInfo(v, channels)
	}
	f.onRoutes = func(_ context.Context, r lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		p := s.path(me, r.PubKey)
		if p == nil {
			return nil, lndclient.ErrNoRouteFound
		}
		return hopsOf(p), nil
	}
	f.onChannels = func(context.Context, bool, bool) (
		[]lndclient.ChannelInfo, error) {

		s.mu.Lock()
		defer s.mu.Unlock()
		var out []lndclient.ChannelInfo
		for _, v := range s.order {
			if s.edges[me][v] {
				c := lndclient.ChannelInfo{
					Active: true, PubKeyBytes: v,
				}
				garnish(v, &c, "Private")
				out = append(out, c)
			}
		}
		return out, nil
	}
	return f
}

func simHost(v route.Vertex) string {
	return fmt.Sprintf("%x.sim:9735", v[1:5])
}

func (s *simNet) nodeInfo(v route.Vertex, channels bool) (*lndclient.NodeInfo,
	error) {

	s.mu.Lock()
	defer s.mu.Unlock()
	info := &lndclient.NodeInfo{Node: &lndclient.Node{
		PubKey: v, Addresses: []string{simHost(v)},
		Features: []lndwire.FeatureBit{},
	}}
	info.ChannelCount = len(s.edges[v])
	if channels {
		for range s.edges[v] {
			info.Channels = append(info.Channels,
				edgeOf(v, len(info.Channels)))
		}
	}
	return info, nil
}

func hopsOf(p []route.Vertex) *lndclient.QueryRoutesResponse {
	resp := &lndclient.QueryRoutesResponse{}
	for _, v := range p {
		v := v
		hop := &lndclient.Hop{PubKey: &v}
		garnish(v, hop)
		resp.Hops = append(resp.Hops, hop)
	}
	return resp
}

// mix is a source of random numbers that costs next to nothing to set up.
type mix uint64

func (m *mix) Uint64() uint64 {
	*m += 0x9e3779b97f4a7c15
	z := uint64(*m)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (m *mix) Int63() int64 { return int64(m.Uint64() >> 1) }

func (m *mix) Seed(s int64) { *m = mix(s) }

// garnish fills the plain fields that aren't set of what lnd says about a node
// with values that depend on the node. They are of no concern to the code, so
// that nothing may depend on them.
func garnish(v route.Vertex, to interface{}, except ...string) {
	src := mix(binary.BigEndian.Uint64(v[1:]))
	r := rand.New(&src)
	s := reflect.ValueOf(to).Elem()
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		skip := !f.IsZero() || r.Intn(4) == 0
		for _, e := range except {
			skip = skip || s.Type().Field(i).Name == e
		}
		if skip {
			continue
		}
		switch f.Kind() {
		case reflect.Bool:
			f.SetBool(r.Intn(2) == 0)
		case reflect.Int, reflect.Int64:
			f.SetInt(r.Int63() >> uint(r.Intn(63)))
		case reflect.Uint32:
			f.SetUint(uint64(r.Uint32()))
		case reflect.Uint64:
			f.SetUint(r.Uint64() >> uint(r.Intn(64)))
		case reflect.String:
			f.SetString(fmt.Sprintf("%x", rbytes(r, r.Intn(12))))
		case reflect.Struct:
			if _, ok := f.Interface().(time.Time); ok {
				f.Set(reflect.ValueOf(time.Unix(
					int64(r.Uint32()), 0)))
			}
		}
	}
}

func peerOf(v route.Vertex) lndclient.Peer {
	p := lndclient.Peer{Pubkey: v}
	garnish(v, &p)
	return p
}

// edgeOf is one of the public channels of a node.
func edgeOf(v route.Vertex, i int) lndclient.ChannelEdge {
	at := v
	at[5] ^= byte(i)
	at[6] ^= byte(i >> 8)
	e := lndclient.ChannelEdge{Node1: v}
	garnish(at, &e)
	if at[7]%2 == 0 {
		e.Node1Policy = &lndclient.RoutingPolicy{}
		garnish(at, e.Node1Policy)
	}
	if at[7]%3 == 0 {
		e.Node2Policy = &lndclient.RoutingPolicy{}
		garnish(at, e.Node2Policy)
	}
	return e
}

// ---- events ----

// delivery is one call of a message handler.
type delivery struct {
	typ   uint64
	value []byte
	reply *rpath
	enc   []byte
}

func (d delivery) String() string {
	return fmt.Sprintf("%d=%x reply %s enc %x", d.typ, d.value, d.reply,
		d.enc)
}

// recorder is a log of events with a way to wait for it.
type recorder struct {
	mu   sync.Mutex
	log  []delivery
	sent []lndclient.CustomMessage
	wake chan struct{}
}

func newRecorder() *recorder { return &recorder{wake: make(chan struct{})} }

func (r *recorder) poke() {
	close(r.wake)
	r.wake = make(chan struct{})
}

// handler records deliveries for a type.
func (r *recorder) handler(typ uint64) onionmsg.OnionMessageHandler {
	return func(p *lnwire.ReplyPath, enc, val []byte) error {
		r.deliver(typ, p, enc, val)
		return nil
	}
}

func (r *recorder) deliver(typ uint64, p *lnwire.ReplyPath, enc, val []byte) {
	r.mu.Lock()
	r.log = append(r.log, delivery{
		typ: typ, value: append([]byte{}, val...),
		reply: fromReplyPath(p), enc: append([]byte{}, enc...),
	})
	r.poke()
	r.mu.Unlock()
}

// outgoing records a message that is sent.
func (r *recorder) outgoing(_ context.Context,
	m lndclient.CustomMessage) error {

	r.mu.Lock()
	r.sent = append(r.sent, m)
	r.poke()
	r.mu.Unlock()
	return nil
}

// take returns what was recorded, and forgets it.
func (r *recorder) take() ([]delivery, []lndclient.CustomMessage) {
	r.mu.Lock()
	defer r.mu.Unlock()
	l, s := r.log, r.sent
	r.log, r.sent = nil, nil
	return l, s
}

func (r *recorder) has(pred func([]delivery,
	[]lndclient.CustomMessage) bool) bool {

	r.mu.Lock()
	defer r.mu.Unlock()
	return pred(r.log, r.sent)
}

// sentinelType is the type of the payloads that mark the end of a batch.
const sentinelType = 0xfeed

// probe is a running messenger with recorders around it.
type probe struct {
	lnd  *fakeLnd
	m    *onionmsg.Messenger
	rec  *recorder
	down shutdowns
	n    uint64
	peer route.Vertex
	r    *rand.Rand
}

// newProbe starts a messenger with handlers for the given types.
func newProbe(r *rand.Rand, types ...uint64) *probe {
	return newProbeOn(r, newFakeLnd(rkey(r)), types...)
}

func newProbeOn(r *rand.Rand, f *fakeLnd, types ...uint64) *probe {
	p := &probe{lnd: f, rec: newRecorder(),
		peer: vertex(rkey(r).PubKey()), r: rand.New(rand.NewSource(r.Int63()))}
	p.lnd.onSend = p.rec.outgoing
	p.m = p.lnd.messenger(p.down.request)
	if err := p.m.Start(); err != nil {
		Fail("messenger start: %v", err)
	}
	for _, t := range append(types, sentinelType) {
		p.register(t, p.rec.handler(t))
	}
	return p
}

func (p *probe) register(t uint64, h onionmsg.OnionMessageHandler) {
	within("registering a handler", func() {
		if err := p.m.RegisterHandler(tlvType(t), h); err != nil {
			Fail("register handler for %d: %v", t, err)
		}
	})
}

func (p *probe) stop() {
	within("stopping the messenger", func() {
		if err := p.m.Stop(); err != nil {
			Fail("messenger stop: %v", err)
		}
	})
}

// toSelf makes a final hop message for this node with the given payloads.
func (p *probe) toSelf(r *rand.Rand, reply *rpath, final []rec) []byte {
	path := blindPath(rkey(r), []*btcec.PublicKey{p.lnd.key.PubKey()},
		[][]byte{nil})
	return refMessage(r, path, &rpayload{reply: reply, final: final})
}

// flush injects a sentinel and waits for it, after which all messages before
// it have been processed. It returns what was recorded, less the sentinel.
func (p *probe) flush() ([]delivery, []lndclient.CustomMessage) {
	p.n++
	val := u64(p.n)
	p.lnd.inject(p.peer, onionType, p.toSelf(p.r, nil, []rec{
		{sentinelType, val},
	}))
	p.waitSentinel(val)
	return p.results()
}

func isSentinel(d delivery, val []byte) bool {
	return d.typ == sentinelType && sameBytes(d.value, val)
}

func (p *probe) waitSentinel(val []byte) {
	eventually("delivery of a valid message to the node's handler "+
		"(after the messages of the case)", func() bool {

		return p.rec.has(func(l []delivery,
			_ []lndclient.CustomMessage) bool {

			for i := len(l) - 1; i >= 0; i-- {
				if isSentinel(l[i], val) {
					return true
				}
			}
			return false
		})
	})
}

func (p *probe) results() ([]delivery, []lndclient.CustomMessage) {
	l, s := p.rec.take()
	var out []delivery
	for _, d := range l {
		if d.typ != sentinelType {
			out = append(out, d)
		}
	}
	return out, s
}

func (p *probe) noShutdown() {
	if l := p.down.list(); len(l) != 0 {
		Fail("shutdown of the daemon requested: %v", l)
	}
}

// spin varies the schedule a little.
func spin(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.Intn(50); i > 0; i-- {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	}
}

// freshVertexKey gives the key of a node that is none of those in the pool, but
// may be the negation of one of them.
func freshVertexKey(r *rand.Rand, pool []*btcec.PrivateKey) *btcec.PrivateKey {
	for {
		k := rrelated(r, pool)
		dup := false
		for _, p := range pool {
			dup = dup || vertex(p.PubKey()) == vertex(k.PubKey())
		}
		if !dup {
			return k
		}
	}
}

// freshKeys gives the keys of different nodes, some of which are negations of
// others.
func freshKeys(r *rand.Rand, n int) []*btcec.PrivateKey {
	var out []*btcec.PrivateKey
	for len(out) < n {
		out = append(out, freshVertexKey(r, out))
	}
	return out
}

func tlvType(t uint64) tlv.Type { return tlv.Type(t) }
