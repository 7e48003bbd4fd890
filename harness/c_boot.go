package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lncfg"
	"github.com/lightningnetwork/lnd/lnrpc"
	"github.com/lightningnetwork/lnd/lnrpc/signrpc"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"

	"github.com/btcsuite/btcd/btcec/v2"
)

func init() {
	register("C25", "starts against an lnd that fails a number of times "+
		"or for good, in several ways; configurations and options; "+
		"complete instances on lnd's real grpc client that exchange "+
		"messages until they are stopped or lnd fails; non-trivial "+
		"when the configuration, faults and outcome are new", runC25)
}

// rpcLnd serves a simulated lnd over lnd's grpc apis.
type rpcLnd struct {
	lnrpc.UnimplementedLightningServer
	f *fakeLnd

	lis *bufconn.Listener
	srv *grpc.Server

	mu      sync.Mutex
	starts  []time.Time // calls of GetInfo
	fail    func(attempt int) error
	version *verrpc.Version
	network string
	conns   int64
}

func newRPCLnd(f *fakeLnd) *rpcLnd {
	l := &rpcLnd{f: f, network: "regtest", version: okVersion()}
	l.lis = bufconn.Listen(1 << 20)
	l.srv = grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(
		tlsCert())))
	lnrpc.RegisterLightningServer(l.srv, l)
	verrpc.RegisterVersionerServer(l.srv, &rpcVersion{l: l})
	signrpc.RegisterSignerServer(l.srv, &rpcSigner{l: l})
	lnrpc.RegisterStateServer(l.srv, &rpcState{})
	go func() { _ = l.srv.Serve(l.lis) }()
	return l
}

var certOnce sync.Once
var theCert tls.Certificate

// tlsCert is a certificate that signs itself.
func tlsCert() *tls.Certificate {
	certOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1),
			NotBefore: time.Now().Add(-time.Hour),
			NotAfter:  time.Now().Add(24 * time.Hour),
			DNSNames:  []string{"bufconn"}}
		der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl,
			&key.PublicKey, key)
		must(err)
		theCert = tls.Certificate{Certificate: [][]byte{der},
			PrivateKey: key}
	})
	return &theCert
}

func okVersion() *verrpc.Version {
	return &verrpc.Version{AppMajor: 0, AppMinor: 15, AppPatch: 0,
		BuildTags: []string{"signrpc", "walletrpc", "chainrpc",
			"invoicesrpc"}}
}

// newerVersion is a version that is supported as well.
func newerVersion(r *rand.Rand) *verrpc.Version {
	v := okVersion()
	switch r.Intn(5) {
	case 0:
		v.AppPatch = uint32(r.Intn(100))
	case 1:
		v.AppMinor, v.AppPatch = uint32(16+r.Intn(9)), uint32(r.Intn(9))
	case 2:
		v.AppMajor, v.AppMinor = 1, uint32(r.Intn(20))
	case 3:
		v.BuildTags = append([]string{"bolt12", "routerrpc"},
			v.BuildTags...)
		r.Shuffle(len(v.BuildTags), func(i, j int) {
			v.BuildTags[i], v.BuildTags[j] = v.BuildTags[j],
				v.BuildTags[i]
		})
	}
	return v
}

// unfitLnd is the version and network of an lnd that boltnd can't work with:
// it is too old (1), was built without a subserver (2), or is on another network
// (3).
func unfitLnd(how int, seed int64) (*verrpc.Version, string) {
	r := rand.New(rand.NewSource(seed))
	v := okVersion()
	switch how {
	case 1:
		// Also versions that the client library works with.
		v.AppMinor = []uint32{14, 14, 14, 13, 0}[r.Intn(5)]
		v.AppPatch = []uint32{0, 3, 4, 5, 99}[r.Intn(5)]
	case 2:
		at := r.Intn(len(v.BuildTags))
		v.BuildTags = append(v.BuildTags[:at:at],
			v.BuildTags[at+1:]...)
	case 3:
		return newerVersion(r), []string{"mainnet", "testnet", "simnet",
			""}[r.Intn(4)]
	}
	return v, "regtest"
}

type countedConn struct {
	net.Conn
	once sync.Once
	l    *rpcLnd
}

func (c *countedConn) Close() error {
	c.once.Do(func() { atomic.AddInt64(&c.l.conns, -1) })
	return c.Conn.Close()
}

// config connects to this lnd.
func (l *rpcLnd) config() *lndclient.LndServicesConfig {
	return &lndclient.LndServicesConfig{
		LndAddress: "bufconn", Network: lndclient.Network("regtest"),
		CustomMacaroonHex: "00", Insecure: true,
		CheckVersion: boltnd.MinimumLNDVersion,
		Dialer: func(context.Context, string) (net.Conn, error) {
			c, err := l.lis.Dial()
			if err != nil {
				return nil, err
			}
			atomic.AddInt64(&l.conns, 1)
			return &countedConn{Conn: c, l: l}, nil
		},
		RPCTimeout: patience,
	}
}

func (l *rpcLnd) attempts() []time.Time {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]time.Time{}, l.starts...)
}

func (l *rpcLnd) GetInfo(ctx context.Context, _ *lnrpc.GetInfoRequest) (
	*lnrpc.GetInfoResponse, error) {

	l.mu.Lock()
	l.starts = append(l.starts, time.Now())
	n, fail := len(l.starts), l.fail
	l.mu.Unlock()
	if fail != nil {
		if err := fail(n); err != nil {
			return nil, err
		}
	}
	v := l.f.vertex()
	return &lnrpc.GetInfoResponse{
		IdentityPubkey: hex.EncodeToString(v[:]),
		Chains:         []*lnrpc.Chain{{Chain: "bitcoin", Network: l.network}},
		SyncedToChain:  true,
	}, nil
}

func (l *rpcLnd) ListPeers(ctx context.Context, _ *lnrpc.ListPeersRequest) (
	*lnrpc.ListPeersResponse, error) {

	ps, err := l.f.ListPeers(ctx)
	if err != nil {
		return nil, err
	}
	out := &lnrpc.ListPeersResponse{}
	for _, p := range ps {
		out.Peers = append(out.Peers, &lnrpc.Peer{
			PubKey: hex.EncodeToString(p.Pubkey[:])})
	}
	return out, nil
}

func (l *rpcLnd) ConnectPeer(ctx context.Context, r *lnrpc.ConnectPeerRequest) (
	*lnrpc.ConnectPeerResponse, error) {

	v, err := route.NewVertexFromStr(r.Addr.Pubkey)
	if err != nil {
		return nil, err
	}
	return &lnrpc.ConnectPeerResponse{}, l.f.Connect(ctx, v, r.Addr.Host,
		r.Perm)
}

func (l *rpcLnd) ListChannels(ctx context.Context, r *lnrpc.ListChannelsRequest) (
	*lnrpc.ListChannelsResponse, error) {

	cs, err := l.f.ListChannels(ctx, r.ActiveOnly, r.PublicOnly)
	if err != nil {
		return nil, err
	}
	out := &lnrpc.ListChannelsResponse{}
	for _, c := range cs {
		out.Channels = append(out.Channels, &lnrpc.Channel{
			Active: c.Active, Private: c.Private,
			RemotePubkey: hex.EncodeToString(c.PubKeyBytes[:]),
		})
	}
	return out, nil
}

func (l *rpcLnd) GetNodeInfo(ctx context.Context, r *lnrpc.NodeInfoRequest) (
	*lnrpc.NodeInfo, error) {

	v, err := route.NewVertexFromStr(r.PubKey)
	if err != nil {
		return nil, err
	}
	i, err := l.f.GetNodeInfo(ctx, v, r.IncludeChannels)
	if err != nil {
		return nil, err
	}
	n := &lnrpc.LightningNode{PubKey: r.PubKey,
		Features: map[uint32]*lnrpc.Feature{}}
	for _, a := range i.Addresses {
		n.Addresses = append(n.Addresses, &lnrpc.NodeAddress{Addr: a})
	}
	for _, b := range i.Features {
		n.Features[uint32(b)] = &lnrpc.Feature{IsKnown: true}
	}
	out := &lnrpc.NodeInfo{Node: n, NumChannels: uint32(i.ChannelCount)}
	for range i.Channels {
		out.Channels = append(out.Channels, &lnrpc.ChannelEdge{
			Node1Pub: r.PubKey, Node2Pub: r.PubKey})
	}
	return out, nil
}

func (l *rpcLnd) QueryRoutes(ctx context.Context, r *lnrpc.QueryRoutesRequest) (
	*lnrpc.QueryRoutesResponse, error) {

	v, err := route.NewVertexFromStr(r.PubKey)
	if err != nil {
		return nil, err
	}
	q, err := l.f.QueryRoutes(ctx, lndclient.QueryRoutesRequest{PubKey: v})
	if err != nil {
		return nil, status.Error(codes.Unknown, err.Error())
	}
	rt := &lnrpc.Route{}
	for _, h := range q.Hops {
		rt.Hops = append(rt.Hops, &lnrpc.Hop{
			PubKey: hex.EncodeToString(h.PubKey[:])})
	}
	return &lnrpc.QueryRoutesResponse{Routes: []*lnrpc.Route{rt}}, nil
}

func (l *rpcLnd) SendCustomMessage(ctx context.Context,
	r *lnrpc.SendCustomMessageRequest) (*lnrpc.SendCustomMessageResponse,
	error) {

	v, err := route.NewVertexFromBytes(r.Peer)
	if err != nil {
		return nil, err
	}
	return &lnrpc.SendCustomMessageResponse{}, l.f.SendCustomMessage(ctx,
		lndclient.CustomMessage{Peer: v, MsgType: r.Type, Data: r.Data})
}

func (l *rpcLnd) SubscribeCustomMessages(_ *lnrpc.SubscribeCustomMessagesRequest,
	st lnrpc.Lightning_SubscribeCustomMessagesServer) error {

	msgs, errs, err := l.f.SubscribeCustomMessages(st.Context())
	if err != nil {
		return err
	}
	for {
		select {
		case m, ok := <-msgs:
			if !ok {
				return nil
			}
			if err := st.Send(&lnrpc.CustomMessage{Peer: m.Peer[:],
				Type: m.MsgType, Data: m.Data}); err != nil {
				return err
			}
		case err, ok := <-errs:
			if !ok {
				return nil
			}
			return err
		}
	}
}

type rpcVersion struct {
	verrpc.UnimplementedVersionerServer
	l *rpcLnd
}

func (s *rpcVersion) GetVersion(context.Context, *verrpc.VersionRequest) (
	*verrpc.Version, error) {

	return s.l.version, nil
}

type rpcSigner struct {
	signrpc.UnimplementedSignerServer
	l *rpcLnd
}

func (s *rpcSigner) DeriveSharedKey(ctx context.Context,
	r *signrpc.SharedKeyRequest) (*signrpc.SharedKeyResponse, error) {

	pub, err := btcec.ParsePubKey(r.EphemeralPubkey)
	if err != nil {
		return nil, err
	}
	loc := &keychain.KeyLocator{Family: keychain.KeyFamilyNodeKey}
	if r.KeyLoc != nil {
		loc = &keychain.KeyLocator{
			Family: keychain.KeyFamily(r.KeyLoc.KeyFamily),
			Index:  uint32(r.KeyLoc.KeyIndex),
		}
	}
	k, err := (&fakeSigner{lnd: s.l.f}).DeriveSharedKey(ctx, pub, loc)
	return &signrpc.SharedKeyResponse{SharedKey: k[:]}, err
}

type rpcState struct{ lnrpc.UnimplementedStateServer }

func (s *rpcState) SubscribeState(_ *lnrpc.SubscribeStateRequest,
	st lnrpc.State_SubscribeStateServer) error {

	_ = st.Send(&lnrpc.SubscribeStateResponse{
		State: lnrpc.WalletState_SERVER_ACTIVE})
	<-st.Context().Done()
	return nil
}

func (s *rpcState) GetState(context.Context, *lnrpc.GetStateRequest) (
	*lnrpc.GetStateResponse, error) {

	return &lnrpc.GetStateResponse{State: lnrpc.WalletState_SERVER_ACTIVE},
		nil
}

// daemon is a complete instance on an lnd.
type daemon struct {
	b      *boltnd.Boltnd
	l      *rpcLnd
	down   int64
	lis    *bufconn.Listener
	srv    *grpc.Server
	conn   *grpc.ClientConn
	client offersrpc.OffersClient
}

func newDaemon(l *rpcLnd, retries uint8, wait time.Duration, closure bool,
	onDown func(*daemon)) *daemon {

	d := &daemon{l: l}
	opts := []boltnd.ConfigOption{
		boltnd.OptionLNDClient(l.config()),
		func(c *boltnd.Config) error {
			c.LNDRetires, c.LNDWait = retries, wait
			return nil
		},
	}
	if closure {
		opts = append(opts, boltnd.OptionRequestShutdown(func() {
			atomic.AddInt64(&d.down, 1)
			if onDown != nil {
				onDown(d)
			}
		}))
	}
	d.b = plainBoltnd(opts...)
	d.lis = bufconn.Listen(1 << 20)
	d.srv = grpc.NewServer()
	if err := d.b.RegisterGrpcSubserver(d.srv); err != nil {
		Fail("register: %v", err)
	}
	go func() { _ = d.srv.Serve(d.lis) }()
	var err error
	d.conn, err = grpc.Dial("bufconn", grpc.WithInsecure(),
		grpc.WithContextDialer(func(context.Context, string) (net.Conn,
			error) {
			return d.lis.Dial()
		}))
	must(err)
	d.client = offersrpc.NewOffersClient(d.conn)
	return d
}

func (d *daemon) start() (err error) {
	within("start of the daemon", func() { err = d.b.Start() })
	return
}

func (d *daemon) stop() {
	within("stop of the daemon", func() {
		if err := d.b.Stop(); err != nil {
			Fail("stop: %v", err)
		}
	})
}

func (d *daemon) close() {
	_ = d.conn.Close()
	d.srv.Stop()
	d.l.srv.Stop()
}

// stoppedStart stops an instance before, while or after it tries to start.
func stoppedStart(v *V, r *rand.Rand) {
	f := newFakeLnd(rkey(r))
	l := newRPCLnd(f)
	defer l.srv.Stop()
	retries := uint8(r.Intn(4))
	failing := r.Intn(int(retries) + 2)
	wait := time.Duration(r.Intn(30)) * time.Millisecond
	slow := time.Duration(r.Intn(3)*r.Intn(5000)) * time.Microsecond
	begun := make(chan struct{})
	var first sync.Once
	l.fail = func(n int) error {
		first.Do(func() { close(begun) })
		time.Sleep(slow)
		if n <= failing {
			return status.Error(codes.Unavailable, "starting")
		}
		return nil
	}
	d := newDaemon(l, retries, wait, true, nil)
	defer d.close()
	late := time.Duration(r.Intn(2)*r.Intn(100)) * time.Millisecond
	order, err := overlap(r, d.b.Start, func() error {
		time.Sleep(late)
		return d.b.Stop()
	}, begun)
	what := fmt.Sprintf("start and stop (%s, start gave %v)", order, err)
	if failing > int(retries) && err == nil {
		Fail("%s, lnd never worked", what)
	}
	eventually("connections to lnd are closed after "+what, func() bool {
		return atomic.LoadInt64(&l.conns) == 0
	})
	eventually("subscriptions end after "+what, func() bool {
		return f.liveStreams() == 0
	})
	if x := atomic.LoadInt64(&d.down); x != 0 {
		Fail("%d shutdown requests after %s", x, what)
	}
	if err := d.b.Start(); err == nil {
		Fail("start after %s succeeded", what)
	}
	if err := d.b.Stop(); err == nil {
		Fail("stop after %s succeeded", what)
	}
	// Where the stop came first, nothing may have been started since.
	time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	if n := atomic.LoadInt64(&l.conns); n != 0 {
		Fail("%d connections after %s", n, what)
	}
	v.Count("stopped starts", 1)
	v.Count("stopped starts, started: "+fmt.Sprint(err == nil), 1)
	v.Distinct("stopped", order, retries, failing, err == nil)
}

func pace(v *V, r *rand.Rand) {
	l := newRPCLnd(newFakeLnd(rkey(r)))
	defer l.srv.Stop()
	retries := 2 + r.Intn(3)
	wait := time.Duration(300+r.Intn(500)) * time.Millisecond
	var texts []string
	for j := 0; j <= retries; j++ {
		texts = append(texts, fmt.Sprintf("failure %d", r.Int63()))
	}
	hows, seeds := make([]int, retries+1), make([]int64, retries+1)
	for j := range hows {
		hows[j], seeds[j] = r.Intn(4), r.Int63()
	}
	succeeds := r.Intn(3) == 0
	var pulse []int64
	l.fail = func(n int) error {
		l.mu.Lock()
		defer l.mu.Unlock()
		l.version, l.network = okVersion(), "regtest"
		if n > retries+1 {
			return nil
		}
		pulse = append(pulse, atomic.LoadInt64(&beats))
		if n == retries+1 && succeeds {
			return nil
		}
		if hows[n-1] != 0 {
			l.version, l.network = unfitLnd(hows[n-1], seeds[n-1])
			return nil
		}
		return status.Error(codes.Code(1+(n+retries)%16), texts[n-1])
	}
	d := newDaemon(l, uint8(retries), wait, true, nil)
	defer d.close()
	err := d.start()
	if succeeds != (err == nil) {
		Fail("start: %v, want success %v, failures %v", err, succeeds,
			hows)
	}
	at := l.attempts()
	if len(at) < retries+1 {
		Fail("%d attempts, want %d", len(at), retries+1)
	}
	for j := 1; j <= retries; j++ {
		// Time in which this process did get to run.
		gap := time.Duration(pulse[j]-pulse[j-1]) * 10 * time.Millisecond
		if real := at[j].Sub(at[j-1]); real < gap {
			gap = real
		}
		if gap < wait-50*time.Millisecond &&
			at[j].Sub(at[j-1]) < wait {

			Fail("attempt %d came after %v, the wait is %v", j+1,
				at[j].Sub(at[j-1]), wait)
		}
		if gap > wait+500*time.Millisecond && gap > wait*17/10 {
			Fail("attempt %d came after %v, the wait is %v", j+1,
				gap, wait)
		}
	}
	if !succeeds {
		ok := true
		switch hows[retries] {
		case 1, 2:
			ok = strings.Contains(err.Error(), "lnd version")
		case 3:
			_, network := unfitLnd(3, seeds[retries])
			ok = strings.Contains(err.Error(), "'"+network+"'")
		default:
			ok = strings.Contains(err.Error(), texts[retries])
		}
		if !ok {
			Fail("start failed with %v, the last attempt failed in "+
				"another way (%v, %q)", err, hows, texts)
		}
	}
	d.stop()
	v.Count("paced attempts", int64(retries+1))
	v.Distinct("pace", retries, hows, succeeds)
}

func runC25(v *V) {
	v.Assume("lnd is lnd's grpc interface, served in the same process and " +
		"called with the real lndclient")

	v.Cases("attempts", 8, v.N(300, 3000), func(i int, r *rand.Rand) {
		l := newRPCLnd(newFakeLnd(rkey(r)))
		defer l.srv.Stop()
		retries := uint8(r.Intn(6))
		wait := time.Duration(r.Intn(8)) * time.Millisecond
		if i == 0 {
			// The largest number, which must not wrap around.
			retries, wait = 255, 0
		}
		max := int(retries) + 1
		// The first attempts fail, maybe all of them.
		failing := r.Intn(max + 2)
		if i == 0 {
			failing = max - 1
		}
		// They may all fail in the same way, or in different ways.
		hows, same := make([]int, failing), r.Intn(2) == 0
		for j := range hows {
			hows[j] = r.Intn(4)
			if same {
				hows[j] = hows[0]
			}
		}
		good, seed := newerVersion(r), r.Int63()
		l.fail = func(n int) error {
			l.mu.Lock()
			defer l.mu.Unlock()
			l.version, l.network = good, "regtest"
			if n > failing {
				return nil
			}
			if hows[n-1] == 0 {
				// Any kind of failure is worth another try.
				x := mix(seed + int64(n/2))
				return status.Error(codes.Code(1+x.Uint64()%16),
					[]string{"starting", "permission denied",
						"unknown service verrpc.Versioner",
						"rpc error: code = 12", ""}[x.Uint64()%5])
			}
			l.version, l.network = unfitLnd(hows[n-1],
				seed+int64(n))
			return nil
		}
		d := newDaemon(l, retries, wait, true, nil)
		defer d.close()
		began := time.Now()
		err := d.start()
		took := time.Since(began)
		l.mu.Lock()
		l.fail = nil
		l.mu.Unlock()
		at := l.attempts()
		// After an attempt that worked, lnd may be asked for its
		// identity again, over the same connection.
		got, want := len(at), failing+1
		ok := want <= max
		if !ok {
			want = max
		} else if got > want {
			got = want
		}
		what := fmt.Sprintf("%d retries, the first %d attempts fail %v",
			retries, failing, hows)
		if ok != (err == nil) {
			Fail("start: %v after %d attempts: %s", err, got, what)
		}
		if got != want {
			Fail("%d attempts, want %d: %s", got, want, what)
		}
		for j := 1; j < want; j++ {
			// Measured at the call that comes some time after the
			// wait, each time.
			if d := at[j].Sub(at[j-1]); d < wait {
				Fail("attempt %d came %v after the one before, "+
					"the wait is %v", j+1, d, wait)
			}
		}
		if min := wait * time.Duration(want-1); took < min {
			Fail("%d attempts took %v, wait %v", want, took, wait)
		}
		eventually("one connection is open after a start that worked, "+
			"none else", func() bool {
			return (atomic.LoadInt64(&l.conns) == 1) == ok
		})
		if err := d.start(); err == nil {
			Fail("second start succeeded")
		}
		if n := len(l.attempts()); n != len(at) {
			Fail("second start connected to lnd")
		}
		ctx, cancel := context.WithTimeout(context.Background(),
			20*time.Millisecond)
		if !ok {
			_, err := d.client.GenerateBlindedRoute(ctx,
				&offersrpc.GenerateBlindedRouteRequest{})
			if c := status.Code(err); c != codes.Unavailable &&
				c != codes.DeadlineExceeded {
				Fail("call of a daemon that failed to start: "+
					"%v", err)
			}
		}
		cancel()
		d.stop()
		if err := d.b.Stop(); err == nil {
			Fail("second stop succeeded")
		}
		eventually("all connections to lnd are closed after the stop",
			func() bool { return atomic.LoadInt64(&l.conns) == 0 })
		v.Count(fmt.Sprintf("starts ok=%v", ok), 1)
		v.Count("attempts", int64(got))
		v.Distinct(retries, failing, fmt.Sprint(hows))
		v.Sample("attempts", what)
	})

	// The wait between attempts is what was configured each time, and the
	// last failure is the one that is reported.
	v.Cases("pace", 12, v.N(12, 60), func(i int, r *rand.Rand) {
		pace(v, r)
	})

	v.Cases("stopped start", 8, v.N(80, 800), func(i int, r *rand.Rand) {
		stoppedStart(v, r)
	})

	v.Cases("config", 1, v.N(2000, 20000), func(i int, r *rand.Rand) {
		c := boltnd.DefaultConfig()
		if err := c.Validate(); err != nil {
			Fail("default config: %v", err)
		}
		ver := okVersion()
		ver.AppMajor = uint32(r.Intn(2))
		ver.AppMinor = uint32(13 + r.Intn(4))
		ver.AppPatch = uint32(r.Intn(3))
		cfg := &lndclient.LndServicesConfig{CheckVersion: ver}
		wait := time.Duration(r.Intn(5)-2) * time.Duration(r.Intn(1000))
		ok := wait >= 0 && (ver.AppMajor > 0 || ver.AppMinor >= 15)
		switch r.Intn(8) {
		case 0:
			cfg, ok = nil, false
		case 1:
			cfg.CheckVersion, ok = nil, false
		}
		setWait := func(c *boltnd.Config) error {
			c.LNDWait = wait
			return nil
		}
		opts := []boltnd.ConfigOption{boltnd.OptionLNDClient(cfg),
			setWait}
		if r.Intn(10) == 0 {
			opts = append(opts, func(*boltnd.Config) error {
				return bareErr(r)
			})
			ok = false
		}
		r.Shuffle(len(opts), func(a, b int) {
			opts[a], opts[b] = opts[b], opts[a]
		})
		b, err := boltnd.NewBoltnd(opts...)
		if ok != (err == nil) || ok != (b != nil) {
			Fail("new instance: %v, want success: %v (check "+
				"version %v, wait %v)", err, ok, ver, wait)
		}
		v.Count(fmt.Sprintf("configurations ok=%v", ok), 1)
		v.Distinct("config", ver.AppMajor, ver.AppMinor, ver.AppPatch,
			wait, cfg == nil)
	})

	v.Cases("options", 1, v.N(300, 3000), func(i int, r *rand.Rand) {
		// lnd's own configuration is taken over.
		c := boltnd.DefaultConfig()
		lc := &lnd.Config{
			Bitcoin:      &lncfg.Chain{},
			AdminMacPath: fmt.Sprintf("/mac%d", r.Int()),
			TLSCertPath:  fmt.Sprintf("/tls%d", r.Int()),
		}
		addr := &net.TCPAddr{IP: net.IP(rbytes(r, 4)), Port: 1 +
			r.Intn(65535)}
		listeners := r.Intn(3)
		for k := 0; k < listeners; k++ {
			lc.RPCListeners = append(lc.RPCListeners, addr)
			addr = &net.TCPAddr{IP: net.IP(rbytes(r, 4)), Port: 1}
		}
		network := []string{"mainnet", "testnet", "regtest", ""}[r.Intn(4)]
		lc.Bitcoin.MainNet = network == "mainnet"
		lc.Bitcoin.TestNet3 = network == "testnet"
		lc.Bitcoin.RegTest = network == "regtest"
		lc.Bitcoin.SimNet = network == ""
		err := boltnd.OptionLNDConfig(lc)(c)
		ok := listeners > 0 && network != ""
		if ok != (err == nil) {
			Fail("option for lnd's configuration: %v (%d listeners, "+
				"network %q)", err, listeners, network)
		}
		if ok {
			g := c.LndClientCfg
			if g.LndAddress != lc.RPCListeners[0].String() ||
				g.CustomMacaroonPath != lc.AdminMacPath ||
				g.MacaroonDir != "" || g.CustomMacaroonHex != "" ||
				g.TLSPath != lc.TLSCertPath || g.Insecure ||
				string(g.Network) != network ||
				!g.BlockUntilChainSynced ||
				!g.BlockUntilUnlocked {

				Fail("wrong configuration %+v from %+v", g, lc)
			}
			if err := c.Validate(); err != nil {
				Fail("invalid configuration: %v", err)
			}
		}
		v.Count(fmt.Sprintf("lnd configurations ok=%v", ok), 1)
		v.Distinct("option", listeners, network)
	})

	v.Cases("loggers", 1, 1, func(i int, r *rand.Rand) {
		var mu sync.Mutex
		seen := map[string]int{}
		var regs []boltnd.LogRegistration
		plainBoltnd(boltnd.OptionSetupLogger(func(p string,
			reg boltnd.LogRegistration) {

			mu.Lock()
			defer mu.Unlock()
			seen[p]++
			regs = append(regs, reg)
			reg(btclog.Disabled)
		}))
		if len(seen) != 5 || len(regs) != 5 {
			Fail("loggers set up: %v", seen)
		}
		v.Count("loggers", int64(len(regs)))
	})

	// Complete instances.
	v.Cases("daemons", 4, v.N(80, 1200), func(i int, r *rand.Rand) {
		net := newSimNet()
		n := 2 + r.Intn(2)
		var fs []*fakeLnd
		for j := 0; j < n; j++ {
			fs = append(fs, net.add(rkey(r)))
			if j > 0 {
				net.channel(fs[j-1].vertex(), fs[j].vertex())
			}
		}
		closure := r.Intn(4) != 0
		stopInClosure := r.Intn(2) == 0
		gone := make([]chan struct{}, n)
		var ds []*daemon
		for j, f := range fs {
			done, once := make(chan struct{}), sync.Once{}
			gone[j] = done
			d := newDaemon(newRPCLnd(f), 1, time.Millisecond, closure,
				func(d *daemon) {
					// As lnd does on a request.
					if stopInClosure {
						go func() {
							_ = d.b.Stop()
							once.Do(func() { close(done) })
						}()
					}
				})
			defer d.close()
			if err := d.start(); err != nil {
				Fail("start: %v", err)
			}
			ds = append(ds, d)
		}
		// Messages from the first to the last, and an answer.
		last := ds[n-1]
		s := subscribe(last.conn, n-1, 64, nil)
		back := subscribe(ds[0].conn, 0, 65, nil)
		(&node{lnd: fs[n-1]}).warm(r, s)
		(&node{lnd: fs[0]}).warm(r, back)
		to := fs[n-1].vertex()
		ctx, cancel := context.WithTimeout(context.Background(),
			4*patience)
		defer cancel()
		var sent [][]byte
		path, err := ds[0].client.GenerateBlindedRoute(ctx,
			&offersrpc.GenerateBlindedRouteRequest{})
		if err != nil {
			Fail("generating a path: %v", err)
		}
		for k := 0; k < 3; k++ {
			val := rbytes(r, 20)
			_, err := ds[0].client.SendOnionMessage(ctx,
				&offersrpc.SendOnionMessageRequest{
					Pubkey: to[:], ReplyPath: path.Route,
					FinalPayloads: map[uint64][]byte{64: val},
				})
			if err != nil {
				Fail("send: %v", err)
			}
			sent = append(sent, val)
		}
		eventually("messages over lnd's grpc interface arrive",
			func() bool { return len(noWarm(s.list())) >= 3 })
		for k, rc := range noWarm(s.list()) {
			if k >= 3 || !sameBytes(rc.value, sent[k]) ||
				rc.reply.String() != rpcPath(path.Route).String() {
				Fail("message %d is %x (reply path %s), sent %x",
					k, rc.value, rc.reply, sent)
			}
			v.Count("messages", 1)
		}
		// Two daemons are neighbours, so the sender of the answer may
		// be the introduction node itself: no claim.
		if !sameBytes(path.Route.IntroductionNode, to[:]) {
			val := rbytes(r, 20)
			_, err := last.client.SendOnionMessage(ctx,
				&offersrpc.SendOnionMessageRequest{
					BlindedDestination: path.Route,
					FinalPayloads:      map[uint64][]byte{65: val},
				})
			if err != nil {
				Fail("answer: %v", err)
			}
			eventually("the answer arrives", func() bool {
				return len(noWarm(back.list())) >= 1
			})
			if l := noWarm(back.list()); !sameBytes(l[0].value, val) {
				Fail("answer is %x, want %x", l[0].value, val)
			}
			v.Count("answers", 1)
		}

		// The end, for some of them by a failure of lnd.
		fails := r.Intn(n + 1)
		how := []string{"error", "close", "connection"}[r.Intn(3)]
		for j, d := range ds {
			if j >= fails {
				if x := atomic.LoadInt64(&d.down); x != 0 {
					Fail("%d shutdown requests", x)
				}
				d.stop()
				continue
			}
			if how == "connection" {
				d.l.srv.Stop()
			} else {
				fs[j].end(how, bareErr(r))
			}
			if closure {
				eventually("a shutdown is requested when lnd "+
					"fails", func() bool {
					return atomic.LoadInt64(&d.down) >= 1
				})
			} else {
				spin(r)
			}
			if closure && stopInClosure {
				await(gone[j], "stop on request")
			} else {
				d.stop()
			}
			if x := atomic.LoadInt64(&d.down); x > 1 {
				Fail("%d shutdown requests", x)
			}
			v.Count("lnd failures", 1)
		}
		for j, d := range ds {
			d := d
			if x := atomic.LoadInt64(&d.down); j >= fails && x != 0 {
				Fail("%d shutdown requests by a stop", x)
			}
			eventually("connections to lnd are closed", func() bool {
				return atomic.LoadInt64(&d.l.conns) == 0
			})
		}
		for _, x := range []*sub{s, back} {
			await(x.done, "subscriptions end with the daemon")
			if status.Code(x.err) != codes.Aborted {
				Fail("subscription ended with %v", x.err)
			}
		}
		v.Count("daemons stopped", int64(n))
		v.Distinct(n, closure, stopInClosure, fails, how)
	})

	v.Require("starts ok=true", 50)
	v.Require("starts ok=false", 10)
	v.Require("configurations ok=true", 400)
	v.Require("configurations ok=false", 400)
	v.Require("messages", 100)
	v.Require("answers", 10)
	v.Require("lnd failures", 20)
	v.Require("loggers", 5)
	v.Require("paced attempts", 20)
	v.Require("stopped starts", 40)
}
