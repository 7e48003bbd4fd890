package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
)

func init() {
	register("C26", "the race detector watches whole instances under "+
		"concurrent use of all apis, arriving messages, failures, "+
		"starts and stops; non-trivial when the mix of events is new",
		runC26)
}

// tolerant runs a workload whose verdict is the race detector's alone.
func tolerant(v *V, what string, f func()) {
	// A workload that doesn't work takes long, and shows little.
	given := "given up: " + what
	if v.counted(given) >= 2 {
		return
	}
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if _, ok := x.(violation); ok {
			// Judged by another property.
			v.Count(given, 1)
			return
		}
		panic(x)
	}()
	f()
	v.Count(what, 1)
}

// loud sets up all loggers, so that what they read is watched too. The
// formatted text goes nowhere.
func loud() {
	plainBoltnd(boltnd.OptionSetupLogger(func(_ string,
		reg boltnd.LogRegistration) {

		reg(&jitterLog{btclog.Disabled})
	}))
}

// coin gives a number below n, with nothing shared between its callers: locks
// would hide from the race detector what they order by accident.
func coin(n int) int {
	m := mix(time.Now().UnixNano())
	return int(m.Uint64() % uint64(n))
}

// jitterLog varies the schedule wherever something is logged. It has no lock.
type jitterLog struct {
	btclog.Logger
}

func (l *jitterLog) Level() btclog.Level { return btclog.LevelTrace }

func (l *jitterLog) logf(f string, p []interface{}) {
	_, _ = fmt.Fprintf(io.Discard, f, p...)
	jitter()
}

func (l *jitterLog) log(p []interface{}) {
	_, _ = fmt.Fprint(io.Discard, p...)
	jitter()
}

func jitter() {
	switch coin(12) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := coin(50); i > 0; i-- {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(coin(300)) * time.Microsecond)
	}
}

func (l *jitterLog) Tracef(f string, p ...interface{}) { l.logf(f, p) }

func (l *jitterLog) Trace(p ...interface{}) { l.log(p) }

func (l *jitterLog) Debugf(f string, p ...interface{}) { l.logf(f, p) }

func (l *jitterLog) Debug(p ...interface{}) { l.log(p) }

func (l *jitterLog) Infof(f string, p ...interface{}) { l.logf(f, p) }

func (l *jitterLog) Info(p ...interface{}) { l.log(p) }

func (l *jitterLog) Warnf(f string, p ...interface{}) { l.logf(f, p) }

func (l *jitterLog) Warn(p ...interface{}) { l.log(p) }

func (l *jitterLog) Errorf(f string, p ...interface{}) { l.logf(f, p) }

func (l *jitterLog) Error(p ...interface{}) { l.log(p) }

func (l *jitterLog) Criticalf(f string, p ...interface{}) { l.logf(f, p) }

func (l *jitterLog) Critical(p ...interface{}) { l.log(p) }

func runC26(v *V) {
	if !raceEnabled {
		v.Assume("built without the race detector: nothing was decided")
		v.incon = "built without the race detector"
		return
	}
	loud()

	v.Cases("network", 2, v.N(4, 150), func(i int, r *rand.Rand) {
		tolerant(v, "networks", func() {
			t := newNetRun(v, r, 3+r.Intn(3))
			t.workload(5)
			t.check(false)
			t.stop()
		})
		v.Distinct("network", i)
	})

	// One instance, with everything going on at once.
	v.Cases("storm", 2, v.N(16, 800), func(i int, r *rand.Rand) {
		tolerant(v, "storms", func() { storm(v, r) })
	})

	// Registrations and messages directly at the messenger, and its end.
	v.Cases("messenger", 2, v.N(16, 800), func(i int, r *rand.Rand) {
		tolerant(v, "messengers", func() { messengerStorm(v, r) })
	})

	// Codecs on shared data: decoding and encoding don't write to it.
	v.Cases("codecs", 2, v.N(30, 1500), func(i int, r *rand.Rand) {
		tolerant(v, "codecs", func() { codecStorm(v, r) })
	})

	// Starts and stops at the same time.
	v.Cases("starts", 1, v.N(120, 3000), func(i int, r *rand.Rand) {
		tolerant(v, "starts and stops", func() {
			switch r.Intn(6) {
			case 0, 1:
				overlapMessenger(v, r)
			case 2, 3:
				overlapServer(v, r)
			default:
				stoppedStart(v, r)
			}
		})
	})

	// Complete instances, used and stopped by several goroutines.
	v.Cases("daemons", 2, v.N(6, 200), func(i int, r *rand.Rand) {
		tolerant(v, "daemons", func() { daemonStorm(v, r) })
	})

	// Calls don't affect each other's results.
	v.Cases("results", 2, v.N(16, 800), func(i int, r *rand.Rand) {
		results(v, r)
	})
	v.Cases("sends", 2, v.N(8, 400), func(i int, r *rand.Rand) {
		sends(v, r)
		sharedSends(v, r)
	})

	v.Require("storms", 1)
	v.Require("messengers", 1)
	v.Require("starts and stops", 10)
	v.Require("daemons", 1)
	v.Require("results compared", 1000)
	v.Require("messages of concurrent sends compared", 50)
}

// storm starts, uses and stops an instance concurrently.
func storm(v *V, r *rand.Rand) {
	n, peer := gateNode(r)
	recs, _ := validRecs(r, kOffer, 1)
	offer := bech32NoSum("lno", encRecs(recs))
	var wg sync.WaitGroup
	done := make(chan struct{})
	worker := func(k int) {
		defer wg.Done()
		var calls int64
		defer func() { v.Count("calls", calls) }()
		wr := rand.New(rand.NewSource(int64(k)))
		for {
			select {
			case <-done:
				return
			default:
			}
			ctx, cancel := context.WithTimeout(
				context.Background(),
				time.Duration(1+wr.Intn(60))*time.Millisecond)
			switch wr.Intn(5) {
			case 0:
				_, _ = n.client.DecodeOffer(ctx,
					&offersrpc.DecodeOfferRequest{
						Offer: offer})
			case 1:
				_, _ = n.client.GenerateBlindedRoute(ctx,
					&offersrpc.GenerateBlindedRouteRequest{})
			case 2:
				_, _ = n.client.SendOnionMessage(ctx,
					&offersrpc.SendOnionMessageRequest{
						Pubkey: peer, ReplyPath: rpcBlinded(
							rpathGen(wr, 2, 20)),
						FinalPayloads: map[uint64][]byte{
							64: rbytes(wr, 20)},
						DirectConnect: wr.Intn(2) == 0,
					})
			default:
				_ = n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: uint64(64 + wr.Intn(4))},
					&fakeStream{ctx: ctx, send: func(x *offersrpc.SubscribeOnionPayloadResponse) error {
						_ = len(x.Value)
						if wr.Intn(5) == 0 {
							return bareErr(wr)
						}
						return nil
					}})
			}
			cancel()
			calls++
		}
	}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go worker(k + r.Int()>>8)
	}
	// Messages to us, to forward, replayed, and junk.
	p := &probe{lnd: n.lnd}
	inject := func(count int) {
		var last []byte
		for j := 0; j < count; j++ {
			var m []byte
			switch r.Intn(5) {
			case 0:
				m = rbytes(r, r.Intn(1500))
			case 1:
				m = last
			default:
				m = p.toSelf(r, rpathGen(r, 2, 20), sortRecs(
					[]rec{{64, rbytes(r, 20)},
						{65, rbytes(r, 20)}}))
			}
			last = m
			n.lnd.inject(n.lnd.vertex(), onionType, m)
			if r.Intn(3) == 0 {
				spin(r)
			}
		}
	}
	spin(r)
	inject(10)
	if err := n.srv.Start(n.lnd.services()); err != nil {
		Fail("start: %v", err)
	}
	inject(60)
	spin(r)
	if r.Intn(3) == 0 {
		n.lnd.end(endings[r.Intn(len(endings))].how, bareErr(r))
	}
	time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	within("stop", func() { _ = n.srv.Stop() })
	close(done)
	within("calls", wg.Wait)
	n.closeGrpc()
	v.Distinct("storm", r.Int63())
}

func messengerStorm(v *V, r *rand.Rand) {
	p := newProbe(r)
	var wg sync.WaitGroup
	done := make(chan struct{})
	var hits int64
	for k := 0; k < 5; k++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-done:
					return
				default:
				}
				t := tlvType(uint64(64 + wr.Intn(3)))
				if wr.Intn(2) == 0 {
					_ = p.m.RegisterHandler(t, func(
						rp *lnwire.ReplyPath, enc,
						val []byte) error {

						// What a handler is given is
						// its own to read.
						go func() {
							_ = fmt.Sprint(rp, enc,
								val)
						}()
						atomic.AddInt64(&hits, 1)
						return nil
					})
				} else {
					_ = p.m.DeregisterHandler(t)
				}
				spin(wr)
			}
		}()
	}
	// Senders share a request.
	key := rkey(r)
	reply := rpathGen(r, 2, 20)
	// Those who send to us may become peers of ours in between.
	shy := []*btcec.PrivateKey{rkey(r), rkey(r)}
	p.lnd.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		out := []lndclient.Peer{{Pubkey: vertex(key.PubKey())}}
		if coin(3) == 0 {
			for _, k := range shy {
				out = append(out, lndclient.Peer{
					Pubkey: vertex(k.PubKey())})
			}
		}
		return out, nil
	}
	p.lnd.onNode = func(_ context.Context, v route.Vertex, _ bool) (
		*lndclient.NodeInfo, error) {

		return &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v,
			Addresses: []string{"10.0.0.1:9735"}}}, nil
	}
	p.lnd.onConnect = func(context.Context, route.Vertex, string,
		bool) error {

		return nil
	}
	p.lnd.onRoutes = func(context.Context, lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf([]route.Vertex{vertex(key.PubKey())}), nil
	}
	req := onionmsg.NewSendMessageRequest(key.PubKey(), nil,
		reply.toReplyPath(), []*lnwire.FinalHopPayload{{
			TLVType: 64, Value: rbytes(r, 10)}}, false)
	for k := 0; k < 3; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 10; j++ {
				_ = p.m.SendMessage(context.Background(), req)
			}
			v.Count("sends of a shared request", 10)
		}()
	}
	for k := 0; k < 2; k++ {
		direct := onionmsg.NewSendMessageRequest(shy[k].PubKey(), nil,
			reply.toReplyPath(), nil, true)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 4; j++ {
				ctx, cancel := context.WithTimeout(
					context.Background(),
					50*time.Millisecond)
				_ = p.m.SendMessage(ctx, direct)
				cancel()
			}
			v.Count("direct sends to others than peers", 4)
		}()
	}
	for j := 0; j < 40; j++ {
		from := p.peer
		if j%3 == 0 {
			from = vertex(shy[j%2].PubKey())
		}
		p.lnd.inject(from, onionType, p.toSelf(r, reply, sortRecs(
			[]rec{{64, rbytes(r, 20)}, {65, rbytes(r, 9)}})))
	}
	p.flush()
	close(done)
	within("workers", wg.Wait)
	p.stop()
	v.Count("handled", atomic.LoadInt64(&hits))
	v.Distinct("messenger", r.Int63())
}

func codecStorm(v *V, r *rand.Rand) {
	k := pickKind(r)
	recs, key := validRecs(r, k, 2)
	recs = setRec(recs, 240, signDigest(key, refDigest(k.tag, "signature",
		refRoot(recs))))
	b := encRecs(recs)
	m, err := decodeMsg(k, b)
	if err != nil {
		Fail("decode: %v", err)
	}
	pay := refMessage(r, blindPath(rkey(r), []*btcec.PublicKey{
		rkey(r).PubKey(), rkey(r).PubKey()}, [][]byte{nil, nil}), &rpayload{reply: rpathGen(r, 2, 20), final: []rec{
		{64, rbytes(r, 5)}}})
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				_, _ = decodeMsg(k, b)
				_, _ = m.encode()
				_ = m.validate()
				_ = m.fields()
				om := &lnwire.OnionMessage{}
				_ = om.Decode(bytes.NewReader(pay), 0)
			}
			v.Count("codec calls", 20)
		}()
	}
	within("codecs", wg.Wait)
	v.Distinct("codec", types(recs))
}
