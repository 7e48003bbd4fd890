package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register("C23", "generated offer strings decoded over grpc by several "+
		"clients at once, every field compared with the reference; "+
		"strings with one edit judged by the reference; non-trivial "+
		"when the set of fields or the edit is new", runC23)
	register("C24", "calls of every api before, during and after starts "+
		"that succeed, are slow, or fail; all methods of the service "+
		"against the permission table; non-trivial when the mix of "+
		"calls and the outcome are new", runC24)
}

// ---- C23 ----

// rpcOffer is the response that an offer must have.
func rpcOffer(recs []rec) *offersrpc.Offer {
	o := &offersrpc.Offer{}
	for _, r := range recs {
		switch r.t {
		case 8:
			o.MinAmountMsat = n64(r.v)
		case 10:
			o.Description = string(r.v)
		case 12:
			o.Features = bitVector(bits(r.v))
		case 14:
			if !unsetTime(n64(r.v)) {
				o.ExpiryUnixSeconds = n64(r.v)
			}
		case 20:
			o.Issuer = string(r.v)
		case 22:
			o.MinQuantity = n64(r.v)
		case 24:
			o.MaxQuantity = n64(r.v)
		case 30:
			o.NodeId = hex.EncodeToString(r.v)
		case 240:
			o.Signature = hex.EncodeToString(r.v)
		}
	}
	return o
}

func offerStr(o *offersrpc.Offer) string {
	if o == nil {
		return "none"
	}
	return fmt.Sprintf("min amount %d, description %q, features %x, "+
		"expiry %d, issuer %q, quantity %d to %d, node id %s, "+
		"signature %s", o.MinAmountMsat, o.Description, o.Features,
		o.ExpiryUnixSeconds, o.Issuer, o.MinQuantity, o.MaxQuantity,
		o.NodeId, o.Signature)
}

func runC23(v *V) {
	var mu sync.Mutex
	var nodes []*node
	get := func(r *rand.Rand, i int) *node {
		mu.Lock()
		defer mu.Unlock()
		if len(nodes) < 2 {
			f := newFakeLnd(rkey(r))
			nodes = append(nodes, startNode(f))
		}
		return nodes[i%len(nodes)]
	}
	call := func(n *node, s string) (*offersrpc.Offer, error) {
		ctx, cancel := context.WithTimeout(context.Background(),
			2*patience)
		defer cancel()
		resp, err := n.client.DecodeOffer(ctx,
			&offersrpc.DecodeOfferRequest{Offer: s})
		if err != nil {
			return nil, err
		}
		if resp.Offer == nil {
			Fail("response without offer or error for %q", s)
		}
		return resp.Offer, nil
	}
	v.Cases("offers", 8, v.N(6000, 150000), func(i int, r *rand.Rand) {
		n := get(r, i)
		recs, key := validRecs(r, kOffer, r.Intn(3))
		signed := r.Intn(2) == 0
		if signed {
			recs = setRec(recs, 240, signDigest(key, refDigest(
				"offer", "signature", refRoot(recs))))
		}
		s := bech32NoSum("lno", encRecs(recs))
		if r.Intn(3) == 0 {
			s = strings.ToUpper(s)
		}
		s = splitOffer(r, s, r.Intn(3))
		got, err := call(n, s)
		if err != nil {
			Fail("valid offer was rejected: %v: %q", err, s)
		}
		if g, w := offerStr(got), offerStr(rpcOffer(recs)); g != w {
			Fail("offer %q decoded to\n%s\nwant\n%s", s, g, w)
		}
		v.Count("offers compared", 1)
		if signed {
			v.Count("signed offers compared", 1)
		}
		v.Distinct(types(recs))
		v.Sample("offers", clip(s))
	})

	// Offers that have much in common, valid or not, in one session: what a
	// string decodes to doesn't depend on what came before it, or comes at
	// the same time.
	v.Cases("related offers", 8, v.N(300, 6000), func(i int, r *rand.Rand) {
		n := startNode(newFakeLnd(rkey(r)))
		defer n.stop()
		base, key := validRecs(r, kOffer, r.Intn(3))
		var family [][]rec
		for j := 0; j < 6; j++ {
			family = append(family, relatedOffer(r, base, key))
		}
		var wg sync.WaitGroup
		var bad atomic.Value
		one := func(recs []rec) {
			s := bech32NoSum("lno", encRecs(recs))
			want, ok, claim := refDecodeOffer(s)
			if !claim {
				return
			}
			got, err := call(n, s)
			if ok != (err == nil) {
				bad.Store(fmt.Sprintf("offer %q gives error %v, "+
					"want valid: %v", s, err, ok))
				return
			}
			if ok && offerStr(got) != offerStr(rpcOffer(want)) {
				bad.Store(fmt.Sprintf("offer %q decoded to\n%s"+
					"\nwant\n%s", s, offerStr(got),
					offerStr(rpcOffer(want))))
			}
			v.Count(fmt.Sprintf("related offers valid=%v", ok), 1)
		}
		for k := 12 + r.Intn(8); k > 0; k-- {
			recs := family[r.Intn(len(family))]
			if r.Intn(3) != 0 {
				one(recs)
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				one(recs)
			}()
		}
		within("decoding offers", wg.Wait)
		if b := bad.Load(); b != nil {
			Fail("%v", b)
		}
		v.Distinct("related", types(base), len(family))
	})

	v.Cases("bad offers", 8, v.N(3000, 60000), func(i int, r *rand.Rand) {
		n := get(r, i)
		recs, key := validRecs(r, kOffer, r.Intn(2))
		recs = setRec(recs, 240, signDigest(key, refDigest("offer",
			"signature", refRoot(recs))))
		what := ""
		s := ""
		switch r.Intn(7) {
		case 0:
			what = "wrong signature"
			recs = setRec(recs, 240, rbytes(r, 64))
		case 1:
			what = "other key's signature"
			recs = setRec(recs, 240, signDigest(rkey(r), refDigest(
				"offer", "signature", refRoot(delRec(recs,
					240)))))
		case 2:
			what = "no node id"
			recs = delRec(recs, 30)
		case 3:
			what = "no description"
			recs = delRec(delRec(recs, 10), 240)
		case 4:
			what = "bad quantities"
			recs = delRec(setRec(setRec(recs, 22, tu64(uint64(3+
				r.Intn(9)))), 24, tu64(2)), 240)
		case 5:
			what = "bad characters"
			s = bech32NoSum("lno", encRecs(recs))
			at := 5 + r.Intn(len(s)-5)
			s = s[:at] + string("bio1"[r.Intn(4)]) + s[at+1:]
		default:
			what = "record of the wrong length"
			recs = setRec(recs, 2, rbytes(r, 31+2*r.Intn(2)))
		}
		if s == "" {
			s = bech32NoSum("lno", encRecs(recs))
		}
		o, err := call(n, s)
		if err == nil {
			Fail("bad offer (%s) %q decoded to %s", what, s,
				offerStr(o))
		}
		switch status.Code(err) {
		case codes.Unavailable, codes.DeadlineExceeded,
			codes.Canceled, codes.Unimplemented:
			Fail("bad offer (%s): %v", what, err)
		}
		v.Count("bad offers refused", 1)
		v.Distinct(what, len(s)%7)
	})

	// Anything at all, judged by the reference.
	v.Cases("hostile", 8, v.N(3000, 60000), func(i int, r *rand.Rand) {
		n := get(r, i)
		recs, _ := validRecs(r, kOffer, r.Intn(2))
		b := []byte(bech32NoSum("lno", encRecs(recs)))
		for k := r.Intn(4); k >= 0; k-- {
			b[r.Intn(len(b))] = bechCharset[r.Intn(32)]
		}
		s := string(b)
		switch r.Intn(12) {
		case 0, 1:
			s = rtext(r, r.Intn(60))
		case 2, 3, 4:
			s = decorate(r, bech32NoSum("lno", encRecs(recs)))
		}
		if !utf8.ValidString(s) {
			return
		}
		got, err := call(n, s)
		want, ok, claim := refDecodeOffer(s)
		if !claim {
			return
		}
		if ok != (err == nil) {
			Fail("offer %q gives error %v, want valid: %v", s, err, ok)
		}
		if ok && offerStr(got) != offerStr(rpcOffer(want)) {
			Fail("offer %q decoded to\n%s\nwant\n%s", s,
				offerStr(got), offerStr(rpcOffer(want)))
		}
		if s == "" && status.Code(err) != codes.InvalidArgument {
			Fail("empty offer: %v", err)
		}
		v.Count(fmt.Sprintf("hostile strings valid=%v", ok), 1)
	})

	v.Cases("empty", 1, 1, func(i int, r *rand.Rand) {
		if _, err := call(get(r, i), ""); status.Code(err) !=
			codes.InvalidArgument {
			Fail("empty offer: %v", err)
		}
	})
	for _, n := range nodes {
		n.stop()
	}
	v.Require("offers compared", 1000)
	v.Require("signed offers compared", 400)
	v.Require("bad offers refused", 1000)
}

// relatedOffer makes an offer like another one.
func relatedOffer(r *rand.Rand, base []rec, key *btcec.PrivateKey) []rec {
	recs := append([]rec{}, base...)
	sign := func(k *btcec.PrivateKey) {
		recs = delRec(recs, 240)
		recs = setRec(recs, 240, signDigest(k, refDigest("offer",
			"signature", refRoot(recs))))
	}
	switch r.Intn(8) {
	case 0:
		recs = delRec(recs, 240)
	case 1, 2:
		// There are many signatures of one offer.
		d := refDigest("offer", "signature", refRoot(delRec(recs, 240)))
		var aux [32]byte
		copy(aux[:], rbytes(r, 32))
		sig, err := schnorr.Sign(key, d[:], schnorr.CustomNonce(aux))
		must(err)
		recs = setRec(recs, 240, sig.Serialize())
	case 3:
		// Not by the node.
		sign(rkey(r))
	case 4:
		recs = setRec(recs, 240, rbytes(r, 64))
	case 5:
		recs = setRec(recs, 20, []byte(fmt.Sprint("issuer ",
			r.Intn(1000))))
		sign(key)
	case 6:
		recs = setRec(delRec(recs, 240), 8, tu64(uint64(1+r.Intn(2000))))
		if r.Intn(2) == 0 {
			sign(key)
		}
	case 7:
		// Another node makes the same offer.
		k := rkey(r)
		recs = setRec(recs, 30, schnorr.SerializePubKey(k.PubKey()))
		sign(k)
		if r.Intn(2) == 0 {
			recs = delRec(recs, 240)
		}
	}
	return recs
}

// refDecodeOffer judges a string without joins.
func refDecodeOffer(s string) (recs []rec, ok, claim bool) {
	if strings.ContainsAny(s, "+ \t\r\n") || !isASCII(s) {
		return nil, false, false
	}
	b, err := refOfferBytes(s)
	if err != nil {
		return nil, false, true
	}
	if recs, err = parseTLV(b); err != nil {
		return nil, false, true
	}
	_, claim, err = kOffer.fields(recs)
	if !claim {
		return nil, false, false
	}
	ok = err == nil && semantic(kOffer, recs) && verifies(recs, kOffer)
	if ok {
		// Text that is not UTF-8 can't be a protobuf string.
		for _, t := range []uint64{10, 20} {
			if x, _ := find(recs, t); !utf8.Valid(x) {
				return nil, false, true
			}
		}
	}
	return recs, ok, true
}

// ---- C24 ----

// apiCall calls one of the apis on a server, and gives its error.
type apiCall struct {
	name string
	run  func(ctx context.Context) error
	// after is the status of the call once the server works.
	after codes.Code
}

// invalidCalls are calls with requests that are invalid, or that can't be
// served.
func invalidCalls(r *rand.Rand, n *node, peer []byte) []apiCall {
	send := func(name string, req *offersrpc.SendOnionMessageRequest) apiCall {
		return apiCall{"SendOnionMessage " + name,
			func(ctx context.Context) error {
				_, err := n.srv.SendOnionMessage(ctx, req)
				return err
			}, codes.InvalidArgument}
	}
	feature, low := uint64(r.Int63()), uint64(r.Intn(64))
	return []apiCall{{
		"DecodeOffer without offer", func(ctx context.Context) error {
			_, err := n.srv.DecodeOffer(ctx,
				&offersrpc.DecodeOfferRequest{})
			return err
		}, codes.InvalidArgument,
	}, {
		"GenerateBlindedRoute with features out of range",
		func(ctx context.Context) error {
			_, err := n.srv.GenerateBlindedRoute(ctx,
				&offersrpc.GenerateBlindedRouteRequest{
					Features: []uint64{65536 + feature}})
			return err
		}, codes.InvalidArgument,
	},
		send("nowhere", &offersrpc.SendOnionMessageRequest{}),
		send("bad key", &offersrpc.SendOnionMessageRequest{
			Pubkey: badKey(r)}),
		send("bad payload", &offersrpc.SendOnionMessageRequest{
			Pubkey:        peer,
			FinalPayloads: map[uint64][]byte{low: {}},
		}),
		{
			"SubscribeOnionPayload out of range",
			func(ctx context.Context) error {
				return n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: low},
					&fakeStream{ctx: ctx})
			}, codes.InvalidArgument,
		}}
}

// apiCalls are calls that succeed on a ready server. A subscription succeeds by
// the arrival of a message.
func apiCalls(r *rand.Rand, n *node, peer []byte) []apiCall {
	recs, _ := validRecs(r, kOffer, 0)
	offer := bech32NoSum("lno", encRecs(recs))
	subType := 64 + uint64(r.Int63())
	return []apiCall{{
		"DecodeOffer", func(ctx context.Context) error {
			resp, err := n.srv.DecodeOffer(ctx,
				&offersrpc.DecodeOfferRequest{Offer: offer})
			if err == nil && offerStr(resp.Offer) != offerStr(
				rpcOffer(recs)) {
				Fail("decoded %q to %s", offer,
					offerStr(resp.Offer))
			}
			return err
		}, codes.OK,
	}, {
		"GenerateBlindedRoute", func(ctx context.Context) error {
			resp, err := n.srv.GenerateBlindedRoute(ctx,
				&offersrpc.GenerateBlindedRouteRequest{})
			if err == nil && (resp.Route == nil ||
				len(resp.Route.Hops) == 0) {
				Fail("no route: %v", resp)
			}
			return err
		}, codes.OK,
	}, {
		"SendOnionMessage", func(ctx context.Context) error {
			_, err := n.srv.SendOnionMessage(ctx,
				&offersrpc.SendOnionMessageRequest{
					Pubkey: peer})
			return err
		}, codes.OK,
	}, {
		"SubscribeOnionPayload", func(ctx context.Context) error {
			return n.srv.SubscribeOnionPayload(
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: subType},
				&fakeStream{ctx: ctx, send: func(
					*offersrpc.SubscribeOnionPayloadResponse) error {
					return nil
				}})
		}, codes.Canceled,
	}}
}

// gateNode is a node with one peer that takes messages.
func gateNode(r *rand.Rand) (*node, []byte) {
	net := newSimNet()
	f, g := net.add(rkey(r)), net.add(rkey(r))
	net.channel(f.vertex(), g.vertex())
	peer := g.vertex()
	return newNode(f), peer[:]
}

func runC24(v *V) {
	loud()
	v.Cases("gating", 8, v.N(400, 4000), func(i int, r *rand.Rand) {
		n, peer := gateNode(r)
		defer n.stop()
		// The start may be slow, or fail.
		fails := r.Intn(3) == 0
		slow := time.Duration(r.Intn(3)*r.Intn(4)) * time.Millisecond
		fault := bareErr(r)
		inInfo := make(chan struct{})
		var first sync.Once
		release := make(chan struct{})
		n.lnd.onInfo = func(context.Context) error {
			first.Do(func() { close(inInfo) })
			<-release
			if fails {
				return fault
			}
			return nil
		}

		var ready int32
		var wg sync.WaitGroup
		story := map[string]int{}
		var smu sync.Mutex
		var bad atomic.Value
		launch := func(c apiCall, d time.Duration, stage string) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						bad.Store(fmt.Sprintf("%s %s: %v",
							c.name, stage, x))
					}
				}()
				ctx, cancel := context.WithCancel(
					context.Background())
				if d > 0 {
					ctx, cancel = context.WithTimeout(
						context.Background(), d)
				}
				defer cancel()
				if d == 0 && c.after == codes.Canceled {
					// Subscriptions end by a cancel.
					go func() {
						for atomic.LoadInt32(&ready) ==
							0 {
							time.Sleep(
								time.Millisecond)
						}
						time.Sleep(time.Millisecond)
						cancel()
					}()
				}
				early := atomic.LoadInt32(&ready) == 0
				err := c.run(ctx)
				served := atomic.LoadInt32(&ready) != 0
				code := status.Code(err)
				ended := ctx.Err() != nil
				// The only way out before the server is
				// ready is the end of the request.
				if !served && !(ended && code ==
					codes.Unavailable) {
					bad.Store(fmt.Sprintf("%s %s returned "+
						"%v before the server was ready",
						c.name, stage, err))
				}
				if !ended && code != c.after {
					bad.Store(fmt.Sprintf("%s %s: %v",
						c.name, stage, err))
				}
				smu.Lock()
				story[fmt.Sprint(c.name, stage, code)]++
				smu.Unlock()
				v.Count("calls "+code.String(), 1)
				if early && served && code == c.after {
					v.Count("calls held back until ready", 1)
				}
			}()
		}
		some := func(stage string) {
			for k := 1 + r.Intn(4); k > 0; k-- {
				cs := apiCalls(r, n, peer)
				if r.Intn(3) == 0 {
					cs = invalidCalls(r, n, peer)
				}
				c := cs[r.Intn(len(cs))]
				var d time.Duration
				if fails || r.Intn(2) == 0 {
					d = time.Duration(1+r.Intn(8)) *
						time.Millisecond
				}
				launch(c, d, stage)
			}
			spin(r)
		}
		some("before the start")
		started := make(chan error, 1)
		go func() {
			// The server may become ready right before Start
			// returns, but not before lnd has answered.
			started <- n.srv.Start(n.lnd.services())
		}()
		await(inInfo, "start asks lnd for its identity")
		some("during the start")
		time.Sleep(slow)
		if !fails {
			atomic.StoreInt32(&ready, 1)
		}
		close(release)
		var err error
		within("start", func() { err = <-started })
		if (err != nil) != fails {
			Fail("start: %v, lnd fails: %v", err, fails)
		}
		some("after the start")
		within("all calls", wg.Wait)
		if b := bad.Load(); b != nil {
			Fail("%v (start fails: %v)", b, fails)
		}
		var keys []string
		for k, c := range story {
			keys = append(keys, fmt.Sprint(k, c))
		}
		sort.Strings(keys)
		v.Distinct(fails, keys)
		v.Sample("gating", keys)
	})

	// Many clients wait for the start, and many come later.
	v.Cases("crowd", 2, v.N(6, 100), func(i int, r *rand.Rand) {
		n, peer := gateNode(r)
		defer n.stop()
		recs, _ := validRecs(r, kOffer, 0)
		offer := bech32NoSum("lno", encRecs(recs))
		ctx, cancel := context.WithTimeout(context.Background(),
			4*patience)
		defer cancel()
		var entered, served int64
		launch := func(k int, errs chan<- error) {
			for j := 0; j < k; j++ {
				j := j
				go func() {
					var err error
					atomic.AddInt64(&entered, 1)
					switch j % 3 {
					case 0:
						_, err = n.srv.DecodeOffer(ctx,
							&offersrpc.DecodeOfferRequest{
								Offer: offer})
					case 1:
						_, err = n.srv.SendOnionMessage(ctx,
							&offersrpc.SendOnionMessageRequest{
								Pubkey: peer})
					default:
						_, err = n.srv.GenerateBlindedRoute(ctx,
							&offersrpc.GenerateBlindedRouteRequest{})
					}
					atomic.AddInt64(&served, 1)
					errs <- err
				}()
			}
		}
		before, after := []int{10, 100, 1300}[i%3], []int{700, 100,
			10}[i%3]
		errs := make(chan error, before+after)
		launch(before, errs)
		eventually("the calls are made", func() bool {
			return atomic.LoadInt64(&entered) == int64(before)
		})
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if k := atomic.LoadInt64(&served); k != 0 {
			Fail("%d calls returned before the start", k)
		}
		if err := n.srv.Start(n.lnd.services()); err != nil {
			Fail("start: %v", err)
		}
		take := func(k int, what string) {
			for j := 0; j < k; j++ {
				var err error
				within(fmt.Sprintf("call %d of %d %s", j, k,
					what), func() { err = <-errs })
				if err != nil {
					Fail("call %s: %v", what, err)
				}
			}
			v.Count("calls "+what, int64(k))
		}
		take(before, "that waited for the start")
		launch(after, errs)
		take(after, "after the start")
		v.Distinct("crowd", before)
	})

	// The same over the wire, with clients that wait.
	v.Cases("wire", 8, v.N(40, 1000), func(i int, r *rand.Rand) {
		n, peer := gateNode(r)
		defer n.stop()
		recs, _ := validRecs(r, kOffer, 0)
		var wg sync.WaitGroup
		var bad atomic.Value
		check := func(name string, err error) {
			if err != nil {
				bad.Store(fmt.Sprintf("%s: %v", name, err))
			}
			v.Count("wire calls", 1)
			wg.Done()
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		wg.Add(3)
		go func() {
			_, err := n.client.DecodeOffer(ctx,
				&offersrpc.DecodeOfferRequest{
					Offer: bech32NoSum("lno", encRecs(recs))})
			check("DecodeOffer", err)
		}()
		go func() {
			_, err := n.client.SendOnionMessage(ctx,
				&offersrpc.SendOnionMessageRequest{Pubkey: peer})
			check("SendOnionMessage", err)
		}()
		go func() {
			_, err := n.client.GenerateBlindedRoute(ctx,
				&offersrpc.GenerateBlindedRouteRequest{})
			check("GenerateBlindedRoute", err)
		}()
		s := subscribe(n.conn, 0, 64, nil)
		spin(r)
		time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		if err := n.srv.Start(n.lnd.services()); err != nil {
			Fail("start: %v", err)
		}
		within("calls that wait for the start", wg.Wait)
		if b := bad.Load(); b != nil {
			Fail("%v", b)
		}
		n.warm(r, s)
		s.cancel()
		await(s.done, "cancelled subscription ends")
		n.noShutdown()
	})

	// Every method has permissions, and nothing else has.
	v.Cases("permissions", 1, 1, func(i int, r *rand.Rand) {
		b := plainBoltnd()
		srv := grpc.NewServer()
		if err := b.RegisterGrpcSubserver(srv); err != nil {
			Fail("register: %v", err)
		}
		methods := map[string]bool{}
		for name, info := range srv.GetServiceInfo() {
			for _, m := range info.Methods {
				methods["/"+name+"/"+m.Name] = true
			}
		}
		if len(methods) < 4 {
			Fail("only %d methods are served", len(methods))
		}
		want := map[string]string{
			"SendOnionMessage":      "peers write",
			"DecodeOffer":           "offchain read",
			"SubscribeOnionPayload": "offchain read",
			"GenerateBlindedRoute":  "offchain read",
		}
		for k, ops := range b.Permissions() {
			if !methods[k] {
				Fail("permissions for %s, which is not served", k)
			}
			if len(ops) == 0 {
				Fail("%s needs no permission", k)
			}
			var list []string
			for _, op := range ops {
				if op.Entity == "" || op.Action == "" {
					Fail("%s needs an empty permission", k)
				}
				list = append(list, op.Entity+" "+op.Action)
			}
			name := k[strings.LastIndexByte(k, '/')+1:]
			got := strings.Join(list, ", ")
			if w, ok := want[name]; ok && got != w {
				Fail("%s needs %q, want %q", name, got, w)
			}
			v.Count("permissions compared", 1)
			v.Distinct(k, got)
			v.Sample("permissions", k+": "+got)
		}
		for m := range methods {
			if len(b.Permissions()[m]) == 0 {
				Fail("%s is served without permissions", m)
			}
			if len(rpcserver.RPCServerPermissions[m]) == 0 {
				Fail("%s is served without permissions", m)
			}
		}
	})

	v.Require("calls held back until ready", 50)
	v.Require("calls Unavailable", 100)
	v.Require("calls OK", 100)
	v.Require("permissions compared", 4)
	v.Require("wire calls", 60)
}

// plainBoltnd is an instance that is not connected.
func plainBoltnd(opts ...boltnd.ConfigOption) *boltnd.Boltnd {
	b, err := boltnd.NewBoltnd(opts...)
	if err != nil {
		Fail("new instance: %v", err)
	}
	return b
}
