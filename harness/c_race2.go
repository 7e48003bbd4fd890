package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// job is a call of which the result only depends on its own input.
type job struct {
	name string
	run  func() string
}

func hexes(b []byte, err error) string {
	return fmt.Sprintf("%x %v", b, err)
}

// codecJobs decode and encode messages of all kinds. Some share their input.
func codecJobs(r *rand.Rand) []job {
	k := pickKind(r)
	recs, key := validRecs(r, k, r.Intn(3))
	if r.Intn(2) == 0 {
		recs = setRec(recs, 240, signDigest(key, refDigest(k.tag,
			"signature", refRoot(recs))))
	}
	b := encRecs(recs)
	if r.Intn(4) == 0 {
		_, b = mutateStream(r, k, recs)
	}
	if r.Intn(4) == 0 {
		// Records with next to no data.
		var small []rec
		for t := uint64(1001 + r.Intn(5)*2); len(small) < 1+r.Intn(3); {
			small = append(small, rec{t, rbytes(r, r.Intn(3))})
			t += uint64(2 + 2*r.Intn(3))
		}
		b = encRecs(small)
	}
	decode := func() string {
		m, err := decodeMsg(k, b)
		if err != nil {
			return err.Error()
		}
		again, err := m.encode()
		return fmt.Sprintf("%x %v %s %v %v", m.root(), m.validate(),
			fmt.Sprint(m.fields()), hex.EncodeToString(again),
			err)
	}
	jobs := []job{{"decode " + k.name, decode}}
	if m, err := decodeMsg(k, b); err == nil {
		jobs = append(jobs, job{"encode " + k.name, func() string {
			return hexes(m.encode()) + fmt.Sprint(m.validate())
		}})
		if m.q != nil {
			jobs = append(jobs, job{"digest", func() string {
				d := m.q.SignatureDigest()
				return hex.EncodeToString(d[:])
			}})
		}
	}
	text := bech32NoSum("lno", encRecs(validOffer(r, r.Intn(3))))
	jobs = append(jobs, job{"bech32", func() string {
		o, err := offers.DecodeOfferStr(text)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%x %s", o.MerkleRoot, o.Description)
	}})
	o, err := lnwire.DecodeOffer(encRecs(validOffer(r, r.Intn(3))))
	must(err)
	amount, quantity := redge(r), redge(r)
	payer := rkey(r).PubKey()
	jobs = append(jobs, job{"request", func() string {
		q, err := lnwire.NewInvoiceRequest(o, lndwire.MilliSatoshi(
			amount), quantity, payer, "note")
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%x ", q.MerkleRoot) +
			hexes(lnwire.EncodeInvoiceRequest(q))
	}})
	return jobs
}

// onionJobs build and take apart onion messages and their parts.
func onionJobs(r *rand.Rand) []job {
	var jobs []job
	p := &rpayload{enc: rbytes(r, r.Intn(80)),
		final: rfinals(r, r.Intn(4), 40)}
	if r.Intn(2) == 0 {
		p.reply = rpathGen(r, 4, 40)
	}
	if r.Intn(3) == 0 {
		// Hardly anything to decode.
		p = &rpayload{final: []rec{{uint64(64 + r.Intn(40)),
			rbytes(r, r.Intn(2))}}}
	}
	b := encRecs(p.records())
	if r.Intn(4) == 0 && len(b) > 0 {
		b = b[:r.Intn(len(b))]
	}
	jobs = append(jobs, job{"payload decode", func() string {
		x, err := lnwire.DecodeOnionMessagePayload(b)
		if err != nil {
			return err.Error()
		}
		return fromPayload(x).String()
	}})
	pay := &lnwire.OnionMessagePayload{
		ReplyPath: p.reply.toReplyPath(), EncryptedData: p.enc,
		FinalHopPayloads: toFinal(shuffled(r, p.final)),
	}
	jobs = append(jobs, job{"payload encode", func() string {
		return hexes(lnwire.EncodeOnionMessagePayload(pay))
	}})
	blind, blob := rkey(r).PubKey(), rbytes(r, r.Intn(1500))
	wire := wireMsg(blind.SerializeCompressed(), blob)
	om := lnwire.NewOnionMessage(blind, blob)
	jobs = append(jobs, job{"message encode", func() string {
		buf := &bytes.Buffer{}
		err := om.Encode(buf, 0)
		return hexes(buf.Bytes(), err)
	}}, job{"message decode", func() string {
		x := &lnwire.OnionMessage{}
		if err := x.Decode(bytes.NewReader(wire), 0); err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%x %x", x.OnionBlob,
			x.BlindingPoint.SerializeCompressed())
	}})
	data := routeData(pub33(rkey(r)), nil)
	if r.Intn(2) == 0 {
		data = routeData(pub33(rkey(r)), pub33(rkey(r)))
	}
	jobs = append(jobs, job{"route data", func() string {
		d, err := lnwire.DecodeBlindedRouteData(data)
		if err != nil {
			return err.Error()
		}
		return hexes(lnwire.EncodeBlindedRouteData(d)) +
			keyStr(d.NextNodeID, false)
	}})
	c := genRoute(r, 1+r.Intn(4), r.Intn(3))
	c.reply, c.final = p.reply, p.final
	// A request is used up by a route, but what it's made of is not.
	hops, reply, dest := pubs(c.own), c.reply.toReplyPath(),
		c.dest.toReplyPath()
	final := toFinal(shuffled(r, c.final))
	jobs = append(jobs, job{"route", func() string {
		resp, err := routes.CreateBlindedRoute(
			routes.NewBlindedRouteRequest(c.session, c.blinding,
				hops, reply, dest, final))
		if err != nil {
			return err.Error()
		}
		buf := &bytes.Buffer{}
		err = resp.OnionMessage.Encode(buf, 0)
		return hexes(buf.Bytes(), err) + keyStr(resp.FirstNode, false)
	}})
	return jobs
}

// pathJobs generate paths with one generator, for different features.
func pathJobs(r *rand.Rand, n *node, g *graph) []job {
	gen := routes.NewBlindedRouteGenerator(n.lnd, g.us.PubKey())
	var jobs []job
	for j := 0; j < 4; j++ {
		c := *g
		c.required = pickFeatures(r, r.Intn(5))
		best, want, _ := c.want()
		via := func(intro []byte) string {
			for _, p := range best {
				if bytes.Equal(pub33(p.key), intro) {
					return "an eligible peer"
				}
			}
			return fmt.Sprintf("%x, eligible are %d others", intro,
				len(best))
		}
		jobs = append(jobs, job{"path", func() string {
			p, err := gen.ReplyPath(context.Background(), c.required)
			if err != nil {
				if want != nil {
					return want.Error()
				}
				return "failed"
			}
			return via(sphinxPath(p).intro)
		}})
		req := &offersrpc.GenerateBlindedRouteRequest{}
		for _, b := range c.required {
			req.Features = append(req.Features, uint64(b))
		}
		jobs = append(jobs, job{"path rpc", func() string {
			ctx, cancel := context.WithTimeout(
				context.Background(), time.Minute)
			defer cancel()
			p, err := n.client.GenerateBlindedRoute(ctx, req)
			if err != nil {
				return status.Code(err).String()
			}
			return via(rpcPath(p.Route).intro)
		}})
	}
	return jobs
}

// rpcJobs decode offers with one server.
func rpcJobs(r *rand.Rand, n *node) []job {
	recs := validOffer(r, r.Intn(3))
	text := bech32NoSum("lno", encRecs(recs))
	want := offerStr(rpcOffer(recs))
	if r.Intn(4) == 0 {
		text, want = text[:3+r.Intn(3)], ""
	}
	return []job{{"offer rpc", func() string {
		ctx, cancel := context.WithTimeout(context.Background(),
			time.Minute)
		defer cancel()
		resp, err := n.client.DecodeOffer(ctx,
			&offersrpc.DecodeOfferRequest{Offer: text})
		if err != nil {
			return status.Code(err).String()
		}
		got := offerStr(resp.Offer)
		if want != "" && got != want {
			return fmt.Sprintf("%s, want %s", got, want)
		}
		return got
	}}}
}

// sendJobs send messages with different content to different peers.
func sendJobs(r *rand.Rand, n *node, key *btcec.PrivateKey, sent *sync.Map) job {
	id := rbytes(r, 16)
	final := sortRecs([]rec{{64, id}, {uint64(66 + r.Intn(40)), rbytes(r, 9)}})
	reply := rpathGen(r, 3, 20)
	req := &offersrpc.SendOnionMessageRequest{
		Pubkey: pub33(key), ReplyPath: rpcBlinded(reply),
		FinalPayloads: map[uint64][]byte{}, DirectConnect: true,
	}
	for _, f := range final {
		req.FinalPayloads[f.t] = f.v
	}
	want := (&rpayload{reply: reply, final: final}).String()
	return job{"send", func() string {
		sent.Store(string(id), want)
		ctx, cancel := context.WithTimeout(context.Background(),
			time.Minute)
		defer cancel()
		_, err := n.client.SendOnionMessage(ctx, req)
		return status.Code(err).String()
	}}
}

// burst makes the same call a few times at once, with nothing between them that
// would order them, and gives what all of them gave.
func burst(v *V, r *rand.Rand, j job) string {
	got := make([]string, 2+r.Intn(3))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					got[i] = fmt.Sprintf("panic %d: %v", i, x)
				}
			}()
			<-start
			got[i] = j.run()
		}()
	}
	close(start)
	within("the same call at once: "+j.name, wg.Wait)
	for _, g := range got {
		if g != got[0] || strings.HasPrefix(g, "panic ") {
			Fail("%s gave %s, and at the same time %s", j.name,
				clip(got[0]), clip(g))
		}
	}
	v.Count("bursts of the same call", 1)
	return got[0]
}

// results runs calls at the same time, each of which must give what it gives
// when it is alone.
func results(v *V, r *rand.Rand) {
	var jobs []job
	for j := 0; j < 4; j++ {
		jobs = append(jobs, codecJobs(r)...)
		jobs = append(jobs, onionJobs(r)...)
	}
	g := genGraph(r)
	n := startNode(g.lnd())
	defer n.stop()
	jobs = append(jobs, pathJobs(r, n, g)...)
	for j := 0; j < 4; j++ {
		jobs = append(jobs, rpcJobs(r, n)...)
	}
	want := make([]string, len(jobs))
	// The first calls may be the ones that are made at the same time: code
	// may prepare what it's given, or remember it, when it's first used.
	cold := r.Intn(2) == 0
	for k, j := range jobs {
		if cold {
			want[k] = burst(v, r, j)
			continue
		}
		want[k] = j.run()
		if again := j.run(); again != want[k] {
			Fail("%s gave %s, then %s", j.name, clip(want[k]),
				clip(again))
		}
	}
	const workers = 6
	var wg sync.WaitGroup
	var mu sync.Mutex
	wrong := ""
	for w := 0; w < workers; w++ {
		order := rand.New(rand.NewSource(r.Int63()))
		// Some workers stay with a few calls.
		few := len(jobs)
		if order.Intn(2) == 0 {
			few = 1 + order.Intn(4)
		}
		perm := order.Perm(len(jobs))[:few]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					wrong = fmt.Sprintf("panic: %v", x)
					mu.Unlock()
				}
			}()
			for j := 0; j < 60; j++ {
				k := perm[order.Intn(len(perm))]
				got := jobs[k].run()
				v.Count("results compared: "+jobs[k].name, 1)
				v.Count("results compared", 1)
				if got != want[k] {
					mu.Lock()
					wrong = fmt.Sprintf("%s gave %s, want "+
						"%s", jobs[k].name, clip(got),
						clip(want[k]))
					mu.Unlock()
				}
			}
		}()
	}
	// All of this takes a while on a busy machine.
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	awaitFor(4*patience, done, "calls at the same time return")
	if wrong != "" {
		Fail("among other calls, %s", wrong)
	}
	for k, j := range jobs {
		if got := j.run(); got != want[k] {
			Fail("after other calls, %s gave %s, want %s", j.name,
				clip(got), clip(want[k]))
		}
	}
	v.Distinct("results", len(jobs), g.reasons())
}

// sends runs sends at the same time, of which each message must carry what its
// own request says.
func sends(v *V, r *rand.Rand) {
	key := rkey(r)
	f := newFakeLnd(rkey(r))
	rec := newRecorder()
	f.onSend = rec.outgoing
	f.lag = lags(r)
	f.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(key.PubKey())}}, nil
	}
	n := startNode(f)
	defer n.stop()
	var sent sync.Map
	var jobs []job
	for j := 0; j < 24; j++ {
		jobs = append(jobs, sendJobs(r, n, key, &sent))
	}
	var wg sync.WaitGroup
	bad := make(chan string, len(jobs))
	for w := 0; w < 6; w++ {
		part := jobs[w*4 : w*4+4]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, j := range part {
				if c := j.run(); c != codes.OK.String() {
					bad <- c
				}
			}
		}()
	}
	within("sends at the same time", wg.Wait)
	close(bad)
	for c := range bad {
		Fail("one of several sends failed: %s", c)
	}
	_, msgs := rec.take()
	if len(msgs) != len(jobs) {
		Fail("%d sends, %d messages", len(jobs), len(msgs))
	}
	for _, m := range msgs {
		l, err := newPeeler(key).peel(m.Data)
		if err != nil || !l.exit {
			Fail("message is not for its destination: %v", err)
		}
		id, _ := find(l.payload.final, 64)
		want, ok := sent.LoadAndDelete(string(id))
		l.payload.enc = nil
		if !ok || want != l.payload.String() {
			Fail("message of one of several sends is %s, want %v",
				l.payload, want)
		}
		v.Count("messages of concurrent sends compared", 1)
	}
}

// sharedSends runs sends of the same request at the same time.
func sharedSends(v *V, r *rand.Rand) {
	keys := freshKeys(r, 3)
	f := newFakeLnd(rkey(r))
	log := newRecorder()
	f.onSend = log.outgoing
	f.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(keys[0].PubKey())}}, nil
	}
	f.onRoutes = func(context.Context, lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf([]route.Vertex{vertex(keys[0].PubKey())}), nil
	}
	m := f.messenger(func(error) {})
	hops := keys[:1]
	peer := keys[0].PubKey()
	var dest *rpath
	if r.Intn(2) == 0 {
		hops, peer = keys, nil
		nodes := pubs(keys)
		dest = blindPath(rkey(r), nodes, plainData(nodes))
	}
	reply := rpathGen(r, 3, 20)
	final := rfinals(r, 5, 40)
	mixed := append([]rec{}, final...)
	r.Shuffle(len(mixed), func(a, b int) {
		mixed[a], mixed[b] = mixed[b], mixed[a]
	})
	req := onionmsg.NewSendMessageRequest(peer, dest.toReplyPath(),
		reply.toReplyPath(), toFinal(mixed), r.Intn(2) == 0)
	want := &rpayload{reply: reply, final: final}

	var wg sync.WaitGroup
	const n = 8
	errs := make(chan error, 3*n)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 3; j++ {
				errs <- m.SendMessage(context.Background(), req)
			}
		}()
	}
	within("sends of one request", wg.Wait)
	for k := 0; k < 3*n; k++ {
		if err := <-errs; err != nil {
			Fail("one of several sends of a request failed: %v", err)
		}
	}
	_, msgs := log.take()
	if len(msgs) != 3*n {
		Fail("%d sends, %d messages", 3*n, len(msgs))
	}
	for _, x := range msgs {
		data := x.Data
		for i, k := range hops {
			l, err := newPeeler(k).peel(data)
			if err != nil || l.exit != (i == len(hops)-1) {
				Fail("hop %d can't process a message: %v", i, err)
			}
			if !l.exit {
				data = wireMsg(l.blind, l.blob)
				continue
			}
			l.payload.enc = nil
			if l.payload.String() != want.String() {
				Fail("one of several sends of a request has %s, "+
					"want %s", l.payload, want)
			}
		}
	}
	v.Count("sends of shared requests", 3*n)
}

// daemonStorm starts, uses and stops a complete instance, with a grpc client
// and stops of its own.
func daemonStorm(v *V, r *rand.Rand) {
	net := newSimNet()
	key := rkey(r)
	f, g := net.add(rkey(r)), net.add(key)
	net.channel(f.vertex(), g.vertex())
	f.lag = lags(r)
	p := &probe{lnd: f}
	l := newRPCLnd(f)
	defer l.srv.Stop()
	failing := r.Intn(3)
	l.fail = func(n int) error {
		if n <= failing {
			return status.Error(codes.Unavailable, "starting")
		}
		return nil
	}
	down := make(chan struct{}, 1)
	d := newDaemon(l, 3, time.Millisecond, true, func(*daemon) {
		down <- struct{}{}
	})
	defer d.close()
	offer := bech32NoSum("lno", encRecs(validOffer(r, 1)))
	var wg sync.WaitGroup
	done := make(chan struct{})
	for k := 0; k < 6; k++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var calls int64
			defer func() { v.Count("calls of daemons", calls) }()
			for {
				select {
				case <-done:
					return
				default:
				}
				ctx, cancel := context.WithTimeout(
					context.Background(), time.Duration(
						1+wr.Intn(60))*time.Millisecond)
				switch wr.Intn(5) {
				case 4:
					for _, ops := range d.b.Permissions() {
						_ = fmt.Sprint(ops)
					}
				case 0:
					_, _ = d.client.DecodeOffer(ctx,
						&offersrpc.DecodeOfferRequest{
							Offer: offer})
				case 1:
					_, _ = d.client.GenerateBlindedRoute(ctx,
						&offersrpc.GenerateBlindedRouteRequest{})
				case 2:
					_, _ = d.client.SendOnionMessage(ctx,
						&offersrpc.SendOnionMessageRequest{
							Pubkey: pub33(key),
							ReplyPath: rpcBlinded(
								rpathGen(wr, 2, 20)),
							DirectConnect: true,
						})
				default:
					s, err := d.client.SubscribeOnionPayload(
						ctx, &offersrpc.SubscribeOnionPayloadRequest{
							TlvType: uint64(64 + wr.Intn(3))})
					for err == nil {
						_, err = s.Recv()
					}
				}
				cancel()
				calls++
			}
		}()
	}
	started := make(chan error, 1)
	go func() { started <- d.b.Start() }()
	early := r.Intn(4) == 0
	if !early {
		select {
		case <-started:
			started <- nil
		case <-time.After(20 * time.Second):
		}
	}
	for j := 0; j < 30; j++ {
		f.inject(f.vertex(), onionType, p.toSelf(r, rpathGen(r, 2, 20),
			sortRecs([]rec{{64, rbytes(r, 20)}, {65, rbytes(r, 20)}})))
	}
	spin(r)
	if r.Intn(3) == 0 {
		f.end(endings[r.Intn(len(endings))].how, bareErr(r))
		spin(r)
	}
	// More than one of its owner's goroutines may stop it.
	var stops sync.WaitGroup
	for k := 0; k < 2; k++ {
		stops.Add(1)
		go func() {
			defer stops.Done()
			_ = d.b.Stop()
		}()
	}
	within("stops of a daemon", stops.Wait)
	within("start of a daemon that was stopped", func() { <-started })
	close(done)
	within("calls of a daemon", wg.Wait)
	v.Distinct("daemon", early, failing, len(down))
}
