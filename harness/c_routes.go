package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register("C12", "random views of the channel graph (channels, "+
		"activity, privacy, announcements, features, lookup failures) "+
		"under random required features; non-trivial when the "+
		"combination of eligible peers, ineligible peers by reason, "+
		"and outcome is new", runC12)
	register("C13", "repeated sends, forwards and path generations with "+
		"equal inputs; non-trivial when the message or path observed "+
		"is distinct", runC13)
}

// gpeer is a channel peer in a generated graph.
type gpeer struct {
	key      *btcec.PrivateKey
	channels int // channels with us
	active   []bool
	private  []bool
	info     string // "ok", "no node", "not found", "error", "plain"
	public   int    // its public channels
	features []lndwire.FeatureBit
	code     codes.Code // of "error"
	err      error      // of "plain"
	id       route.Vertex
}

// vertex is the peer's public key.
func (p *gpeer) vertex() route.Vertex {
	if p.id == (route.Vertex{}) {
		p.id = vertex(p.key.PubKey())
	}
	return p.id
}

func (p *gpeer) isActive() bool {
	for _, a := range p.active {
		if a {
			return true
		}
	}
	return false
}

// eligible gives the reason why a peer can't be the introduction node.
func (p *gpeer) why(required []lndwire.FeatureBit) string {
	switch {
	case !p.isActive():
		return "inactive"
	case p.info != "ok":
		return p.info
	case p.public == 0:
		return "no public channels"
	}
	for _, f := range required {
		if f%2 != 0 {
			continue
		}
		found := false
		for _, g := range p.features {
			found = found || f == g
		}
		if !found {
			return "features"
		}
	}
	return ""
}

// graph is a generated view of the channel graph.
type graph struct {
	us       *btcec.PrivateKey
	order    int64
	peers    []*gpeer
	listFail bool
	listErr  error
	required []lndwire.FeatureBit
}

var featurePool = []lndwire.FeatureBit{0, 1, 2, 3, 6, 9, 12, 14, 15, 17, 23,
	38, 39, 54, 55, 100, 101, 262, 263, 2000, 65534, 65535}

func pickFeatures(r *rand.Rand, n int) []lndwire.FeatureBit {
	var out []lndwire.FeatureBit
	for i := 0; i < n; i++ {
		out = append(out, featurePool[r.Intn(len(featurePool))])
	}
	return out
}

func genGraph(r *rand.Rand) *graph {
	g := &graph{us: rkey(r)}
	for i := r.Intn(3); i > 0; i-- {
		g.required = append(g.required, pickFeatures(r, 1)...)
	}
	if r.Intn(10) == 0 {
		// One that is missing may be any of them.
		n := 3 + r.Intn(40)
		g.required = pickFeatures(r, n)
		if r.Intn(2) == 0 {
			for j := 0; j < n-1; j++ {
				g.required[j] = 17
			}
		}
	}
	calm := r.Intn(2) != 0 // no failing lookups
	n := r.Intn(7)
	if r.Intn(12) == 0 {
		n = 7 + r.Intn(80)
	}
	// A big node, with one peer that will do, or a few.
	big := r.Intn(300) == 0
	if big {
		n, calm = 300+r.Intn(900), true
	}
	for i := n; i > 0; i-- {
		p := &gpeer{key: rkey(r)}
		if k := r.Intn(8); k < len(g.peers) {
			// The same x coordinate as another peer's key.
			k := negKey(g.peers[k].key)
			if !g.has(k) {
				p.key = k
			}
		}
		g.view(r, p, calm)
		if big && r.Intn(n) > 1 {
			p.public = 0
		}
		g.peers = append(g.peers, p)
	}
	g.order = r.Int63()
	g.listFail, g.listErr = r.Intn(25) == 0, bareErr(r)
	return g
}

// age changes some of what there is to see, as time goes by.
func (g *graph) age(r *rand.Rand) {
	calm := r.Intn(3) != 0
	for _, p := range g.peers {
		if r.Intn(2) == 0 {
			g.view(r, p, calm)
		}
		if calm && (p.info == "error" || p.info == "plain") {
			p.info = "ok"
		}
	}
	if n := len(g.peers); n > 0 && r.Intn(4) == 0 {
		g.peers = g.peers[:n-1]
	}
	g.order = r.Int63()
	g.listFail, g.listErr = r.Intn(25) == 0, bareErr(r)
	if r.Intn(2) == 0 {
		g.required = pickFeatures(r, r.Intn(3))
	}
}

// view generates what is to be seen of a peer.
func (g *graph) view(r *rand.Rand, p *gpeer, calm bool) {
	*p = gpeer{key: p.key, id: p.vertex(), channels: 1, info: "ok"}
	{
		// Only codes.NotFound says that a node isn't in the graph.
		p.code = codes.Code(1 + r.Intn(16))
		for p.code == codes.NotFound {
			p.code = codes.Code(1 + r.Intn(16))
		}
		for p.err == nil || strings.Contains(p.err.Error(),
			"NotFound") {

			p.err = bareErr(r)
		}
		if r.Intn(3) == 0 {
			p.channels += r.Intn(3)
		}
		for j := 0; j < p.channels; j++ {
			p.active = append(p.active, r.Intn(4) != 0)
			p.private = append(p.private, r.Intn(3) == 0)
		}
		switch r.Intn(12) {
		case 0:
			p.info = "no node"
		case 1, 2:
			p.info = "not found"
		case 3:
			if !calm {
				p.info = "error"
			}
		case 4:
			if !calm {
				p.info = "plain"
			}
		}
		if r.Intn(5) != 0 {
			p.public = 1 + r.Intn(6)
		}
		if r.Intn(20) == 0 {
			p.public = []int{127, 128, 255, 256, 257, 1000,
				2000}[r.Intn(7)]
		}
		p.features = pickFeatures(r, r.Intn(6))
		if r.Intn(3) != 0 {
			p.features = append(p.features, g.required...)
			// Having the optional bit doesn't do.
			if r.Intn(4) == 0 {
				for i := range p.features {
					p.features[i] |= 1
				}
			}
		}
	}
}

func (g *graph) String() string {
	var out []string
	for _, p := range g.peers {
		out = append(out, fmt.Sprintf("{%x active %v private %v info %q "+
			"public channels %d features %v}",
			pub33(p.key)[:4], p.active, p.private, p.info, p.public,
			p.features))
	}
	return fmt.Sprintf("required %v, peers %s, list fails %v", g.required,
		strings.Join(out, " "), g.listFail)
}

func (g *graph) has(k *btcec.PrivateKey) bool {
	for _, p := range g.peers {
		if bytes.Equal(pub33(p.key), pub33(k)) {
			return true
		}
	}
	return bytes.Equal(pub33(g.us), pub33(k))
}

var errSim = errors.New("simulated failure of lnd")

// lnd simulates lnd's view of this graph.
func (g *graph) lnd() *fakeLnd {
	f := newFakeLnd(g.us)
	for _, p := range g.peers {
		p.vertex()
	}
	f.onSend = func(context.Context, lndclient.CustomMessage) error {
		return errSim
	}
	f.onChannels = func(_ context.Context, active, public bool) (
		[]lndclient.ChannelInfo, error) {

		if g.listFail {
			return nil, g.listErr
		}
		var out []lndclient.ChannelInfo
		for _, p := range g.peers {
			for i := range p.active {
				if active && !p.active[i] ||
					public && p.private[i] {

					continue
				}
				c := lndclient.ChannelInfo{
					ChannelID:   uint64(len(out)),
					Active:      p.active[i],
					Private:     p.private[i],
					PubKeyBytes: p.vertex(),
				}
				at := c.PubKeyBytes
				at[4] ^= byte(i)
				garnish(at, &c, "Active", "Private",
					"ChannelID")
				out = append(out, c)
			}
		}
		rand.New(rand.NewSource(g.order)).Shuffle(len(out),
			func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out, nil
	}
	f.onNode = func(_ context.Context, v route.Vertex, channels bool) (
		*lndclient.NodeInfo, error) {

		for _, p := range g.peers {
			if p.vertex() != v {
				continue
			}
			switch p.info {
			case "not found":
				return nil, status.Error(codes.NotFound,
					"unable to find node")
			case "error":
				return nil, status.Error(p.code, "sim")
			case "plain":
				return nil, p.err
			}
			// The list is of the public channels only.
			info := &lndclient.NodeInfo{ChannelCount: p.public}
			for _, private := range p.private {
				if private {
					info.ChannelCount++
				}
			}
			if p.info != "no node" {
				info.Node = &lndclient.Node{PubKey: v,
					Features: p.features}
				garnish(v, info.Node, "Features")
			}
			garnish(v, info, "ChannelCount")
			for i := 0; channels && i < p.public; i++ {
				info.Channels = append(info.Channels,
					edgeOf(v, i))
			}
			return info, nil
		}
		return nil, status.Error(codes.NotFound, "unable to find node")
	}
	return f
}

// want gives the peers that may be the introduction node, or the error.
func (g *graph) want() (best []*gpeer, err error, mustFail bool) {
	if g.listFail {
		return nil, nil, true
	}
	any := false
	for _, p := range g.peers {
		if !p.isActive() {
			continue
		}
		any = true
		if p.info == "error" || p.info == "plain" {
			mustFail = true
		}
	}
	if !any {
		return nil, routes.ErrNoChannels, true
	}
	if mustFail {
		return nil, nil, true
	}
	for _, p := range g.peers {
		if p.why(g.required) != "" {
			continue
		}
		switch {
		case len(best) == 0 || p.public > best[0].public:
			best = []*gpeer{p}
		case p.public == best[0].public:
			best = append(best, p)
		}
	}
	if len(best) == 0 {
		return nil, routes.ErrNoRelayingPeers, true
	}
	return best, nil, false
}

func (g *graph) reasons() string {
	n := map[string]int{}
	for _, p := range g.peers {
		n[p.why(g.required)]++
	}
	return fmt.Sprint(n)
}

// checkPath follows a generated path with a message, from its introduction
// node to us.
func (g *graph) checkPath(r *rand.Rand, p *rpath, best []*gpeer) {
	var intro *gpeer
	for _, b := range best {
		if bytes.Equal(pub33(b.key), p.intro) {
			intro = b
		}
	}
	if intro == nil {
		Fail("introduction node %x is not among the best %d eligible "+
			"peers; %s", p.intro[:4], len(best), g)
	}
	if len(p.hops) < 2 {
		Fail("path with %d hops; %s", len(p.hops), g)
	}
	final := rfinals(r, 1+r.Intn(3), 40)
	msg := refMessage(r, p, &rpayload{final: final})
	at := newPeeler(intro.key)
	for i := 0; ; i++ {
		if i > len(p.hops) {
			Fail("the path does not end; %s", g)
		}
		l, err := at.peel(msg)
		if err != nil {
			Fail("hop %d of the generated path can't process a "+
				"message: %v; %s", i, err, g)
		}
		if l.exit {
			if !bytes.Equal(pub33(at.key), pub33(g.us)) {
				Fail("the path ends at %x, not at us; %s",
					pub33(at.key)[:4], g)
			}
			if len(l.payload.final) != len(final) {
				Fail("payloads lost on the path; %s", g)
			}
			return
		}
		// Relays must be us, or eligible peers.
		var next *btcec.PrivateKey
		if bytes.Equal(l.next, pub33(g.us)) {
			next = g.us
		}
		for _, q := range g.peers {
			if bytes.Equal(l.next, pub33(q.key)) &&
				q.why(g.required) == "" {

				next = q.key
			}
		}
		if next == nil {
			Fail("hop %d of the path points to %x, which is not "+
				"us; %s", i, l.next, g)
		}
		at, msg = newPeeler(next), wireMsg(l.blind, l.blob)
	}
}

func sphinxPath(bp *sphinx.BlindedPath) *rpath {
	out := &rpath{
		intro:    bp.IntroductionPoint.SerializeCompressed(),
		blinding: bp.BlindingPoint.SerializeCompressed(),
	}
	for i := range bp.BlindedHops {
		out.hops = append(out.hops, rhop{
			bp.BlindedHops[i].SerializeCompressed(),
			bp.EncryptedData[i],
		})
	}
	return out
}

func rpcPath(p *offersrpc.BlindedPath) *rpath {
	if p == nil {
		return nil
	}
	out := &rpath{intro: p.IntroductionNode, blinding: p.BlindingPoint}
	for _, h := range p.Hops {
		out.hops = append(out.hops, rhop{h.BlindedNodeId,
			h.EncryptedData})
	}
	return out
}

func runC12(v *V) {
	ctx := context.Background()

	v.Cases("generator", 8, v.N(3000, 120000), func(i int, r *rand.Rand) {
		g := genGraph(r)
		f := g.lnd()
		gen := routes.NewBlindedRouteGenerator(f, g.us.PubKey())
		times := 1
		if r.Intn(5) == 0 {
			times = 2 + r.Intn(4)
		}
		for j := 0; j < times; j++ {
			if j > 0 {
				g.age(r)
				v.Count("paths through a network that changed", 1)
			}
			best, want, fail := g.want()
			bp, err := gen.ReplyPath(ctx, g.required)
			switch {
			case fail && err == nil:
				Fail("generated a path, although none is "+
					"eligible: %s", g)
			case fail && want != nil && !errors.Is(err, want):
				Fail("wrong error %v, want %v: %s", err, want, g)
			case !fail && err != nil:
				Fail("no path generated: %v; %s", err, g)
			case fail:
				v.Count("refused", 1)
			default:
				g.checkPath(r, sphinxPath(bp), best)
				v.Count("paths followed to us", 1)
			}
			v.Distinct(g.reasons(), fail, want)
			v.Sample("generator", map[string]string{
				"graph": g.String(), "error": fmt.Sprint(err)})
		}
	})

	v.Cases("rpc", 8, v.N(500, 8000), func(i int, r *rand.Rand) {
		g := genGraph(r)
		f := g.lnd()
		n := startNode(f)
		defer n.stop()

		for j := 0; j < 4; j++ {
			if j > 0 && r.Intn(2) == 0 {
				g.age(r)
			} else if j > 0 {
				g.required = pickFeatures(r, r.Intn(3))
			}
			best, _, fail := g.want()
			req := &offersrpc.GenerateBlindedRouteRequest{}
			for _, b := range g.required {
				req.Features = append(req.Features, uint64(b))
			}
			if k := len(req.Features); k > 0 && r.Intn(5) == 0 {
				// The same ones over and over.
				for j := 300 + r.Intn(2000); j > 0; j-- {
					req.Features = append(req.Features,
						req.Features[r.Intn(k)])
				}
				v.Count("requests that repeat features", 1)
			}
			bad := r.Intn(5) == 0
			if bad {
				o := []uint64{65536, 65537, 1 << 17, 1<<32 + 14,
					1 << 63, 1<<64 - 1, 65536 + uint64(r.Intn(1<<20))}
				k := r.Intn(len(req.Features) + 1)
				req.Features = append(req.Features[:k:k],
					append([]uint64{o[r.Intn(len(o))]},
						req.Features[k:]...)...)
			}
			resp, err := n.client.GenerateBlindedRoute(ctx, req)
			code := status.Code(err)
			switch {
			case bad && code != codes.InvalidArgument:
				Fail("features %v: code %v (%v), want %v",
					req.Features, code, err,
					codes.InvalidArgument)
			case bad:
				v.Count("rpc invalid", 1)
			case fail && code != codes.Internal:
				Fail("code %v (%v), want %v: %s", code, err,
					codes.Internal, g)
			case fail:
				v.Count("rpc refused", 1)
			case err != nil:
				Fail("rpc failed: %v; %s", err, g)
			default:
				if resp.Route == nil {
					Fail("no route in the response; %s", g)
				}
				g.checkPath(r, rpcPath(resp.Route), best)
				v.Count("rpc paths followed to us", 1)
			}
			v.Distinct("rpc", bad, g.reasons(), code)
		}
	})

	v.Require("paths followed to us", 200)
	v.Require("refused", 200)
	v.Require("paths through a network that changed", 300)
	v.Require("rpc paths followed to us", 50)
	v.Require("rpc invalid", 20)
}

// onionEphemeral is the key in an onion's header.
func onionEphemeral(msg []byte) []byte { return msg[36:69] }

// chunks gives pieces of a value that must not occur in clear.
func chunks(b []byte) [][]byte {
	var out [][]byte
	for len(b) >= 12 {
		out = append(out, b[:12])
		b = b[12:]
	}
	return out
}

func runC13(v *V) {
	ctx := context.Background()
	seen := newUniq()

	v.Cases("send", 8, v.N(60, 2500), func(i int, r *rand.Rand) {
		us := newFakeLnd(rkey(r))
		rec := newRecorder()
		// A message that could not be sent may have been seen.
		var lost error
		us.onSend = func(ctx context.Context,
			m lndclient.CustomMessage) error {

			_ = rec.outgoing(ctx, m)
			return lost
		}
		keys := rkeys(r, 1+r.Intn(5))
		var p []route.Vertex
		for _, k := range keys {
			p = append(p, vertex(k.PubKey()))
		}
		us.onRoutes = func(context.Context, lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf(p), nil
		}
		direct := r.Intn(4) == 0
		us.onPeers = func(context.Context) ([]lndclient.Peer, error) {
			return []lndclient.Peer{peerOf(p[len(p)-1])}, nil
		}
		m := us.messenger(func(error) {})

		// Everything in here must stay confidential.
		var secrets [][]byte
		var reply, dest *rpath
		if r.Intn(2) == 0 {
			reply = rpathGen(r, 2, 30)
			secrets = append(secrets, reply.intro[1:],
				reply.blinding[1:])
			for _, h := range reply.hops {
				secrets = append(secrets, h.id[1:])
				secrets = append(secrets, chunks(h.enc)...)
			}
		}
		var peer *btcec.PublicKey
		last := keys[len(keys)-1]
		if r.Intn(2) == 0 {
			nodes := append([]*btcec.PublicKey{last.PubKey()},
				pubs(rkeys(r, 1+r.Intn(2)))...)
			dest = blindPath(rkey(r), nodes, plainData(nodes))
			for _, h := range dest.hops {
				secrets = append(secrets, h.id[1:])
				secrets = append(secrets, chunks(h.enc)...)
			}
			for _, n := range nodes {
				secrets = append(secrets,
					n.SerializeCompressed()[1:])
			}
		} else {
			peer = last.PubKey()
		}
		for _, k := range keys {
			secrets = append(secrets, pub33(k)[1:])
		}
		secrets = append(secrets, pub33(us.key)[1:], us.key.Serialize())
		final := rfinals(r, r.Intn(3), 60)
		for _, f := range final {
			secrets = append(secrets, chunks(f.v)...)
		}
		// A message to the introduction node of a blinded path by a
		// direct connection, or over one hop, uses the path's own
		// blinding point.
		reuse := dest != nil && (direct || len(keys) == 1)

		n := 6
		for j := 0; j < n; j++ {
			lost = nil
			if r.Intn(3) == 0 {
				lost = bareErr(r)
				v.Count("messages that lnd did not send", 1)
			}
			err := m.SendMessage(ctx, onionmsg.NewSendMessageRequest(
				peer, dest.toReplyPath(), reply.toReplyPath(),
				toFinal(final), direct,
			))
			if (lost == nil) != (err == nil) {
				Fail("send: %v, lnd's error: %v", err, lost)
			}
			_, sent := rec.take()
			if len(sent) != 1 {
				Fail("%d messages for one send", len(sent))
			}
			msg := sent[0].Data
			blind, blob, err := parseWire(msg)
			if err != nil {
				Fail("malformed message %x: %v", msg, err)
			}
			if len(msg) != 1401 || len(blob) != 1366 {
				Fail("message of %d bytes (onion %d): sizes "+
					"tell messages apart", len(msg), len(blob))
			}
			if bytes.Equal(blind, onionEphemeral(msg)) {
				Fail("blinding point %x is the onion's key too",
					blind)
			}
			seen.add("onion key", onionEphemeral(msg))
			if !reuse {
				seen.add("blinding point", blind)
			} else if !bytes.Equal(blind, dest.blinding) {
				Fail("blinding point %x, the blinded path has "+
					"%x", blind, dest.blinding)
			}
			seen.add("routing info", blob[34:34+64])
			seen.add("onion hmac", blob[34+1300:])
			// Last two blocks, so that padding must differ too.
			seen.add("end of routing info",
				blob[34+1300-64:34+1300])
			for _, s := range secrets {
				if bytes.Contains(msg, s) {
					Fail("message has %x in clear", s)
				}
			}
			// Long runs of one byte are padding in clear.
			if n := longestRun(blob[1:]); n >= 9 {
				Fail("onion has a run of %d equal bytes: %x", n,
					blob)
			}
			v.Count("messages", 1)
			v.Count("secrets looked for", int64(len(secrets)))
			v.Distinct(string(msg))
		}
		v.Sample("send", map[string]interface{}{"path": len(keys),
			"direct": direct, "blinded": dest != nil,
			"reply": reply != nil, "secrets": len(secrets)})
	})

	// One messenger that lives long.
	v.Cases("many sends", 2, v.N(2, 4), func(i int, r *rand.Rand) {
		us := newFakeLnd(rkey(r))
		peer := rkey(r).PubKey()
		us.onPeers = func(context.Context) ([]lndclient.Peer, error) {
			return []lndclient.Peer{peerOf(vertex(peer))}, nil
		}
		var mtx sync.Mutex
		var msgs [][]byte
		us.onSend = func(_ context.Context,
			m lndclient.CustomMessage) error {

			mtx.Lock()
			defer mtx.Unlock()
			msgs = append(msgs, m.Data)
			return nil
		}
		m := us.messenger(func(error) {})
		n := v.N(4500, 70000)
		if i == 0 {
			n = 68000
		}
		final := toFinal(rfinals(r, 1, 60))
		var wg sync.WaitGroup
		var failed atomic.Value
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n/4; j++ {
					err := m.SendMessage(ctx,
						onionmsg.NewSendMessageRequest(
							peer, nil, nil, final,
							true))
					if err != nil {
						failed.Store(err)
						return
					}
				}
			}()
		}
		wg.Wait()
		if err := failed.Load(); err != nil {
			Fail("send: %v", err)
		}
		for _, msg := range msgs {
			blind, blob, err := parseWire(msg)
			if err != nil {
				Fail("malformed message %x: %v", msg, err)
			}
			seen.add("onion key", onionEphemeral(msg))
			seen.add("blinding point", blind)
			seen.add("onion hmac", blob[34+1300:])
			v.Count("messages of a busy node", 1)
		}
		v.Distinct("many", i)
	})

	// As do the paths of one generator.
	v.Cases("many paths", 2, v.N(2, 4), func(i int, r *rand.Rand) {
		g := &graph{us: rkey(r), peers: []*gpeer{{
			key: rkey(r), channels: 1, active: []bool{true},
			private: []bool{false}, info: "ok", public: 3,
		}}}
		gen := routes.NewBlindedRouteGenerator(g.lnd(), g.us.PubKey())
		var wg sync.WaitGroup
		var failed atomic.Value
		all := make([][]*rpath, 8)
		for w := range all {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, n := 0, v.N(600, 9000); j < n; j++ {
					bp, err := gen.ReplyPath(ctx, nil)
					if err != nil {
						failed.Store(err)
						return
					}
					all[w] = append(all[w], sphinxPath(bp))
				}
			}()
		}
		wg.Wait()
		if err := failed.Load(); err != nil {
			Fail("path: %v", err)
		}
		var paths []*rpath
		for w := range all {
			paths = append(paths, all[w]...)
		}
		for _, p := range paths {
			seen.add("blinding point", p.blinding)
			for _, h := range p.hops {
				seen.add("blinded node id", h.id)
			}
			v.Count("paths of a busy node", 1)
		}
		v.Distinct("many paths", i)
	})

	v.Cases("paths", 8, v.N(60, 2500), func(i int, r *rand.Rand) {
		g := &graph{us: rkey(r), peers: []*gpeer{{
			key: rkey(r), channels: 1, active: []bool{true},
			private: []bool{false}, info: "ok", public: 3,
		}}}
		gen := routes.NewBlindedRouteGenerator(g.lnd(), g.us.PubKey())
		for j := 0; j < 5; j++ {
			bp, err := gen.ReplyPath(ctx, nil)
			if err != nil {
				Fail("path: %v", err)
			}
			p := sphinxPath(bp)
			seen.add("blinding point", p.blinding)
			enc := p.encode()
			for k, h := range p.hops {
				seen.add("blinded node id", h.id)
				if k == 0 && len(h.enc) >= 16 {
					seen.add("encrypted data", h.enc)
				}
			}
			if bytes.Contains(enc, pub33(g.us)[1:]) {
				Fail("path to us has our key in clear: %x", enc)
			}
			if n := bytes.Count(enc, pub33(g.peers[0].key)[1:]); n != 1 {
				Fail("introduction node occurs %d times in the "+
					"path", n)
			}
			v.Count("paths", 1)
			v.Distinct(p.String())
		}
	})

	v.Cases("forward", 4, v.N(12, 300), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		for j := 0; j < 8; j++ {
			nodes := []*btcec.PublicKey{p.lnd.key.PubKey(),
				rkey(r).PubKey(), rkey(r).PubKey()}
			path := blindPath(rkey(r), nodes, plainData(nodes))
			msg := refMessage(r, path, &rpayload{
				final: rfinals(r, 1, 30)})
			p.lnd.inject(p.peer, onionType, msg)
			_, sent := p.flush()
			if len(sent) != 1 {
				Fail("%d messages forwarded for one", len(sent))
			}
			out := sent[0].Data
			if len(out) != len(msg) {
				Fail("size changes from %d to %d when forwarded",
					len(msg), len(out))
			}
			seen.add("blinding point", msg[:33])
			seen.add("blinding point", out[:33])
			seen.add("onion key", onionEphemeral(msg))
			seen.add("onion key", onionEphemeral(out))
			if n := common(msg[35+34:], out[35+34:]); n > 0 {
				Fail("message and its forwarded form share %d "+
					"blocks", n)
			}
			v.Count("forwards", 1)
		}
	})

	v.Require("messages", 200)
	v.Require("messages of a busy node", 4000)
	v.Require("messages that lnd did not send", 40)
	v.Require("paths of a busy node", 2000)
	v.Require("paths", 200)
	v.Require("forwards", 50)
}

// common counts the 16 byte blocks at any offset that two messages share.
func common(a, b []byte) int {
	set := map[string]bool{}
	for i := 0; i+16 <= len(a); i++ {
		set[string(a[i:i+16])] = true
	}
	n := 0
	for i := 0; i+16 <= len(b); i++ {
		if set[string(b[i:i+16])] {
			n++
		}
	}
	return n
}

func longestRun(b []byte) int {
	best, n := 0, 0
	for i := range b {
		if i > 0 && b[i] == b[i-1] {
			n++
		} else {
			n = 1
		}
		if n > best {
			best = n
		}
	}
	return best
}
