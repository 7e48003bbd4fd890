package main

import (
	"bytes"
	"context"
	"encoding/base32"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register("C20", "sends with generated views of the network (routes, "+
		"peers, addresses, the time it takes to connect) and failures "+
		"of each call to lnd; non-trivial when the combination of "+
		"view, failure and outcome is new", runC20)
	register("C21", "generated requests with any subset of fields valid, "+
		"over grpc, with lnd failing at any call; non-trivial when the "+
		"combination of validity and status is new", runC21)
}

// sendCase is one send, with all it depends on.
type sendCase struct {
	us     *btcec.PrivateKey
	keys   []*btcec.PrivateKey // the route, up to the target
	blind  []*btcec.PrivateKey // nodes of the blinded path after the target
	direct bool
	dest   *rpath
	reply  *rpath
	final  []rec
	routes string // outcome of route finding
	peer   string // how the target relates to us
	after  int    // polls until connected
	send   error
	fault  error // of the call that fails
	addrs  []string
	hurry  time.Duration
}

func (c *sendCase) String() string {
	return fmt.Sprintf("direct %v, blinded %d, %d hops, routes %q, peer %q "+
		"after %d, addresses %d, send error %v, fault %v", c.direct, len(c.blind),
		len(c.keys), c.routes, c.peer, c.after, len(c.addrs), c.send,
		c.fault)
}

// raddr is an address that nodes announce.
func raddr(r *rand.Rand) string {
	port := []int{9735, 1, 80, 9736, 65535, 1 + r.Intn(65535)}[r.Intn(6)]
	switch r.Intn(9) {
	case 0:
		return fmt.Sprintf("[2001:db8::%x]:%d", r.Intn(1<<16), port)
	case 1:
		return fmt.Sprintf("[fe80::%x]:%d", r.Intn(1<<16), port)
	case 2:
		return fmt.Sprintf("%s.onion:%d", strings.ToLower(
			base32.StdEncoding.EncodeToString(rbytes(r, 35))), port)
	case 3:
		return fmt.Sprintf("%s.onion:%d", strings.ToLower(
			base32.StdEncoding.EncodeToString(rbytes(r, 10))), port)
	case 4:
		return fmt.Sprintf("127.0.0.1:%d", port)
	case 5:
		return fmt.Sprintf("192.168.%d.%d:%d", r.Intn(256), r.Intn(256),
			port)
	case 6:
		return fmt.Sprintf("node%d.example.com:%d", r.Intn(99), port)
	}
	return fmt.Sprintf("10.0.0.%d:%d", r.Intn(256), port)
}

func genSend(r *rand.Rand) *sendCase {
	// Different nodes, which may have keys that are negations of each
	// other's.
	keys := freshKeys(r, 2+r.Intn(4))
	c := &sendCase{us: keys[0], keys: keys[1:], direct: r.Intn(2) == 0}
	if r.Intn(16) == 0 {
		// To ourselves, for which lnd has the last word.
		c.keys[len(c.keys)-1] = c.us
	}
	if r.Intn(10) == 0 {
		// About as many as fit.
		c.keys = freshKeys(r, 6+r.Intn(8))
	}
	if r.Intn(3) == 0 {
		c.blind = rkeys(r, 1+r.Intn(3))
		nodes := pubs(append([]*btcec.PrivateKey{c.target()},
			c.blind...))
		c.dest = blindPath(rkey(r), nodes, plainData(nodes))
	}
	if r.Intn(3) == 0 {
		c.reply = rpathGen(r, 2, 40)
	}
	c.final = rfinals(r, r.Intn(4), 60)
	if r.Intn(2) == 0 {
		c.unusual(r)
	}
	if !c.fits() {
		c.reply, c.final = nil, nil
	}
	for !c.fits() {
		c.keys = c.keys[1:]
	}
	c.routes = "ok"
	switch r.Intn(9) {
	case 0:
		c.routes = "none"
	case 1:
		c.routes = "empty"
	case 2:
		c.routes = "error"
	case 3:
		c.routes = "nil pubkey"
	case 4:
		c.routes = "bad pubkey"
	}
	c.peer = []string{"peer", "peer", "peer", "connects", "connects",
		"list error", "lookup error", "no addresses", "connect error",
		"list error later"}[r.Intn(10)]
	if c.peer == "connects" || c.peer == "list error later" {
		// Polling goes on each second.
		if r.Intn(12) == 0 || c.peer == "list error later" &&
			r.Intn(3) == 0 {

			c.after = 1 + r.Intn(3)
		}
	}
	for c.fault == nil || c.fault == lndclient.ErrNoRouteFound {
		c.fault = bareErr(r)
	}
	if r.Intn(5) == 0 {
		c.send = bareErr(r)
	}
	if r.Intn(3) == 0 && c.after == 0 {
		c.hurry = time.Duration(200+r.Intn(5000)) * time.Millisecond
	}
	for j := 1 + r.Intn(3); j > 0; j-- {
		c.addrs = append(c.addrs, raddr(r))
	}
	return c
}

// unusual makes what is sent as long as an onion allows in one dimension, or
// makes its parts the same or related.
func (c *sendCase) unusual(r *rand.Rand) {
	reply, final := c.reply, c.final
	defer func() {
		for k := 0; k < 6 && !c.fits(); k++ {
			// A bit less.
			switch n := len(c.final); {
			case c.reply != nil && len(c.reply.hops) > 3:
				h := c.reply.hops
				c.reply.hops = h[:len(h)-1-r.Intn(3)]
			case n > 1:
				c.final = c.final[:n-1-n/8]
			case n == 1:
				l := len(c.final[0].v)
				c.final[0].v = c.final[0].v[:l-l/6]
			}
		}
		if !c.fits() {
			c.reply, c.final = reply, final
		}
	}()
	switch r.Intn(5) {
	case 0:
		c.reply = rpathGen(r, 36, []int{0, 0, 10, 200}[r.Intn(4)])
	case 1:
		c.final = rfinals(r, 1+r.Intn(150), 0)
	case 2:
		c.final = rfinals(r, 1, 1200)
	case 3:
		// The sender is who the message is for, or pretends to be.
		if c.dest != nil {
			p := *c.dest
			switch r.Intn(4) {
			case 0:
				p.blinding = pub33(rkey(r))
			case 1:
				p.hops = p.hops[len(p.hops)-1:]
			case 2:
				p.intro = pub33(rkey(r))
			}
			c.reply = &p
		} else {
			c.reply = rpathGen(r, 3, 20)
			c.reply.intro = pub33(c.target())
		}
	case 4:
		c.reply = rpathGen(r, 3, 20)
		k := pub33(c.us)
		switch r.Intn(3) {
		case 0:
			c.reply.intro = k
		case 1:
			c.reply.blinding = c.reply.intro
		case 2:
			for i := range c.reply.hops {
				c.reply.hops[i] = c.reply.hops[0]
			}
		}
	}
}

// fits reports whether the message fits in an onion, sent in either way.
func (c *sendCase) fits() bool {
	x := &routeCase{own: c.keys, dest: c.dest, reply: c.reply,
		final: c.final}
	y := *x
	y.own = c.keys[len(c.keys)-1:]
	return x.size() <= 1300 && y.size() <= 1300 && x.hops() <= 27
}

func (c *sendCase) target() *btcec.PrivateKey { return c.keys[len(c.keys)-1] }

func (c *sendCase) request() *onionmsg.SendMessageRequest {
	var peer *btcec.PublicKey
	if c.dest == nil {
		peer = c.target().PubKey()
	}
	return onionmsg.NewSendMessageRequest(peer, c.dest.toReplyPath(),
		c.reply.toReplyPath(), toFinal(c.final), c.direct)
}

// watch is what the simulated lnd saw.
type watch struct {
	mu       sync.Mutex
	sent     []lndclient.CustomMessage
	peered   bool
	polls    int
	connects []string
	problems []string
}

func (w *watch) problem(format string, args ...interface{}) {
	w.problems = append(w.problems, fmt.Sprintf(format, args...))
}

var (
	crowdOnce sync.Once
	crowdKeys []route.Vertex
)

// crowdKey gives the key of one of many nodes.
func crowdKey(i int) route.Vertex {
	crowdOnce.Do(func() {
		r := rand.New(rand.NewSource(7))
		for len(crowdKeys) < 512 {
			crowdKeys = append(crowdKeys, vertex(rkey(r).PubKey()))
		}
	})
	return crowdKeys[i%len(crowdKeys)]
}

func (c *sendCase) lnd(w *watch) *fakeLnd {
	f := newFakeLnd(c.us)
	target := vertex(c.target().PubKey())
	r := rand.New(rand.NewSource(int64(target[5])))

	f.onSend = func(_ context.Context, m lndclient.CustomMessage) error {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.sent = append(w.sent, m)
		if c.direct && !w.peered {
			w.problem("message sent before the peer is connected")
		}
		return c.send
	}
	f.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.polls++
		if c.peer == "list error" {
			return nil, c.fault
		}
		if len(w.connects) > 0 {
			if c.peer == "list error later" &&
				w.polls-2 == c.after {

				return nil, c.fault
			}
			// By the time lnd answers again, it is connected.
			if c.peer == "list error later" &&
				w.polls-2 > c.after {

				w.peered = true
			}
			if c.peer == "connects" && w.polls-2 >= c.after {
				w.peered = true
			}
		}
		var out []lndclient.Peer
		// The key of another peer may have the same x coordinate.
		other := func() {
			k := rkey(r)
			if r.Intn(2) == 0 {
				k = negKey(c.target())
			}
			out = append(out, peerOf(vertex(k.PubKey())))
		}
		n := r.Intn(4)
		if target[6] < 16 {
			// Quite a few of them.
			n += 8 * int(target[7])
		}
		for j := 0; j < n; j++ {
			if j < 4 {
				other()
				continue
			}
			if at := crowdKey(j); at != target {
				out = append(out, peerOf(at))
			}
		}
		if c.peer == "peer" {
			w.peered = true
		}
		if w.peered {
			out = append(out, peerOf(target))
		}
		for j := r.Intn(3); j > 0; j-- {
			other()
		}
		return out, nil
	}
	f.onNode = func(_ context.Context, v route.Vertex, _ bool) (
		*lndclient.NodeInfo, error) {

		w.mu.Lock()
		defer w.mu.Unlock()
		if v != target {
			w.problem("looked up %v", v)
		}
		info := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v,
			Addresses: append([]string{}, c.addrs...)}}
		garnish(v, info.Node, "Features")
		garnish(v, info)
		switch c.peer {
		case "lookup error":
			return nil, c.fault
		case "no addresses":
			info.Addresses = nil
		}
		return info, nil
	}
	f.onConnect = func(_ context.Context, v route.Vertex, host string,
		_ bool) error {

		w.mu.Lock()
		defer w.mu.Unlock()
		ok := false
		for _, a := range c.addrs {
			ok = ok || a == host
		}
		if v != target || !ok {
			w.problem("connecting to %v at %q", v, host)
		}
		w.connects = append(w.connects, host)
		if c.peer == "connect error" {
			return c.fault
		}
		return nil
	}
	f.onRoutes = func(_ context.Context, q lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		w.mu.Lock()
		defer w.mu.Unlock()
		if q.PubKey != target {
			w.problem("routes queried to %v", q.PubKey)
		}
		// Any channel does: the only routes are over channels that are
		// expensive, tiny, and have failed payments before.
		if q.AmtMsat > lndwire.MilliSatoshi(1000) ||
			q.FeeLimitMsat < lndwire.NewMSatFromSatoshis(
				1_000_000_000) || q.UseMissionControl {

			return nil, lndclient.ErrNoRouteFound
		}
		var vs []route.Vertex
		for _, k := range c.keys {
			vs = append(vs, vertex(k.PubKey()))
		}
		resp := hopsOf(vs)
		at := r.Intn(len(resp.Hops))
		switch c.routes {
		case "none":
			return nil, lndclient.ErrNoRouteFound
		case "empty":
			resp.Hops = nil
		case "error":
			return nil, c.fault
		case "nil pubkey":
			resp.Hops[at].PubKey = nil
		case "bad pubkey":
			var bad route.Vertex
			bad[0] = byte(2 + r.Intn(2))
			copy(bad[1:], notOnCurve(r))
			resp.Hops[at].PubKey = &bad
		}
		return resp, nil
	}
	return f
}

// want gives the error that a send must fail with, or any error if err is nil
// and fails is set.
func (c *sendCase) want() (fails bool, err error) {
	if c.direct {
		switch c.peer {
		case "list error":
			return true, c.fault
		case "lookup error":
			return true, c.fault
		case "no addresses":
			return true, onionmsg.ErrNoAddresses
		case "connect error":
			return true, c.fault
		case "list error later":
			// This cause isn't preserved by the code.
			return true, nil
		}
	} else {
		switch c.routes {
		case "none", "empty":
			return true, onionmsg.ErrNoPath
		case "error":
			return true, c.fault
		case "nil pubkey":
			return true, onionmsg.ErrNilPubkeyInRoute
		case "bad pubkey":
			return true, nil
		}
	}
	if c.send != nil {
		return true, c.send
	}
	return false, nil
}

// sends reports whether a message must reach lnd.
func (c *sendCase) sends() bool {
	d := *c
	d.send = nil
	fails, _ := d.want()
	return !fails
}

// checkSent peels the message that was sent along the route.
func (c *sendCase) checkSent(m lndclient.CustomMessage) {
	hops := append([]*btcec.PrivateKey{}, c.keys...)
	if c.direct {
		hops = []*btcec.PrivateKey{c.target()}
	}
	hops = append(hops, c.blind...)
	if m.Peer != vertex(hops[0].PubKey()) {
		Fail("sent to %v, first hop is %x; %s", m.Peer, pub33(hops[0]),
			c)
	}
	if m.MsgType != onionType {
		Fail("sent with message type %d", m.MsgType)
	}
	msg := m.Data
	for i, k := range hops {
		l, err := newPeeler(k).peel(msg)
		if err != nil {
			Fail("hop %d of %d can't process the message: %v; %s",
				i, len(hops), err, c)
		}
		if l.exit != (i == len(hops)-1) {
			Fail("exit %v at hop %d of %d; %s", l.exit, i,
				len(hops), c)
		}
		if !l.exit {
			if !bytes.Equal(l.next, pub33(hops[i+1])) {
				Fail("hop %d points to %x, want %x; %s", i,
					l.next, pub33(hops[i+1]), c)
			}
			msg = wireMsg(l.blind, l.blob)
			continue
		}
		want := &rpayload{reply: c.reply, enc: l.payload.enc,
			final: c.final}
		if want.String() != l.payload.String() {
			Fail("recipient gets %s, want %s; %s", l.payload, want,
				c)
		}
	}
}

func runC20(v *V) {
	check := func(m *onionmsg.Messenger, c *sendCase, w *watch) {
		var err error
		ctx, quick := context.Background(), false
		if c.hurry > 0 {
			var cancel func()
			ctx, cancel = context.WithTimeout(ctx, c.hurry)
			defer cancel()
		}
		req := c.request()
		within("send", func() { err = m.SendMessage(ctx, req) })
		if c.hurry > 0 {
			v.Count("sends with a deadline", 1)
			// A busy machine may be too slow.
			quick = ctx.Err() != nil
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if quick {
			v.Count("deadlines that passed", 1)
			return
		}
		if len(w.problems) != 0 {
			Fail("%v; %s", w.problems, c)
		}
		fails, want := c.want()
		switch {
		case fails && err == nil:
			Fail("send succeeded; %s", c)
		case fails && want != nil && !errors.Is(err, want):
			Fail("send failed with %v, want %v; %s", err, want, c)
		case !fails && err != nil:
			Fail("send failed: %v; %s", err, c)
		}
		n := 0
		if c.sends() {
			n = 1
		}
		if len(w.sent) != n {
			Fail("%d messages sent, want %d; %s", len(w.sent), n, c)
		}
		if n == 1 {
			c.checkSent(w.sent[0])
			v.Count("messages peeled to the recipient", 1)
		}
		conn := 0
		if c.direct && (c.peer == "connects" || c.peer ==
			"connect error" || c.peer == "list error later") {
			conn = 1
		}
		if len(w.connects) != conn {
			Fail("%d connections made, want %d; %s",
				len(w.connects), conn, c)
		}
		if !fails && (!c.direct || c.peer == "peer") {
			// The request can be used once more.
			w.mu.Unlock()
			within("send", func() {
				err = m.SendMessage(context.Background(), req)
			})
			w.mu.Lock()
			if err != nil || len(w.sent) != 2 {
				Fail("another send of the same request: %v, %d "+
					"messages; %s", err, len(w.sent), c)
			}
			c.checkSent(w.sent[1])
			v.Count("requests sent again", 1)
		}
		v.Count(fmt.Sprintf("direct=%v failed=%v", c.direct, fails), 1)
		v.Distinct(c.direct, c.routes, c.peer, c.after, len(c.keys),
			len(c.blind), c.reply != nil, c.send != nil)
		v.Sample("send", c.String())
	}
	v.Cases("send", 64, v.N(1500, 40000), func(i int, r *rand.Rand) {
		c := genSend(r)
		w := &watch{}
		f := c.lnd(w)
		check(f.messenger(func(error) {}), c, w)
		if c.direct && f.callCount("QueryRoutes") != 0 {
			v.Count("routes queried for a direct send", 1)
		}
	})

	// A series of sends of one messenger, while the network changes: peers
	// come and go, routes fail and work again. Nothing that was once true
	// of a node has to be true the next time.
	v.Cases("history", 32, v.N(150, 4000), func(i int, r *rand.Rand) {
		f := newFakeLnd(rkey(r))
		m := f.messenger(func(error) {})
		if r.Intn(2) == 0 {
			if err := m.Start(); err != nil {
				Fail("start: %v", err)
			}
			defer within("stop", func() { _ = m.Stop() })
		}
		var before []*sendCase
		for j := 4 + r.Intn(10); j > 0; j-- {
			c := genSend(r)
			c.us = f.key
			// Mostly the same few targets, along the same route or
			// another one.
			if len(before) > 0 && r.Intn(4) != 0 {
				b := before[r.Intn(len(before))]
				if r.Intn(2) == 0 {
					c.keys = b.keys
				} else {
					c.keys[len(c.keys)-1] = b.target()
				}
				if c.dest != nil {
					nodes := pubs(append(
						[]*btcec.PrivateKey{c.target()},
						c.blind...))
					c.dest = blindPath(rkey(r), nodes,
						plainData(nodes))
				}
				v.Count("sends to a target again", 1)
			}
			if c.after > 1 {
				c.after = 1
			}
			if !c.fits() {
				c.reply, c.final = nil, nil
			}
			for !c.fits() {
				c.keys = c.keys[1:]
			}
			w := &watch{}
			g := c.lnd(w)
			f.onSend, f.onPeers, f.onNode = g.onSend, g.onPeers,
				g.onNode
			f.onConnect, f.onRoutes = g.onConnect, g.onRoutes
			check(m, c, w)
			before = append(before, c)
		}
	})

	// Requests that can't be sent at all.
	v.Cases("invalid", 8, v.N(200, 2000), func(i int, r *rand.Rand) {
		c := genSend(r)
		c.peer, c.send = "peer", nil
		w := &watch{}
		m := c.lnd(w).messenger(func(error) {})
		req := c.request()
		dest := rpathGen(r, 3, 10).toReplyPath()
		what := ""
		switch r.Intn(8) {
		case 5:
			what = "reply path without hops"
			dest.Hops = nil
			req.ReplyPath = dest
		case 6:
			what = "reply path without keys"
			switch r.Intn(3) {
			case 0:
				dest.FirstNodeID = nil
			case 1:
				dest.BlindingPoint = nil
			case 2:
				dest.Hops[r.Intn(len(dest.Hops))].BlindedNodeID = nil
			}
			req.ReplyPath = dest
		case 7:
			what = "destination without keys"
			switch r.Intn(3) {
			case 0:
				dest.FirstNodeID = nil
			case 1:
				dest.BlindingPoint = nil
			case 2:
				dest.Hops[r.Intn(len(dest.Hops))].BlindedNodeID = nil
			}
			req.Peer, req.BlindedDestination = nil, dest
		case 0:
			what = "no destination"
			req.Peer, req.BlindedDestination = nil, nil
		case 1:
			what = "two destinations"
			req.Peer, req.BlindedDestination = dest.FirstNodeID, dest
		case 2:
			what = "destination without hops"
			dest.Hops = dest.Hops[:0]
			req.Peer, req.BlindedDestination = nil, dest
		case 3:
			what = "final payload type"
			req.FinalPayloads = append(req.FinalPayloads,
				toFinal([]rec{{uint64(r.Intn(64)), nil}})...)
		case 4:
			what = "duplicate final payload"
			req.FinalPayloads = append(req.FinalPayloads,
				toFinal([]rec{{99, nil}, {99, nil}})...)
		}
		var err error
		within("an invalid send", func() {
			err = m.SendMessage(context.Background(), req)
		})
		if err == nil {
			Fail("send with %s succeeded; %s", what, c)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.sent) != 0 {
			Fail("send with %s failed, but sent a message; %s", what,
				c)
		}
		v.Count("invalid sends refused", 1)
		v.Distinct("invalid", what)
	})

	// The peer never shows up, or the caller gives up while waiting.
	v.Cases("never connected", 24, v.N(12, 120), func(i int, r *rand.Rand) {
		c := genSend(r)
		c.direct, c.peer, c.after, c.send = true, "connects", 1<<30, nil
		w := &watch{}
		m := c.lnd(w).messenger(func(error) {})
		ctx := context.Background()
		cancelled := i%2 == 0
		if cancelled {
			var cancel func()
			ctx, cancel = context.WithTimeout(ctx,
				time.Duration(50+r.Intn(1500))*time.Millisecond)
			defer cancel()
		}
		var err error
		within("send to a peer that does not connect", func() {
			err = m.SendMessage(ctx, c.request())
		})
		if err == nil {
			Fail("send succeeded, the peer never connected")
		}
		if cancelled && !errors.Is(err, context.DeadlineExceeded) {
			Fail("cancelled send: %v", err)
		}
		if !cancelled && !errors.Is(err, onionmsg.ErrNoConnection) {
			Fail("send to a peer that never connects: %v", err)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.sent) != 0 || len(w.connects) != 1 {
			Fail("%d messages, %d connections", len(w.sent),
				len(w.connects))
		}
		v.Count("never connected", 1)
	})

	// lnd is slow with one of the calls, and the caller gives up. Calls to
	// lnd end when their context does, and with them the send.
	v.Cases("given up", 32, v.N(200, 4000), func(i int, r *rand.Rand) {
		c := genSend(r)
		c.peer, c.routes, c.send, c.after = "connects", "ok", nil, 0
		w := &watch{}
		f := c.lnd(w)
		slow := []string{"ListPeers", "GetNodeInfo", "Connect",
			"SendCustomMessage"}[r.Intn(4)]
		if !c.direct && slow != "SendCustomMessage" {
			slow = "QueryRoutes"
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var reached int32
		delay := time.Duration(r.Intn(5)) * time.Millisecond
		hang := func(call string, ctx context.Context) error {
			if call != slow {
				return nil
			}
			if atomic.AddInt32(&reached, 1) == 1 {
				go func() {
					time.Sleep(delay)
					cancel()
				}()
			}
			<-ctx.Done()
			return status.FromContextError(ctx.Err()).Err()
		}
		onPeers, onNode, onConnect := f.onPeers, f.onNode, f.onConnect
		onRoutes, onSend := f.onRoutes, f.onSend
		f.onPeers = func(ctx context.Context) ([]lndclient.Peer,
			error) {

			if err := hang("ListPeers", ctx); err != nil {
				return nil, err
			}
			return onPeers(ctx)
		}
		f.onNode = func(ctx context.Context, v route.Vertex, ch bool) (
			*lndclient.NodeInfo, error) {

			if err := hang("GetNodeInfo", ctx); err != nil {
				return nil, err
			}
			return onNode(ctx, v, ch)
		}
		f.onConnect = func(ctx context.Context, v route.Vertex,
			host string, perm bool) error {

			if err := hang("Connect", ctx); err != nil {
				return err
			}
			return onConnect(ctx, v, host, perm)
		}
		f.onRoutes = func(ctx context.Context,
			q lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			if err := hang("QueryRoutes", ctx); err != nil {
				return nil, err
			}
			return onRoutes(ctx, q)
		}
		f.onSend = func(ctx context.Context,
			m lndclient.CustomMessage) error {

			if err := hang("SendCustomMessage", ctx); err != nil {
				return err
			}
			return onSend(ctx, m)
		}
		m := f.messenger(func(error) {})
		var err error
		within(fmt.Sprintf("a send that was cancelled in %s", slow),
			func() { err = m.SendMessage(ctx, c.request()) })
		w.mu.Lock()
		defer w.mu.Unlock()
		if atomic.LoadInt32(&reached) == 0 {
			// Without any peer call: there is nothing to give up.
			v.Count("not slow", 1)
			return
		}
		if err == nil || len(w.sent) != 0 {
			Fail("send cancelled in %s: %v, %d messages; %s", slow,
				err, len(w.sent), c)
		}
		v.Count("given up in "+slow, 1)
		v.Distinct("given up", slow, c.direct, len(c.keys))
	})

	// The caller gives up while lnd answers, which may come first: either
	// the message is sent or the send fails.
	v.Cases("given up late", 32, v.N(300, 6000), func(i int, r *rand.Rand) {
		c := genSend(r)
		c.peer, c.routes, c.send, c.after = "connects", "ok", nil, 0
		if r.Intn(3) == 0 {
			c.peer = "peer"
		}
		w := &watch{}
		f := c.lnd(w)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		at, calls := 1+r.Intn(5), 0
		if !c.direct {
			at = 1 + r.Intn(2)
		}
		call := func() {
			w.mu.Lock()
			defer w.mu.Unlock()
			calls++
			if calls == at {
				cancel()
			}
		}
		onPeers, onNode, onConnect := f.onPeers, f.onNode, f.onConnect
		onRoutes, onSend := f.onRoutes, f.onSend
		f.onPeers = func(ctx context.Context) ([]lndclient.Peer,
			error) {

			call()
			return onPeers(ctx)
		}
		f.onNode = func(ctx context.Context, v route.Vertex, ch bool) (
			*lndclient.NodeInfo, error) {

			call()
			return onNode(ctx, v, ch)
		}
		f.onConnect = func(ctx context.Context, v route.Vertex,
			host string, perm bool) error {

			call()
			return onConnect(ctx, v, host, perm)
		}
		f.onRoutes = func(ctx context.Context,
			q lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			call()
			return onRoutes(ctx, q)
		}
		strict := r.Intn(2) == 0
		f.onSend = func(ctx context.Context,
			m lndclient.CustomMessage) error {

			if err := ctx.Err(); err != nil && strict {
				return status.FromContextError(err).Err()
			}
			call()
			return onSend(ctx, m)
		}
		m := f.messenger(func(error) {})
		var err error
		within("a send that is cancelled meanwhile", func() {
			err = m.SendMessage(ctx, c.request())
		})
		w.mu.Lock()
		defer w.mu.Unlock()
		n := 0
		if err == nil {
			n = 1
		}
		if len(w.problems) != 0 || len(w.sent) != n {
			Fail("send cancelled in call %d of %d: %v, %d messages, "+
				"%v; %s", at, calls, err, len(w.sent), w.problems, c)
		}
		if n == 1 {
			c.checkSent(w.sent[0])
		}
		v.Count(fmt.Sprintf("given up late, sent=%v", n == 1), 1)
		v.Distinct("given up late", at, c.direct, strict, n)
	})

	// Many sends at once on one messenger, while it runs.
	v.Cases("concurrent", 4, v.N(24, 500), func(i int, r *rand.Rand) {
		keys := rkeys(r, 5)
		byVertex := map[route.Vertex]*btcec.PrivateKey{}
		for _, k := range keys {
			byVertex[vertex(k.PubKey())] = k
		}
		f := newFakeLnd(rkey(r))
		f.lag = lags(r)
		out := newRecorder()
		f.onSend = out.outgoing
		f.onRoutes = func(_ context.Context,
			q lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf([]route.Vertex{q.PubKey}), nil
		}
		m := f.messenger(func(error) {})
		if err := m.Start(); err != nil {
			Fail("start: %v", err)
		}
		var wg sync.WaitGroup
		errs := make(chan error, 100)
		for j := 0; j < 40; j++ {
			wg.Add(1)
			j := j
			go func() {
				defer wg.Done()
				errs <- m.SendMessage(context.Background(),
					onionmsg.NewSendMessageRequest(
						keys[j%5].PubKey(), nil, nil,
						toFinal([]rec{{100,
							u64(uint64(j))}}), false))
			}()
		}
		within("concurrent sends", wg.Wait)
		for j := 0; j < 40; j++ {
			if err := <-errs; err != nil {
				Fail("send: %v", err)
			}
		}
		_, sent := out.take()
		got := map[uint64]bool{}
		for _, s := range sent {
			k := byVertex[s.Peer]
			l, err := newPeeler(k).peel(s.Data)
			if err != nil || !l.exit || len(l.payload.final) != 1 {
				Fail("recipient can't process message: %v", err)
			}
			n := u64of(l.payload.final[0].v)
			if n >= 40 || got[n] || keys[n%5] != k {
				Fail("payload %d at the wrong recipient, or "+
					"twice", n)
			}
			got[n] = true
		}
		if len(got) != 40 {
			Fail("%d of 40 messages sent", len(got))
		}
		within("stop", func() { _ = m.Stop() })
		v.Count("concurrent sends", 40)
	})

	// A send that takes forever holds up no other.
	v.Cases("crowd", 2, v.N(4, 100), func(i int, r *rand.Rand) {
		crowd(v, r)
	})

	v.Require("sends in flight at once", 60)
	v.Require("messages peeled to the recipient", 300)
	v.Require("direct=true failed=true", 100)
	v.Require("direct=false failed=true", 100)
	v.Require("sends to a target again", 500)
	v.Require("given up late, sent=true", 30)
	v.Require("given up late, sent=false", 30)
	v.Require("never connected", 10)
	for _, call := range []string{"ListPeers", "GetNodeInfo", "Connect",
		"SendCustomMessage", "QueryRoutes"} {

		v.Require("given up in "+call, 5)
	}
}

// badKey is bytes that are not a public key.
func badKey(r *rand.Rand) []byte {
	k := pub33(rkey(r))
	switch r.Intn(5) {
	case 0:
		return k[:1+r.Intn(31)]
	case 1:
		return append(k, byte(r.Intn(256)))
	case 2:
		k[0] = byte(8 + r.Intn(248))
		return k
	case 3:
		return append([]byte{2}, notOnCurve(r)[1:]...)
	}
	return make([]byte, 33)
}

func rpcBlinded(p *rpath) *offersrpc.BlindedPath {
	if p == nil {
		return nil
	}
	out := &offersrpc.BlindedPath{IntroductionNode: p.intro,
		BlindingPoint: p.blinding}
	for _, h := range p.hops {
		out.Hops = append(out.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: h.id, EncryptedData: h.enc})
	}
	return out
}

// breakPath makes a key of a path invalid.
func breakPath(r *rand.Rand, p *offersrpc.BlindedPath) string {
	n := 2
	if len(p.Hops) > 0 {
		n = 3
	}
	bad := badKey(r)
	if r.Intn(4) == 0 {
		bad = nil
	}
	switch r.Intn(n) {
	case 0:
		p.IntroductionNode = bad
		return "bad introduction node"
	case 1:
		p.BlindingPoint = bad
		return "bad blinding point"
	}
	p.Hops[r.Intn(len(p.Hops))].BlindedNodeId = bad
	return "bad hop"
}

func runC21(v *V) {
	v.Cases("requests", 32, v.N(1200, 20000), func(i int, r *rand.Rand) {
		c := genSend(r)
		// Polling for a connection is C20's.
		c.after = 0
		w := &watch{}
		n := startNode(c.lnd(w))
		defer n.stop()

		req := &offersrpc.SendOnionMessageRequest{
			DirectConnect: c.direct,
			ReplyPath:     rpcBlinded(c.reply),
			FinalPayloads: map[uint64][]byte{},
		}
		if c.dest == nil {
			req.Pubkey = pub33(c.target())
		} else {
			req.BlindedDestination = rpcBlinded(c.dest)
		}
		for _, f := range c.final {
			req.FinalPayloads[f.t] = f.v
		}
		invalid := ""
		if r.Intn(2) == 0 {
			invalid = c.breakRequest(r, req)
		}
		ctx, cancel := context.WithTimeout(context.Background(),
			2*patience)
		defer cancel()
		var err error
		if r.Intn(2) == 0 {
			_, err = n.client.SendOnionMessage(ctx, req)
		} else {
			// The client is in the same process.
			for t, val := range req.FinalPayloads {
				if len(val) == 0 && r.Intn(2) == 0 {
					req.FinalPayloads[t] = nil
				}
			}
			within("a send", func() {
				_, err = n.srv.SendOnionMessage(ctx, req)
			})
		}
		got := status.Code(err)

		w.mu.Lock()
		defer w.mu.Unlock()
		fails, cause := c.want()
		want := codes.OK
		switch {
		case invalid != "":
			want = codes.InvalidArgument
		case fails && errors.Is(cause, onionmsg.ErrNoPath):
			want = codes.NotFound
		case fails:
			want = codes.Internal
		}
		if invalid == hoplessReply {
			// It is only known to be invalid when it is used.
			if got == codes.OK || len(w.sent) != 0 {
				Fail("%d messages sent with a %s, the status "+
					"is %v; %s", len(w.sent), invalid, got,
					c)
			}
			v.Count(invalid, 1)
			return
		}
		if got != want {
			Fail("status %v (%v), want %v; invalid %q; %s", got,
				err, want, invalid, c)
		}
		if len(w.problems) != 0 {
			Fail("%v; %s", w.problems, c)
		}
		if invalid != "" {
			calls := n.lnd.callCount("SendCustomMessage") +
				n.lnd.callCount("Connect") +
				n.lnd.callCount("QueryRoutes")
			if calls != 0 {
				Fail("invalid request (%s) caused calls to lnd",
					invalid)
			}
		} else {
			k := 0
			if c.sends() {
				k = 1
			}
			if len(w.sent) != k {
				Fail("%d messages sent, want %d; %s",
					len(w.sent), k, c)
			}
			if k == 1 {
				c.checkSent(w.sent[0])
				v.Count("delivered as requested", 1)
			}
		}
		v.Count(got.String(), 1)
		v.Distinct(invalid, got, c.direct, c.dest != nil,
			c.reply != nil, c.routes, c.peer)
		v.Sample("requests", map[string]string{"case": c.String(),
			"invalid": invalid, "status": got.String()})
		n.noShutdown()
	})

	// A peer that doesn't turn up is a failure like any other.
	v.Cases("never connected", 8, v.N(8, 80), func(i int, r *rand.Rand) {
		c := genSend(r)
		c.direct, c.peer, c.after, c.send = true, "connects", 1<<30, nil
		w := &watch{}
		n := startNode(c.lnd(w))
		defer n.stop()
		req := &offersrpc.SendOnionMessageRequest{
			DirectConnect: true, ReplyPath: rpcBlinded(c.reply),
		}
		if c.dest == nil {
			req.Pubkey = pub33(c.target())
		} else {
			req.BlindedDestination = rpcBlinded(c.dest)
		}
		ctx, cancel := context.WithTimeout(context.Background(),
			2*patience)
		defer cancel()
		_, err := n.client.SendOnionMessage(ctx, req)
		if got := status.Code(err); got != codes.Internal {
			Fail("status %v (%v) where the peer never connects", got,
				err)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.sent) != 0 {
			Fail("message sent")
		}
		v.Count("peers that never connected", 1)
	})

	// Routes that an onion can't describe are an error too, and not a
	// destination that can't be reached.
	v.Cases("too long", 8, v.N(24, 1000), func(i int, r *rand.Rand) {
		c := genSend(r)
		last := c.target()
		c.keys = append(freshKeys(r, 15+r.Intn(40)), last)
		c.direct, c.routes, c.send, c.dest = false, "ok", nil, nil
		w := &watch{}
		n := startNode(c.lnd(w))
		defer n.stop()
		_, err := n.client.SendOnionMessage(context.Background(),
			&offersrpc.SendOnionMessageRequest{Pubkey: pub33(last)})
		if got := status.Code(err); got != codes.Internal {
			Fail("status %v (%v) for a route of %d hops", got, err,
				len(c.keys))
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.sent) != 0 {
			Fail("message sent")
		}
		v.Count("routes that are too long", 1)
	})

	// Payloads that don't fit are an error, and nothing is sent.
	v.Cases("too large", 8, v.N(40, 1000), func(i int, r *rand.Rand) {
		c := genSend(r)
		c.direct, c.routes, c.send = false, "ok", nil
		w := &watch{}
		n := startNode(c.lnd(w))
		defer n.stop()
		req := &offersrpc.SendOnionMessageRequest{
			Pubkey: pub33(c.target()),
			FinalPayloads: map[uint64][]byte{
				64: rbytes(r, 1300+r.Intn(70000)),
			},
		}
		_, err := n.client.SendOnionMessage(context.Background(), req)
		if got := status.Code(err); got != codes.Internal {
			Fail("status %v (%v) for a payload that is too large",
				got, err)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.sent) != 0 {
			Fail("message sent")
		}
		v.Count("too large", 1)
	})

	// Sends don't wait for each other: lnd takes as long as it takes for all
	// of them to have reached it, or forever for one of them.
	v.Cases("crowd", 2, v.N(6, 200), func(i int, r *rand.Rand) {
		crowd(v, r)
	})

	v.Require("sends in flight at once", 100)
	v.Require("peers that never connected", 4)
	v.Require("routes that are too long", 10)
	v.Require("InvalidArgument", 150)
	v.Require("NotFound", 20)
	v.Require("Internal", 50)
	v.Require("delivered as requested", 60)
	v.Require("too large", 20)
}

// crowd has many sends in flight at once.
func crowd(v *V, r *rand.Rand) {
	var keys []*btcec.PrivateKey
	for j := 0; j < 8; j++ {
		keys = append(keys, freshVertexKey(r, keys))
	}
	stuck := freshVertexKey(r, keys)
	total := 20 + r.Intn(180)
	f := newFakeLnd(freshVertexKey(r, append(keys, stuck)))
	call := []string{"SendCustomMessage", "QueryRoutes", "ListPeers"}[r.Intn(3)]
	direct := call == "ListPeers" || call == "SendCustomMessage" &&
		r.Intn(2) == 0
	var arrived int32
	var mu sync.Mutex
	sent := map[route.Vertex]int{}
	all, held := make(chan struct{}), make(chan struct{})
	wait := func(ctx context.Context, name string) error {
		if name != call {
			return nil
		}
		if atomic.AddInt32(&arrived, 1) == int32(total) {
			close(all)
		}
		select {
		case <-all:
			return nil
		case <-ctx.Done():
			return status.FromContextError(ctx.Err()).Err()
		}
	}
	hang := func(ctx context.Context) error {
		close(held)
		<-ctx.Done()
		return status.FromContextError(ctx.Err()).Err()
	}
	f.onRoutes = func(ctx context.Context, q lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		if q.PubKey != vertex(stuck.PubKey()) {
			if err := wait(ctx, "QueryRoutes"); err != nil {
				return nil, err
			}
		}
		return hopsOf([]route.Vertex{q.PubKey}), nil
	}
	var first sync.Once
	f.onPeers = func(ctx context.Context) ([]lndclient.Peer, error) {
		out := []lndclient.Peer{peerOf(vertex(stuck.PubKey()))}
		for _, k := range keys {
			out = append(out, peerOf(vertex(k.PubKey())))
		}
		// The one that gets stuck comes before the others.
		mine := false
		first.Do(func() { mine = true })
		if !mine {
			if err := wait(ctx, "ListPeers"); err != nil {
				return nil, err
			}
		}
		return out, nil
	}
	f.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
		if m.Peer == vertex(stuck.PubKey()) {
			return hang(ctx)
		}
		if err := wait(ctx, "SendCustomMessage"); err != nil {
			return err
		}
		mu.Lock()
		defer mu.Unlock()
		sent[m.Peer]++
		return nil
	}
	n := startNode(f)
	defer n.stop()
	ctx, cancel := context.WithTimeout(context.Background(), 6*patience)
	defer cancel()
	send := func(ctx context.Context, k *btcec.PrivateKey) error {
		_, err := n.client.SendOnionMessage(ctx,
			&offersrpc.SendOnionMessageRequest{
				Pubkey: pub33(k), DirectConnect: direct,
				FinalPayloads: map[uint64][]byte{64: {1}},
			})
		return err
	}
	stuckCtx, giveUp := context.WithCancel(ctx)
	stuckErr := make(chan error, 1)
	go func() { stuckErr <- send(stuckCtx, stuck) }()
	await(held, "a send reaches lnd")
	errs := make(chan error, total)
	for j := 0; j < total; j++ {
		k := keys[j%len(keys)]
		go func() { errs <- send(ctx, k) }()
	}
	within(fmt.Sprintf("%d sends, while lnd doesn't answer another one, "+
		"and its answers to %s wait for all of them", total, call),
		func() {
			for j := 0; j < total; j++ {
				if err := <-errs; err != nil {
					Fail("one of %d sends at once: %v",
						total, err)
				}
			}
		})
	mu.Lock()
	for j, k := range keys {
		want := total / len(keys)
		if j < total%len(keys) {
			want++
		}
		if got := sent[vertex(k.PubKey())]; got != want {
			Fail("%d of %d messages to a peer were sent", got, want)
		}
	}
	mu.Unlock()
	giveUp()
	within("a send that was cancelled", func() {
		if err := <-stuckErr; err == nil {
			Fail("a send succeeded that lnd never answered")
		}
	})
	n.noShutdown()
	v.Count("sends in flight at once", int64(total))
	v.Distinct("crowd", total, call, direct)
}

const hoplessReply = "reply path without hops"

// breakRequest makes a request invalid in one way.
func (c *sendCase) breakRequest(r *rand.Rand,
	req *offersrpc.SendOnionMessageRequest) string {

	for {
		switch r.Intn(8) {
		case 7:
			req.ReplyPath = rpcBlinded(rpathGen(r, 2, 20))
			req.ReplyPath.Hops = nil
			return hoplessReply
		case 0:
			req.Pubkey, req.BlindedDestination = nil, nil
			return "no destination"
		case 1:
			if req.BlindedDestination == nil {
				req.BlindedDestination = rpcBlinded(
					rpathGen(r, 2, 20))
			} else {
				req.Pubkey = pub33(c.target())
			}
			switch r.Intn(6) {
			case 0:
				req.BlindedDestination.Hops = nil
			case 1:
				req.BlindedDestination = &offersrpc.BlindedPath{}
			case 2:
				_ = breakPath(r, req.BlindedDestination)
			case 3:
				req.Pubkey = badKey(r)
			}
			return "both destinations"
		case 2:
			if req.Pubkey == nil {
				continue
			}
			req.Pubkey = badKey(r)
			return "bad pubkey"
		case 3:
			if req.BlindedDestination == nil {
				continue
			}
			return "destination: " + breakPath(r,
				req.BlindedDestination)
		case 4:
			if req.BlindedDestination == nil {
				continue
			}
			req.BlindedDestination.Hops = nil
			return "no blinded hops"
		case 5:
			if req.ReplyPath == nil {
				req.ReplyPath = rpcBlinded(rpathGen(r, 2, 20))
			}
			return "reply: " + breakPath(r, req.ReplyPath)
		case 6:
			req.FinalPayloads[uint64(r.Intn(64))] = rbytes(r,
				r.Intn(20))
			return "payload type"
		}
	}
}
