package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/routes"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

func init() {
	register("C08", "Onion payloads with reply paths of 1..255 hops, "+
		"encrypted data and final payloads of all types, and mutated "+
		"ones; distinct record shapes and verdicts are counted", runC08)
	register("C09", "Onion messages and blinded route data of all sizes, "+
		"truncations and mutations; distinct shapes and verdicts are "+
		"counted", runC09)
	register("C10", "Routes of 1..27 hops, to nodes and to blinded paths, "+
		"each peeled layer by layer by independent nodes; distinct "+
		"(own hops, blinded hops, reply hops, payloads) are counted",
		runC10)
	register("C11", "Route requests at and around the limits of an onion, "+
		"and invalid ones; distinct (shape, verdict) are counted",
		runC11)
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func runC08(v *V) {
	v.Assume("payloads with unknown even types below 64 only have to be " +
		"handled without a panic")
	gen := func(r *rand.Rand) *rpayload {
		p := &rpayload{}
		if r.Intn(2) == 0 {
			hops := 4
			if r.Intn(20) == 0 {
				hops = 255
			}
			p.reply = rpathGen(r, hops, 60)
			if r.Intn(30) == 0 {
				p.bigHop(r)
			}
		}
		if r.Intn(3) != 0 {
			p.enc = rbytes(r, rlen(r))
		}
		p.final = rfinals(r, r.Intn(5), 40)
		if len(p.final) > 0 && r.Intn(4) == 0 {
			p.final[0].v = rbytes(r, rlen(r))
		}
		return p
	}
	v.Cases("encode", 8, v.N(8000, 150000), func(i int, r *rand.Rand) {
		p := gen(r)
		in := &lnwire.OnionMessagePayload{
			ReplyPath:     p.reply.toReplyPath(),
			EncryptedData: p.enc,
			// Payloads may be given in any order.
			FinalHopPayloads: toFinal(shuffled(r, p.final)),
		}
		b, err := lnwire.EncodeOnionMessagePayload(in)
		if err != nil {
			Fail("could not encode payload %s: %v", clip(p.String()),
				err)
		}
		if want := encRecs(p.records()); !bytes.Equal(b, want) {
			Fail("payload %s encoded to %s", clip(p.String()),
				clip(hex.EncodeToString(b)))
		}
		out, err := lnwire.DecodeOnionMessagePayload(b)
		if err != nil {
			Fail("could not decode own payload %x: %v", b, err)
		}
		if got := fromPayload(out); got.String() != p.String() {
			Fail("payload %s came back as %s", clip(p.String()),
				clip(got.String()))
		}
		v.Count("round trips compared", 1)
		v.Distinct(types(p.records()))
		v.Sample("encode", types(p.records()))
	})

	// What can't be expressed is refused.
	v.Cases("refuse", 8, v.N(1500, 20000), func(i int, r *rand.Rand) {
		p := gen(r)
		in := &lnwire.OnionMessagePayload{
			ReplyPath:        p.reply.toReplyPath(),
			EncryptedData:    p.enc,
			FinalHopPayloads: toFinal(p.final),
		}
		what := ""
		switch r.Intn(6) {
		case 0:
			what = "final payload below 64"
			in.FinalHopPayloads = append(in.FinalHopPayloads,
				toFinal([]rec{{uint64(r.Intn(64)),
					rbytes(r, 3)}})...)
		case 1:
			what = "duplicate final payload"
			f := toFinal([]rec{{70, rbytes(r, r.Intn(3))},
				{70, rbytes(r, r.Intn(3))}})
			in.FinalHopPayloads = f
		case 2:
			what = "reply path without hops"
			in.ReplyPath = rpathGen(r, 1, 1).toReplyPath()
			in.ReplyPath.Hops = nil
		case 3:
			what = "too many hops"
			q := rpathGen(r, 1, 3)
			for len(q.hops) <= 255+r.Intn(4) {
				q.hops = append(q.hops, q.hops[0])
			}
			in.ReplyPath = q.toReplyPath()
		case 4:
			what = "hop data too long"
			q := rpathGen(r, 3, 3)
			q.hops[r.Intn(len(q.hops))].enc = make([]byte,
				65536+r.Intn(3))
			in.ReplyPath = q.toReplyPath()
		case 5:
			in.ReplyPath = rpathGen(r, 3, 3).toReplyPath()
			what = "reply path " + incomplete(r, in.ReplyPath)
		}
		if b, err := lnwire.EncodeOnionMessagePayload(in); err == nil {
			Fail("payload with %s was encoded: %s", what,
				clip(hex.EncodeToString(b)))
		}
		v.Count("bad payloads refused", 1)
		v.Distinct("refuse", what)
	})

	v.Cases("decode", 8, v.N(40000, 800000), func(i int, r *rand.Rand) {
		p := gen(r)
		recs := p.records()
		for j := 0; j < r.Intn(3); j++ {
			t := uint64(1 + 2*r.Intn(32))
			recs = setRec(recs, t, rbytes(r, r.Intn(10)))
		}
		if len(recs) == 0 {
			recs = []rec{{65, nil}}
		}
		op, b := "valid", encRecs(recs)
		switch r.Intn(4) {
		case 0:
		case 1:
			if p.reply != nil {
				op, recs = mutatePath(r, p, recs)
				b = encRecs(recs)
				break
			}
			fallthrough
		default:
			op, b = mutateStream(r, kind{types: map[uint64]string{}},
				recs)
		}
		want, claim, err := parsePayload(b)
		in := append([]byte{}, b...)
		got, gotErr := lnwire.DecodeOnionMessagePayload(in)
		if !bytes.Equal(in, b) {
			Fail("decoding changed its input %x", b)
		}
		v.Count("decodes compared", 1)
		if !claim {
			return
		}
		switch {
		case err == nil && gotErr != nil:
			Fail("well formed payload (%s) was rejected: %v: %s", op,
				gotErr, clip(hex.EncodeToString(b)))
		case err != nil && gotErr == nil:
			Fail("malformed payload (%s: %v) was accepted: %s", op,
				err, clip(hex.EncodeToString(b)))
		case err == nil:
			g := fromPayload(got)
			if g.String() != want.String() {
				Fail("payload (%s) %s decoded to %s", op,
					clip(want.String()), clip(g.String()))
			}
			v.Count("accepted, fields compared", 1)
		default:
			v.Count("rejected", 1)
		}
		v.Distinct(op, err == nil, types(recs))
		v.Sample("decode", fmt.Sprintf("%s valid=%v %s", op, err == nil,
			clip(hex.EncodeToString(b))))
	})
	v.Require("round trips compared", 500)
	v.Require("accepted, fields compared", 500)
	v.Require("rejected", 500)
}

// mutatePath alters the encoding of the reply path in a payload.
func mutatePath(r *rand.Rand, p *rpayload, recs []rec) (string, []rec) {
	b := p.reply.encode()
	op := ""
	switch r.Intn(9) {
	case 0:
		op, b = "path truncated", b[:r.Intn(len(b))]
	case 1:
		op, b = "path trailing data", append(b, rbytes(r, 1+r.Intn(40))...)
	case 2:
		op = "hop count"
		b[66] = byte(r.Intn(256))
	case 3:
		op = "hop count off by one"
		b[66] += byte(1 - 2*r.Intn(2))
	case 4:
		op = "bad point"
		at := []int{0, 33, 67}[r.Intn(3)]
		switch r.Intn(3) {
		case 0:
			b[at] = byte(r.Intn(256))
		case 1:
			copy(b[at+1:], notOnCurve(r))
		default:
			copy(b[at:], make([]byte, 33))
		}
	case 5:
		op = "data length"
		b[67+33] ^= byte(r.Intn(4))
		b[67+34] ^= byte(r.Intn(256))
	case 7:
		// No hop at all: nobody could be replied to.
		op, b = "path of no hops", append(b[:66:66], 0)
		if r.Intn(3) == 0 {
			b = append(b, rbytes(r, 1+r.Intn(80))...)
		}
	case 6:
		op = "path flip"
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	default:
		op = "path and next record"
		// The path claims one more hop than its record holds, with the
		// bytes of a hop in the records that follow.
		b[66]++
		hop := append(pub33(rkey(r)), 0, 0)
		recs = setRec(recs, 4, hop)
	}
	return op, setRec(recs, 2, b)
}

// bigHop makes the data of one hop of the reply path large. The record of the
// path still has to fit.
func (p *rpayload) bigHop(r *rand.Rand) {
	h := &p.reply.hops[r.Intn(len(p.reply.hops))]
	h.enc = nil
	room := maxRecord - len(p.reply.encode())
	n := 1000 + r.Intn(room-1000)
	switch r.Intn(3) {
	case 0:
		// Around a power of two.
		n = 1<<uint(10+r.Intn(6)) - 2 + r.Intn(4)
	case 1:
		n = room - r.Intn(2)
	}
	if n > room {
		n = room
	}
	h.enc = rbytes(r, n)
}

func runC09(v *V) {
	v.Cases("message", 8, v.N(10000, 200000), func(i int, r *rand.Rand) {
		n := []int{0, 1, 252, 253, 1366, 65534, 65535}[r.Intn(7)]
		if r.Intn(2) == 0 {
			n = r.Intn(3000)
		}
		blind, blob := rkey(r).PubKey(), rbytes(r, n)
		buf := &bytes.Buffer{}
		m := lnwire.NewOnionMessage(blind, blob)
		if err := m.Encode(buf, 0); err != nil {
			Fail("could not encode message of %d bytes: %v", n, err)
		}
		want := wireMsg(blind.SerializeCompressed(), blob)
		if !bytes.Equal(buf.Bytes(), want) {
			Fail("message of %d bytes encoded to %s", n,
				clip(hex.EncodeToString(buf.Bytes())))
		}
		if m.MsgType() != 513 {
			Fail("message type is %d", m.MsgType())
		}
		// Decode, whole or mutated.
		b := append([]byte{}, want...)
		op := "whole"
		switch r.Intn(5) {
		case 0:
			op, b = "truncated", b[:r.Intn(len(b))]
		case 1:
			op = "length"
			b[33], b[34] = byte(r.Intn(256)), byte(r.Intn(256))
		case 2:
			op = "point"
			if r.Intn(2) == 0 {
				b[0] = byte(r.Intn(256))
			} else {
				copy(b[1:], notOnCurve(r))
			}
		case 3:
			op, b = "trailing", append(b, rbytes(r, 1+r.Intn(9))...)
		}
		var ok bool
		if len(b) >= 35 {
			_, perr := btcec.ParsePubKey(b[:33])
			n := int(b[33])<<8 | int(b[34])
			ok = perr == nil && len(b) >= 35+n
		}
		got := &lnwire.OnionMessage{}
		err := got.Decode(bytes.NewReader(b), 0)
		if (err == nil) != ok {
			Fail("message (%s) well formed: %v, decode gave %v: %s",
				op, ok, err, clip(hex.EncodeToString(b)))
		}
		if ok {
			l := int(b[33])<<8 | int(b[34])
			if !bytes.Equal(got.OnionBlob, b[35:35+l]) ||
				!bytes.Equal(got.BlindingPoint.
					SerializeCompressed(), b[:33]) {

				Fail("message (%s) decoded wrong: %s", op,
					clip(hex.EncodeToString(b)))
			}
			v.Count("messages compared", 1)
		} else {
			v.Count("malformed messages rejected", 1)
		}
		v.Distinct("msg", op, ok, len(b))
	})
	v.Cases("oversize", 8, v.N(20, 200), func(i int, r *rand.Rand) {
		m := lnwire.NewOnionMessage(rkey(r).PubKey(),
			make([]byte, 65536+r.Intn(70000)))
		if err := m.Encode(&bytes.Buffer{}, 0); err == nil {
			Fail("onion of %d bytes was encoded", len(m.OnionBlob))
		}
		v.Count("oversize onions refused", 1)
	})
	v.Cases("data", 8, v.N(15000, 300000), func(i int, r *rand.Rand) {
		var next, over []byte
		d := &lnwire.BlindedRouteData{}
		if r.Intn(4) != 0 {
			next = pub33(rkey(r))
			d.NextNodeID = toPoint(next)
		}
		if r.Intn(2) == 0 {
			over = pub33(rkey(r))
			if next != nil {
				switch r.Intn(4) {
				case 0:
					over = append([]byte{}, next...)
				case 1:
					over = append([]byte{}, next...)
					over[0] ^= 1
				}
			}
			d.NextBlindingOverride = toPoint(over)
		}
		b, err := lnwire.EncodeBlindedRouteData(d)
		if err != nil {
			Fail("could not encode route data: %v", err)
		}
		if !bytes.Equal(b, routeData(next, over)) {
			Fail("route data %x/%x encoded to %x", next, over, b)
		}
		recs, err := parseTLV(b)
		must(err)
		for j := 0; j < r.Intn(3); j++ {
			recs = setRec(recs, uint64(1+2*r.Intn(300)),
				rbytes(r, r.Intn(20)))
		}
		if r.Intn(6) == 0 {
			recs = setRec(recs, dictInt(r)|1, rbytes(r, r.Intn(20)))
		}
		if len(recs) == 0 {
			recs = []rec{{1, nil}}
		}
		op := "valid"
		b = encRecs(recs)
		if r.Intn(3) != 0 {
			k := kind{types: map[uint64]string{4: fPoint, 8: fPoint}}
			op, b = mutateStream(r, k, recs)
		}
		recs, err = parseTLV(b)
		claim := true
		next, over = nil, nil
		for _, rc := range recs {
			switch {
			case rc.t == 4 || rc.t == 8:
				if _, e := fieldValue(fPoint, rc.v); e != nil {
					err = e
				}
				if rc.t == 4 {
					next = rc.v
				} else {
					over = rc.v
				}
			case rc.t%2 == 0:
				claim = false
			}
		}
		got, gotErr := lnwire.DecodeBlindedRouteData(b)
		if !claim {
			return
		}
		if (err == nil) != (gotErr == nil) {
			Fail("route data (%s) %x: reference says %v, decode "+
				"gave %v", op, b, err, gotErr)
		}
		if err == nil {
			pt := func(k *btcec.PublicKey) []byte {
				if k == nil {
					return nil
				}
				return k.SerializeCompressed()
			}
			if !bytes.Equal(pt(got.NextNodeID), next) ||
				!bytes.Equal(pt(got.NextBlindingOverride), over) {

				Fail("route data (%s) %x decoded wrong", op, b)
			}
			v.Count("route data compared", 1)
		} else {
			v.Count("malformed route data rejected", 1)
		}
		v.Distinct("data", op, err == nil, types(recs))
		v.Sample("data", fmt.Sprintf("%s valid=%v %x", op, err == nil, b))
	})
	v.Require("messages compared", 500)
	v.Require("malformed messages rejected", 500)
	v.Require("route data compared", 500)
	v.Require("malformed route data rejected", 500)
}

// routeCase is one request for a route.
type routeCase struct {
	own      []*btcec.PrivateKey // hops up to the target
	blind    []*btcec.PrivateKey // nodes of the blinded destination
	data     [][]byte            // their route data
	dest     *rpath
	reply    *rpath
	final    []rec
	session  *btcec.PrivateKey
	blinding *btcec.PrivateKey
}

// genRoute generates a request. The introduction node is part of own if there
// is a blinded destination.
func genRoute(r *rand.Rand, own, blind int) *routeCase {
	c := &routeCase{session: rkey(r), blinding: rkey(r)}
	c.own = rroute(r, own)
	if blind > 0 {
		c.blind = []*btcec.PrivateKey{c.own[own-1]}
		for len(c.blind) < blind {
			c.blind = append(c.blind, rrelated(r, append(c.blind,
				c.own...)))
		}
		c.data = plainData(pubs(c.blind))
		for i := range c.data {
			recs, err := parseTLV(c.data[i])
			must(err)
			if r.Intn(4) == 0 {
				// Padding, which the spec allows.
				recs = setRec(recs, 1, make([]byte, r.Intn(10)))
			}
			if i+1 < len(c.data) && r.Intn(8) == 0 {
				// Not usable for peeling (nobody knows its
				// secret), so it only goes in at the end.
				_ = i
			}
			if i == len(c.data)-1 && r.Intn(2) == 0 {
				recs = setRec(recs, 6, rbytes(r, 8))
			}
			c.data[i] = encRecs(recs)
		}
		c.dest = blindPath(rkey(r), pubs(c.blind), c.data)
	}
	return c
}

// sizes gives the onion space that the route takes.
func (c *routeCase) size() int {
	last := &rpayload{reply: c.reply, final: c.final}
	lastRecs := len(encRecs(last.records()))
	enc := func(n int) int {
		return len(encRec(rec{4, make([]byte, n)}))
	}
	total := 0
	hops := len(c.own)
	if c.dest != nil {
		hops--
	}
	for i := 0; i < hops; i++ {
		n := 35
		if i == hops-1 {
			n = 0
			if c.dest != nil {
				n = 70
			}
		}
		pl := enc(n + 16)
		if i == hops-1 && c.dest == nil {
			pl += lastRecs
		}
		total += onionBytes(pl)
	}
	if c.dest != nil {
		for i, h := range c.dest.hops {
			pl := 0
			if len(h.enc) != 0 {
				pl = enc(len(h.enc))
			}
			if i == len(c.dest.hops)-1 {
				pl += lastRecs
			}
			total += onionBytes(pl)
		}
	}
	return total
}

func (c *routeCase) hops() int {
	n := len(c.own)
	if c.dest != nil {
		n += len(c.dest.hops) - 1
	}
	return n
}

func (c *routeCase) request(r *rand.Rand) *routes.BlindedRouteRequest {
	return routes.NewBlindedRouteRequest(
		c.session, c.blinding, pubs(c.own), c.reply.toReplyPath(),
		c.dest.toReplyPath(), toFinal(shuffled(r, c.final)),
	)
}

func (c *routeCase) String() string {
	b := 0
	if c.dest != nil {
		b = len(c.dest.hops)
	}
	rp := 0
	if c.reply != nil {
		rp = len(c.reply.hops)
	}
	return fmt.Sprintf("%d own hops, %d blinded hops, %d reply hops, "+
		"payloads [%s], %d onion bytes", len(c.own), b, rp,
		types(c.final), c.size())
}

// checkRoute peels a route layer by layer.
func checkRoute(c *routeCase, resp *routes.BlindedRouteResponse) int {
	if resp == nil || resp.OnionMessage == nil {
		Fail("%s: no message", c)
	}
	if resp.FirstNode == nil ||
		!resp.FirstNode.IsEqual(c.own[0].PubKey()) {

		Fail("%s: first node is not the first hop", c)
	}
	buf := &bytes.Buffer{}
	if err := resp.OnionMessage.Encode(buf, 0); err != nil {
		Fail("%s: message can't be encoded: %v", c, err)
	}
	msg := buf.Bytes()
	if len(msg) != 35+1366 {
		Fail("%s: message has %d bytes", c, len(msg))
	}
	nodes := append([]*btcec.PrivateKey{}, c.own...)
	var want [][]byte // expected route data
	last := len(c.own)
	if c.dest != nil {
		last--
	}
	for i := 0; i < last; i++ {
		switch {
		case i+1 < last:
			want = append(want, routeData(pub33(c.own[i+1]), nil))
		case c.dest != nil:
			want = append(want, routeData(c.dest.intro,
				c.dest.blinding))
		default:
			want = append(want, nil)
		}
	}
	if c.dest != nil {
		nodes = append(nodes[:last], c.blind...)
		want = append(want, c.data...)
	}

	for i, k := range nodes {
		l, err := newPeeler(k).peel(msg)
		if err != nil {
			Fail("%s: hop %d can't process its onion: %v", c, i, err)
		}
		wantRecs, err := parseTLV(want[i])
		must(err)
		if fmt.Sprint(l.data) != fmt.Sprint(wantRecs) {
			Fail("%s: hop %d has route data %v, want %v", c, i,
				l.data, wantRecs)
		}
		if l.exit != (i == len(nodes)-1) {
			Fail("%s: hop %d exit: %v", c, i, l.exit)
		}
		if !l.exit {
			if len(l.payload.final) != 0 || l.payload.reply != nil {
				Fail("%s: hop %d, which is not the last, got "+
					"%s", c, i, clip(l.payload.String()))
			}
			recs, _ := parseTLV(l.raw)
			if len(recs) != 1 {
				Fail("%s: hop %d has payload %s", c, i,
					types(recs))
			}
			if !bytes.Equal(l.next, pub33(nodes[i+1])) {
				Fail("%s: hop %d sends to %x", c, i, l.next)
			}
			msg = wireMsg(l.blind, l.blob)
			continue
		}
		exp := &rpayload{reply: c.reply, final: c.final,
			enc: l.payload.enc}
		if exp.String() != l.payload.String() {
			Fail("%s: recipient got %s, want %s", c,
				clip(l.payload.String()), clip(exp.String()))
		}
	}
	return len(nodes)
}

func runC10(v *V) {
	v.Assume("the sphinx library processes onions correctly")
	try := func(c *routeCase, r *rand.Rand, phase string) {
		if c.size() > 1300 || c.hops() > 27 {
			return
		}
		resp, err := routes.CreateBlindedRoute(c.request(r))
		if err != nil {
			Fail("%s: failed: %v", c, err)
		}
		n := checkRoute(c, resp)
		v.Count("routes delivered", 1)
		v.Count("layers peeled", int64(n))
		v.Distinct(c.String())
		v.Sample(phase, c.String())
	}
	v.Cases("routes", 8, v.N(1500, 25000), func(i int, r *rand.Rand) {
		own := 1 + r.Intn(6)
		if r.Intn(6) == 0 {
			own = 1 + r.Intn(13)
		}
		blind := 0
		if r.Intn(2) == 0 {
			blind = 1 + r.Intn(4)
		}
		c := genRoute(r, own, blind)
		if r.Intn(2) == 0 {
			c.reply = rpathGen(r, 3, 60)
		}
		c.final = rfinals(r, r.Intn(4), 60)
		try(c, r, "routes")
	})

	// Each length of route, with and without a blinded destination.
	v.Cases("lengths", 8, 27*4, func(i int, r *rand.Rand) {
		own, blind := 1+i/4, i%4
		c := genRoute(r, own, blind)
		for c.size() > 1300 && len(c.own) > 1 {
			c = genRoute(r, len(c.own)-1, blind)
		}
		if i%2 == 1 {
			c.final = rfinals(r, 1, 5)
		}
		try(c, r, "lengths")
	})

	// A blinded path that starts mid-route with an override inside of the
	// recipient's own path: its hops are carried over verbatim.
	v.Cases("nested", 8, v.N(200, 3000), func(i int, r *rand.Rand) {
		own := rkeys(r, 1+r.Intn(3))
		tail := rkeys(r, 1+r.Intn(2))
		tailPath := blindPath(rkey(r), pubs(tail), plainData(pubs(tail)))
		head := append([]*btcec.PrivateKey{own[len(own)-1]},
			rkeys(r, r.Intn(2))...)
		data := plainData(pubs(head))
		data[len(data)-1] = routeData(tailPath.intro, tailPath.blinding)
		headPath := blindPath(rkey(r), pubs(head), data)
		dest := &rpath{headPath.intro, headPath.blinding, append(
			headPath.hops, tailPath.hops...)}
		c := &routeCase{own: own, dest: dest, session: rkey(r),
			blinding: rkey(r), final: rfinals(r, r.Intn(3), 20),
			blind: append(head, tail...),
			data:  append(data, plainData(pubs(tail))...)}
		try(c, r, "nested")
	})
	v.Require("routes delivered", 500)
	v.Require("layers peeled", 2000)
}

// incomplete takes something from a path that it needs.
func incomplete(r *rand.Rand, p *lnwire.ReplyPath) string {
	switch r.Intn(5) {
	case 0:
		p.FirstNodeID = nil
		return "without first node"
	case 1:
		p.BlindingPoint = nil
		return "without blinding point"
	case 2:
		p.Hops = nil
		return "without hops"
	case 3:
		p.Hops = []*lnwire.BlindedHop{}
		return "with zero hops"
	}
	k := r.Intn(len(p.Hops))
	p.Hops[k] = &lnwire.BlindedHop{EncryptedData: p.Hops[k].EncryptedData}
	return "with a hop without key"
}

func runC11(v *V) {
	v.Cases("limits", 8, v.N(1500, 20000), func(i int, r *rand.Rand) {
		own, blind := 1+r.Intn(30), 0
		if r.Intn(2) == 0 {
			blind = 1 + r.Intn(30)
			own = 1 + r.Intn(1+r.Intn(30))
		}
		if r.Intn(2) == 0 {
			own = 1 + own%4
			blind = blind % 4
		}
		c := genRoute(r, own, blind)
		if r.Intn(3) == 0 && blind > 0 && c.size() > 1300 {
			// Small hops, to reach the limit on their number.
			for j := range c.dest.hops {
				c.dest.hops[j].enc = rbytes(r, 1+r.Intn(3))
			}
		}
		if r.Intn(3) == 0 {
			c.reply = rpathGen(r, 12, 60)
		}
		// Fill up to around the limit.
		fill := 1300 - c.size()
		if fill > 0 && r.Intn(3) != 0 {
			n := fill - 12 + r.Intn(24)
			if n < 0 {
				n = 0
			}
			c.final = []rec{{uint64(64 + r.Intn(300)),
				rbytes(r, n)}}
		} else if r.Intn(4) == 0 {
			c.final = []rec{{77, rbytes(r, []int{1300, 65535, 65536,
				70000}[r.Intn(4)])}}
		}
		fits := c.size() <= 1300 && c.hops() <= 27
		if len(c.final) > 0 && len(c.final[0].v) > 65535 {
			fits = false
		}
		resp, err := routes.CreateBlindedRoute(c.request(r))
		if (err == nil) != fits {
			Fail("%s (%d hops): fits: %v, but got %v", c, c.hops(),
				fits, err)
		}
		if err != nil && resp != nil {
			Fail("%s: failed, but returned a message", c)
		}
		if fits {
			n := len(resp.OnionMessage.OnionBlob)
			if n != 1366 {
				Fail("%s: onion has %d bytes", c, n)
			}
			v.Count("requests that fit", 1)
		} else {
			v.Count("requests that do not fit refused", 1)
		}
		v.Distinct(len(c.own), c.hops(), c.size(), fits)
		v.Sample("limits", fmt.Sprintf("%s fits=%v", c, fits))
	})
	v.Cases("invalid", 8, v.N(600, 5000), func(i int, r *rand.Rand) {
		blind := r.Intn(3)
		c := genRoute(r, 1+r.Intn(3), blind)
		what := ""
		hops := pubs(c.own)
		reply := c.reply.toReplyPath()
		final := toFinal(rfinals(r, 1, 5))
		dest := c.dest.toReplyPath()
		session, blinding := c.session, c.blinding
		switch r.Intn(12) {
		case 0:
			what, hops = "no hops", nil
		case 1:
			what, session = "no session key", nil
		case 2:
			what, blinding = "no blinding key", nil
		case 3:
			if dest == nil {
				return
			}
			what = "route not to the introduction node"
			hops[len(hops)-1] = rkey(r).PubKey()
			if r.Intn(2) == 0 {
				what = "route to the negated introduction node"
				hops[len(hops)-1] = negKey(
					c.own[len(hops)-1]).PubKey()
			}
		case 4:
			if dest == nil {
				return
			}
			what = "route beyond the introduction node"
			hops = append(hops, rkey(r).PubKey())
			if r.Intn(2) == 0 && len(c.own) > 1 && !bytes.Equal(
				pub33(c.own[0]), pub33(c.own[len(c.own)-1])) {

				what = "the introduction node comes earlier"
				hops[0], hops[len(hops)-1] = c.own[len(
					c.own)-1].PubKey(), c.own[0].PubKey()
			}
		case 5:
			what = "final payload type"
			final = append(final, toFinal([]rec{{uint64(r.Intn(64)),
				nil}})...)
		case 6:
			what = "duplicate final payload"
			final = append(final, final[0])
		case 7:
			what = "reply path without hops"
			reply = rpathGen(r, 1, 1).toReplyPath()
			reply.Hops = nil
		case 8:
			what = "a hop without key"
			hops[r.Intn(len(hops))] = nil
		case 9, 10:
			if dest == nil {
				return
			}
			what = "blinded destination " + incomplete(r, dest)
		case 11:
			reply = rpathGen(r, 3, 10).toReplyPath()
			what = "reply path " + incomplete(r, reply)
		}
		resp, err := routes.CreateBlindedRoute(
			routes.NewBlindedRouteRequest(session, blinding, hops,
				reply, dest, final))
		if err == nil || resp != nil {
			Fail("request with %s (blinded %v) gave %v, %v", what,
				dest != nil, resp, err)
		}
		v.Count("invalid requests refused", 1)
		v.Distinct("invalid", what, len(hops), blind)
	})
	v.Require("requests that fit", 200)
	v.Require("requests that do not fit refused", 200)
	v.Require("invalid requests refused", 100)
	_ = sphinx.NumMaxHops
}
