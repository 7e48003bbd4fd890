package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/status"
)

func init() {
	register("C15", "onion messages in which the node is at any position "+
		"of a blinded path, with generated route data; non-trivial "+
		"when the kind of message and position is new or the message "+
		"was forwarded", runC15)
	register("C16", "batches of valid messages mixed with messages that "+
		"are malformed at one layer (wire, onion, payload, reply "+
		"path, route data, message type) and with faults of the "+
		"signer, the network and handlers; non-trivial when the "+
		"combination of mutations in a batch is new", runC16)
	register("C17", "schedules of messages and later exact or altered "+
		"copies of them; non-trivial when the pattern of copies in a "+
		"schedule is new", runC17)
}

// outcome is what a node must do with a message.
type outcome struct {
	what    string // "drop", "deliver", "forward" or "unclaimed"
	why     string
	deliver []delivery
	next    []byte
	out     []byte
}

func (o *outcome) String() string {
	return fmt.Sprintf("%s (%s) deliver %v to %x: %x", o.what, o.why,
		o.deliver, o.next, o.out)
}

func validPoint(b []byte) bool {
	if len(b) != 33 {
		return false
	}
	_, err := btcec.ParsePubKey(b)
	return err == nil
}

// judgeMsg computes what the node with this peeler and these handlers must do.
func judgeMsg(at *peeler, typ uint32, msg []byte,
	handlers map[uint64]bool) *outcome {

	if typ != onionType {
		return &outcome{what: "drop", why: "message type"}
	}
	// Bytes after the message are an extension, which is ignored.
	if len(msg) >= 35 {
		if n := int(msg[33])<<8 | int(msg[34]); len(msg) > 35+n {
			msg = msg[:35+n]
		}
	}
	l, err := at.peel(msg)
	if err != nil {
		// Distinguish route data that we can't use from payloads with
		// types that neither side claims anything about.
		return &outcome{what: "drop", why: err.Error()}
	}
	_, claim, _ := parsePayload(l.raw)
	if !claim {
		return &outcome{what: "unclaimed", why: "unknown even type"}
	}
	if l.exit {
		o := &outcome{what: "deliver", why: "exit"}
		for _, f := range l.payload.final {
			if handlers[f.t] {
				o.deliver = append(o.deliver, delivery{
					typ: f.t, value: f.v,
					reply: l.payload.reply,
					enc:   l.payload.enc,
				})
			}
		}
		return o
	}
	switch {
	case len(l.payload.final) != 0:
		return &outcome{what: "drop", why: "final payloads at a relay"}
	case len(l.payload.enc) == 0:
		return &outcome{what: "drop", why: "no route data"}
	case l.payload.reply != nil:
		return &outcome{what: "unclaimed", why: "reply path at a relay"}
	}
	for _, d := range l.data {
		switch {
		case d.t == 4 || d.t == 8:
			if !validPoint(d.v) {
				return &outcome{what: "drop", why: "bad key"}
			}
		case d.t%2 == 0:
			return &outcome{what: "unclaimed",
				why: "unknown even route data"}
		}
	}
	if l.next == nil {
		return &outcome{what: "drop", why: "no next node"}
	}
	return &outcome{what: "forward", why: "relay", next: l.next,
		out: wireMsg(l.blind, l.blob)}
}

func sameDelivery(a, b delivery) bool {
	return a.typ == b.typ && bytes.Equal(a.value, b.value) &&
		bytes.Equal(a.enc, b.enc) && a.reply.String() == b.reply.String()
}

// checkOutcomes compares what was observed after a batch with what must have
// happened. Messages are processed in the order of their arrival.
func checkOutcomes(want []*outcome, got []delivery,
	sent []lndclient.CustomMessage, describe func(i int) string) {

	for i, w := range want {
		switch w.what {
		case "unclaimed":
			panic("harness: unclaimed message in a batch")
		case "deliver":
			for _, d := range w.deliver {
				if len(got) == 0 {
					Fail("payload %d=%x was not delivered: %s",
						d.typ, d.value, describe(i))
				}
				if !sameDelivery(d, got[0]) {
					Fail("delivered %s, want %s: %s",
						got[0], d, describe(i)+story(want, i))
				}
				got = got[1:]
			}
		case "forward":
			if len(sent) == 0 {
				Fail("not forwarded to %x: %s", w.next,
					describe(i))
			}
			s := sent[0]
			sent = sent[1:]
			if !bytes.Equal(s.Peer[:], w.next) {
				Fail("forwarded to %v, want %x: %s", s.Peer,
					w.next, describe(i))
			}
			if s.MsgType != onionType {
				Fail("forwarded with message type %d",
					s.MsgType)
			}
			if !bytes.Equal(s.Data, w.out) {
				Fail("forwarded\n%x, want\n%x: %s", s.Data,
					w.out, describe(i))
			}
		}
	}
	if len(got) != 0 {
		Fail("delivered %s, which nothing in the batch called for: %s",
			got[0], describe(-1))
	}
	if len(sent) != 0 {
		Fail("sent %x to %v, which nothing in the batch called for: %s",
			sent[0].Data, sent[0].Peer, describe(-1))
	}
}

var probeTypes = []uint64{64, 65, 66, 67, 100, 1001}

func typeSet(types []uint64) map[uint64]bool {
	m := map[uint64]bool{sentinelType: true}
	for _, t := range types {
		m[t] = true
	}
	return m
}

// crafted is a message with the story of how it was made.
type crafted struct {
	typ  uint32
	data []byte
	how  string
}

// pfinals makes payloads mostly for types that have handlers.
func pfinals(r *rand.Rand, n int) []rec {
	seen := map[uint64]bool{}
	var out []rec
	for len(out) < n {
		t := probeTypes[r.Intn(len(probeTypes))]
		if r.Intn(4) == 0 {
			t = uint64(68 + r.Intn(30))
		}
		if seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, rec{t, rbytes(r, r.Intn(40))})
	}
	return sortRecs(out)
}

// craft makes a valid message for a node at the given distance from the start
// of a path that has tail nodes after it. It returns the message as it arrives
// at the node, and how it arrives there.
func craft(r *rand.Rand, us *btcec.PrivateKey, before, after int,
	tweak func(i int, data []rec) []rec) (*crafted, bool) {

	return craftFrom(r, nil, us, before, after, tweak)
}

// craftFrom is craft with the key of the path's first blinding point, if it is
// not nil.
func craftFrom(r *rand.Rand, point, us *btcec.PrivateKey, before, after int,
	tweak func(i int, data []rec) []rec) (*crafted, bool) {

	if point == nil {
		point = rkey(r)
	}

	// Nodes may occur repeatedly, and have related keys.
	pool := []*btcec.PrivateKey{us}
	var keys []*btcec.PrivateKey
	for i := 0; i < before+1+after; i++ {
		k := us
		if i != before {
			k = rrelated(r, pool)
			pool = append(pool, k)
		}
		keys = append(keys, k)
	}
	nodes := pubs(keys)
	data := make([][]byte, len(nodes))
	how := fmt.Sprintf("%d before, %d after", before, after)
	var over []string
	for i := range nodes {
		var recs []rec
		if i+1 < len(nodes) {
			recs = append(recs, rec{4,
				nodes[i+1].SerializeCompressed()})
		}
		if r.Intn(3) == 0 {
			// Padding, a path id, or unknown odd records.
			t := []uint64{1, 3, 5, 7, 9, 11, 13, 65537}[r.Intn(8)]
			recs = append(recs, rec{t, rbytes(r, r.Intn(40))})
		}
		if i == before && tweak != nil {
			recs = tweak(i, recs)
		}
		if o, ok := find(recs, 8); ok && i+1 < len(nodes) &&
			r.Intn(4) == 0 && len(o) == 33 {

			// The override may be any key.
			k := []*btcec.PrivateKey{us, keys[i+1],
				negKey(keys[i+1]), negKey(us)}[r.Intn(4)]
			recs = setRec(recs, 8, pub33(k))
		}
		recs = sortRecs(recs)
		data[i] = encRecs(recs)
		if _, ok := find(recs, 8); ok {
			over = append(over, fmt.Sprint(i))
		}
	}
	path := blindPath(point, nodes, data)
	final := &rpayload{final: pfinals(r, r.Intn(4))}
	if r.Intn(2) == 0 {
		final.reply = rpathGen(r, 2, 40)
	}
	msg := refMessage(r, path, final)
	for i := 0; i < before; i++ {
		l, err := newPeeler(keys[i]).peel(msg)
		must(err)
		msg = wireMsg(l.blind, l.blob)
	}
	if len(over) != 0 {
		how += ", override at " + strings.Join(over, ",")
	}
	return &crafted{onionType, msg, how}, len(over) != 0
}

func runC15(v *V) {
	v.Cases("position", 8, v.N(240, 8000), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		if r.Intn(2) == 0 {
			p.lnd.lag = lags(r)
		}
		ref := newPeeler(p.lnd.key)
		hs := typeSet(probeTypes)

		for b := 0; b < 6; b++ {
			var batch []*crafted
			var want []*outcome
			for j := 1 + r.Intn(5); j > 0; j-- {
				before, after := r.Intn(3), r.Intn(3)
				kind := "plain"
				tweak := func(_ int, d []rec) []rec { return d }
				var point *btcec.PrivateKey
				if after > 0 {
					switch r.Intn(7) {
					case 6:
						// The override is what came
						// with the message, or close
						// to it.
						kind, before = "override", 0
						point = rkey(r)
						k := point
						if r.Intn(2) == 0 {
							k = negKey(k)
						}
						tweak = func(_ int, d []rec) []rec {
							return append(d, rec{8,
								pub33(k)})
						}
						v.Count("override near the "+
							"blinding point", 1)
					case 0, 1:
						kind = "override"
						tweak = func(_ int, d []rec) []rec {
							return append(d, rec{8,
								pub33(rkey(r))})
						}
					case 2:
						kind = "no next node"
						tweak = func(_ int, d []rec) []rec {
							return delRec(d, 4)
						}
					case 3:
						kind = "bad next node"
						tweak = func(_ int, d []rec) []rec {
							return setRec(d, 4,
								notOnCurve(r))
						}
					}
				}
				c, _ := craftFrom(r, point, p.lnd.key, before,
					after, tweak)
				c.how += ", " + kind
				w := judgeMsg(ref, c.typ, c.data, hs)
				if w.what == "unclaimed" {
					continue
				}
				if r.Intn(6) == 0 {
					d := c.poison(r)
					batch = append(batch, d)
					want = append(want, judgeMsg(ref, d.typ,
						d.data, hs))
					v.Count("altered copies ahead", 1)
				}
				batch = append(batch, c)
				want = append(want, w)
				v.Count(w.what, 1)
				if kind == "override" && w.what == "forward" {
					v.Count("forward with override", 1)
				}
				v.Distinct(before, after, kind, w.what, w.why)
				v.Sample("position", map[string]string{
					"message": c.how, "must": w.what})
			}
			for k, c := range batch {
				p.lnd.inject(p.from(r, want[k]), c.typ, c.data)
				if r.Intn(3) == 0 {
					spin(r)
				}
			}
			got, sent := p.flush()
			checkOutcomes(want, got, sent, describeBatch(batch))
		}
		p.noShutdown()
	})

	// A relay can't reach the next node for some messages: these are lost,
	// all others must be forwarded.
	v.Cases("send faults", 8, v.N(60, 2000), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		var mu sync.Mutex
		bad := map[string]error{}
		tries := map[string]int{}
		p.lnd.onSend = func(ctx context.Context,
			m lndclient.CustomMessage) error {

			mu.Lock()
			err := bad[string(m.Data)]
			tries[string(m.Data)]++
			mu.Unlock()
			if err != nil {
				return err
			}
			return p.rec.outgoing(ctx, m)
		}
		kind := ""
		var batch []*crafted
		var want []*outcome
		for j := 0; j < 8; j++ {
			c, _ := craft(r, p.lnd.key, r.Intn(2), r.Intn(3), nil)
			w := judgeMsg(ref, c.typ, c.data, typeSet(probeTypes))
			if w.what == "unclaimed" {
				continue
			}
			if w.what == "forward" && r.Intn(2) == 0 {
				e := bareErr(r)
				kind += status.Code(e).String() + " "
				bad[string(w.out)] = e
				w = &outcome{what: "drop", why: "send failure"}
				v.Count("failed sends", 1)
			}
			batch, want = append(batch, c), append(want, w)
		}
		for k, c := range batch {
			p.lnd.inject(p.from(r, want[k]), c.typ, c.data)
		}
		got, sent := p.flush()
		checkOutcomes(want, got, sent, describeBatch(batch))
		p.noShutdown()
		mu.Lock()
		defer mu.Unlock()
		for m, n := range tries {
			if n != 1 {
				Fail("a message was sent %d times, lnd's answer "+
					"was: %v: %x", n, bad[m], m)
			}
		}
		for m, e := range bad {
			if tries[m] != 1 {
				Fail("a message was not forwarded, its send "+
					"would have failed with %v", e)
			}
		}
		v.Distinct("faults", len(bad), len(batch), kind)
	})

	// The next node of many messages can't be reached for some time: once
	// it is back it gets what comes for it, as all others did meanwhile.
	v.Cases("unreachable", 8, v.N(48, 800), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		away := rkey(r)
		others := rkeys(r, 3)
		fault := bareErr(r)
		var isAway int32 = 1
		p.lnd.onSend = func(ctx context.Context,
			m lndclient.CustomMessage) error {

			if atomic.LoadInt32(&isAway) != 0 &&
				m.Peer == vertex(away.PubKey()) {
				v.Count("sends to a node that is away", 1)
				return fault
			}
			return p.rec.outgoing(ctx, m)
		}
		var batch []*crafted
		var want []*outcome
		inject := func(to *btcec.PrivateKey) {
			nodes := pubs([]*btcec.PrivateKey{p.lnd.key, to})
			msg := refMessage(r, blindPath(rkey(r), nodes,
				plainData(nodes)), &rpayload{})
			w := judgeMsg(ref, onionType, msg, nil)
			if to == away && isAway != 0 {
				w = &outcome{what: "drop", why: "send failure"}
			}
			batch = append(batch, &crafted{onionType, msg, w.what})
			want = append(want, w)
			p.lnd.inject(p.from(r, w), onionType, msg)
		}
		n := []int{3, 10, 30, 130}[r.Intn(4)]
		for j := 0; j < n; j++ {
			inject(away)
			if r.Intn(4) == 0 {
				inject(others[r.Intn(len(others))])
			}
		}
		got, sent := p.flush()
		atomic.StoreInt32(&isAway, 0)
		for j := 0; j < 3; j++ {
			inject(away)
			inject(others[j])
		}
		got2, sent2 := p.flush()
		checkOutcomes(want, append(got, got2...),
			append(sent, sent2...), describeBatch(batch))
		p.noShutdown()
		v.Distinct("unreachable", n, status.Code(fault))
	})

	// A relay that has no handlers, so that nothing but what it forwards can
	// be seen of it.
	v.Cases("relay only", 8, v.N(60, 2000), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		if err := p.m.DeregisterHandler(sentinelType); err != nil {
			Fail("deregister: %v", err)
		}
		ref := newPeeler(p.lnd.key)
		var batch []*crafted
		var want []*outcome
		for len(batch) < 8 {
			c, _ := craft(r, p.lnd.key, r.Intn(2), r.Intn(3), nil)
			if r.Intn(2) == 0 {
				c = hostile(r, p.lnd.key)
			}
			if len(batch) == 7 {
				c, _ = craft(r, p.lnd.key, 0, 1, nil)
			}
			w := judgeMsg(ref, c.typ, c.data, nil)
			if len(batch) == 7 && w.what != "forward" {
				continue
			}
			if w.what == "deliver" {
				w = &outcome{what: "drop", why: "no handlers"}
			}
			if w.what == "unclaimed" {
				continue
			}
			batch, want = append(batch, c), append(want, w)
			v.Count("relay only: "+w.what, 1)
		}
		for k, c := range batch {
			p.lnd.inject(p.from(r, want[k]), c.typ, c.data)
		}
		last := want[7].out
		eventually("the last message is forwarded", func() bool {
			return p.rec.has(func(_ []delivery,
				s []lndclient.CustomMessage) bool {

				return len(s) > 0 && bytes.Equal(last,
					s[len(s)-1].Data)
			})
		})
		got, sent := p.results()
		checkOutcomes(want, got, sent, describeBatch(batch))
		p.noShutdown()
	})

	v.Require("relay only: drop", 50)
	v.Require("relay only: forward", 50)
	v.Require("override near the blinding point", 30)
	v.Require("forward", 300)
	v.Require("forward with override", 50)
	v.Require("drop", 30)
	v.Require("deliver", 100)
	v.Require("failed sends", 50)
	v.Require("sends to a node that is away", 300)
}

// from is a peer that a message comes from. It may be anyone: a path may go
// back to where it came from, and begin with us.
func (p *probe) from(r *rand.Rand, o *outcome) route.Vertex {
	switch k := r.Intn(6); {
	case k == 0:
		return p.lnd.vertex()
	case k < 3 && o.next != nil:
		v, err := route.NewVertexFromBytes(o.next)
		must(err)
		return v
	case k == 3:
		return vertex(rkey(r).PubKey())
	}
	return p.peer
}

func describeBatch(batch []*crafted) func(int) string {
	return func(i int) string {
		if i >= 0 {
			return fmt.Sprintf("message %d (%s) type %d %x", i,
				batch[i].how, batch[i].typ, batch[i].data)
		}
		var out []string
		for _, c := range batch {
			out = append(out, c.how)
		}
		return strings.Join(out, "; ")
	}
}

// story tells what became of the messages before one in a batch.
func story(want []*outcome, upto int) string {
	out := ""
	for i, w := range want {
		if i > upto {
			break
		}
		out += fmt.Sprintf("\n  %d: must %s (%s)", i, w.what, clip(w.why))
	}
	return out
}

// rawPayloads builds a message for us with raw payload bytes, as the final hop
// or with another hop behind.
func rawPayloads(r *rand.Rand, us *btcec.PrivateKey, after int,
	payload func(enc []byte) []byte, data []byte) []byte {

	nodes := append([]*btcec.PublicKey{us.PubKey()},
		pubs(rkeys(r, after))...)
	datas := plainData(nodes)
	if data != nil {
		datas[0] = data
	}
	path := blindPath(rkey(r), nodes, datas)
	var ids, pls [][]byte
	for i, h := range path.hops {
		ids = append(ids, h.id)
		if i == 0 {
			pls = append(pls, payload(h.enc))
		} else {
			pls = append(pls, encRecs([]rec{{4, h.enc}}))
		}
	}
	blob, err := buildOnion(rkey(r), ids, pls)
	must(err)
	return wireMsg(path.blinding, blob)
}

// hostile makes a message that is wrong in some way.
func hostile(r *rand.Rand, us *btcec.PrivateKey) *crafted {
	good := func() []byte {
		c, _ := craft(r, us, r.Intn(2), r.Intn(2), nil)
		return c.data
	}
	c := &crafted{typ: onionType}
	switch r.Intn(17) {
	case 0:
		c.how = "random bytes"
		c.data = rbytes(r, rlen(r))
	case 1:
		c.how = "truncated"
		m := good()
		c.data = m[:r.Intn(len(m))]
	case 2:
		c.how = "bit flip"
		c.data = good()
		c.data[r.Intn(len(c.data))] ^= 1 << uint(r.Intn(8))
	case 3:
		c.how = "other message type"
		c.data = good()
		c.typ = []uint32{0, 1, 512, 514, 32768, 32769, 65535,
			513 + 65536, 1 << 31, 1<<32 - 1}[r.Intn(10)]
	case 4:
		c.how = "other blinding point"
		c.data = good()
		copy(c.data, pub33(rkey(r)))
	case 5:
		c.how = "bytes after the message"
		c.data = append(good(), rbytes(r, 1+r.Intn(30))...)
	case 6:
		c.how = "wrong onion length"
		c.data = good()
		copy(c.data[33:], u16(r.Intn(65536)))
	case 7:
		c.how = "for another node"
		m, _ := craft(r, rkey(r), 0, r.Intn(2), nil)
		c.data = m.data
	case 8:
		c.how = "random payload"
		c.data = rawPayloads(r, us, r.Intn(2), func([]byte) []byte {
			return rbytes(r, 1+r.Intn(200))
		}, nil)
	case 9:
		c.how = "mutated payload stream"
		c.data = rawPayloads(r, us, r.Intn(2), func(enc []byte) []byte {
			recs := (&rpayload{enc: enc, reply: rpathGen(r, 2, 20),
				final: pfinals(r, r.Intn(3))}).records()
			b := encRecs(recs)
			switch r.Intn(4) {
			case 0:
				return b[:1+r.Intn(len(b)-1)]
			case 1:
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				return b
			case 2:
				// Duplicate or out of order.
				return append(b, encRec(
					recs[r.Intn(len(recs))])...)
			}
			return append(b, 0xff)
		}, nil)
	case 10:
		c.how = "mutated reply path"
		c.data = rawPayloads(r, us, 0, func(enc []byte) []byte {
			p := &rpayload{enc: enc, reply: rpathGen(r, 2, 20),
				final: pfinals(r, 1+r.Intn(2))}
			_, recs := mutatePath(r, p, p.records())
			return encRecs(recs)
		}, nil)
	case 11:
		c.how = "random route data"
		c.data = rawPayloads(r, us, 1, func(enc []byte) []byte {
			return encRecs([]rec{{4, enc}})
		}, rbytes(r, 1+r.Intn(80)))
	case 12:
		c.how = "route data not encrypted to us"
		c.data = rawPayloads(r, us, 1, func(enc []byte) []byte {
			enc = append([]byte{}, enc...)
			enc[r.Intn(len(enc))] ^= 1 << uint(r.Intn(8))
			return encRecs([]rec{{4, enc}})
		}, nil)
	case 13:
		c.how = "final payload at a relay"
		c.data = rawPayloads(r, us, 1, func(enc []byte) []byte {
			return encRecs(sortRecs(append(pfinals(r, 1+r.Intn(2)),
				rec{4, enc})))
		}, nil)
	case 14:
		c.how = "no route data at a relay"
		c.data = rawPayloads(r, us, 1, func([]byte) []byte {
			return encRecs([]rec{{[]uint64{1, 3, 5, 63}[r.Intn(4)],
				rbytes(r, r.Intn(20))}})
		}, nil)
	case 15:
		c.how = "route data with bad keys"
		d := []rec{{4, pub33(rkey(r))}}
		switch r.Intn(4) {
		case 0:
			d = []rec{{4, notOnCurve(r)}}
		case 1:
			d = append(d, rec{8, notOnCurve(r)})
		case 2:
			d = []rec{{4, rbytes(r, r.Intn(70))}}
		case 3:
			d = append(d, rec{8, rbytes(r, r.Intn(33))})
		}
		c.data = rawPayloads(r, us, 1, func(enc []byte) []byte {
			return encRecs([]rec{{4, enc}})
		}, encRecs(d))
	default:
		c.how = "empty or tiny"
		c.data = rbytes(r, r.Intn(36))
	}
	return c
}

// poison is an altered copy of a message, which shares with it what a node may
// remember it by.
func (c *crafted) poison(r *rand.Rand) *crafted {
	d := append([]byte{}, c.data...)
	how := ""
	switch r.Intn(6) {
	case 0:
		how = "negated blinding point"
		d[0] ^= 1
	case 1:
		how = "negated ephemeral key"
		d[36] ^= 1
	case 2:
		how = "both keys negated"
		d[0] ^= 1
		d[36] ^= 1
	case 3:
		how = "other blinding point"
		copy(d, pub33(rkey(r)))
	case 4:
		how = "bit flip in the onion"
		d[69+r.Intn(len(d)-69)] ^= 1 << uint(r.Intn(8))
	case 5:
		how = "cut short"
		d = d[:len(d)-1-r.Intn(40)]
	}
	return &crafted{c.typ, d, "copy ahead, " + how}
}

func runC16(v *V) {
	loud()
	v.Cases("mixed", 8, v.N(150, 6000), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		hs := typeSet(probeTypes)
		for b := 0; b < 4; b++ {
			var batch []*crafted
			var want []*outcome
			kinds := map[string]bool{}
			for j := 4 + r.Intn(8); j > 0; j-- {
				var cs []*crafted
				if r.Intn(4) == 0 {
					c, _ := craft(r, p.lnd.key, r.Intn(2),
						r.Intn(2), nil)
					// Someone on the way may send altered
					// copies ahead of it.
					for r.Intn(3) != 0 {
						cs = append(cs, c.poison(r))
						kinds[cs[len(cs)-1].how] = true
						v.Count("altered copies ahead",
							1)
					}
					cs = append(cs, c)
				} else {
					c := hostile(r, p.lnd.key)
					kinds[c.how] = true
					cs = append(cs, c)
				}
				for _, c := range cs {
					w := judgeMsg(ref, c.typ, c.data, hs)
					if w.what == "unclaimed" {
						continue
					}
					v.Count(w.what, 1)
					v.Sample("mixed", map[string]string{
						"message": c.how,
						"must":    w.what,
						"why":     clip(w.why)})
					batch = append(batch, c)
					want = append(want, w)
				}
			}
			for k, c := range batch {
				p.lnd.inject(p.from(r, want[k]), c.typ, c.data)
			}
			got, sent := p.flush()
			checkOutcomes(want, got, sent, describeBatch(batch))
			v.Distinct(fmt.Sprint(kinds))
			v.Count("batches", 1)
		}
		p.noShutdown()
	})

	// The signer fails, or is slow, for some messages. These may be lost,
	// but nothing else.
	v.Cases("signer faults", 8, v.N(80, 3000), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		var mu sync.Mutex
		var bad map[string]error
		failures := 0
		p.lnd.onECDH = func(_ context.Context,
			pub *btcec.PublicKey) error {

			mu.Lock()
			defer mu.Unlock()
			err := bad[string(pub.SerializeCompressed())]
			if err != nil {
				failures++
			}
			return err
		}
		p.lnd.onSend = func(ctx context.Context,
			m lndclient.CustomMessage) error {

			mu.Lock()
			err := bad[string(m.Data)]
			if err != nil {
				failures++
			}
			mu.Unlock()
			if err != nil {
				return err
			}
			return p.rec.outgoing(ctx, m)
		}
		for b := 0; b < 4; b++ {
			var batch []*crafted
			var want []*outcome
			fail := map[string]error{}
			for j := 0; j < 6; j++ {
				c, _ := craft(r, p.lnd.key, r.Intn(2), r.Intn(2),
					nil)
				w := judgeMsg(ref, c.typ, c.data,
					typeSet(probeTypes))
				if w.what == "unclaimed" {
					continue
				}
				if w.what == "forward" && r.Intn(2) == 0 {
					fail[string(w.out)] = bareErr(r)
					w = &outcome{what: "drop",
						why: "send failure"}
				} else if r.Intn(3) == 0 {
					// Blinding with this key always comes
					// first, so the message can't be
					// processed.
					fail[string(c.data[:33])] = bareErr(r)
					w = &outcome{what: "drop",
						why: "signer failure"}
				}
				batch, want = append(batch, c), append(want, w)
			}
			mu.Lock()
			bad = fail
			mu.Unlock()
			for _, c := range batch {
				p.lnd.inject(p.peer, c.typ, c.data)
			}
			got, sent := p.flush()
			checkOutcomes(want, got, sent, describeBatch(batch))
			v.Distinct("signer", len(fail), len(batch))
		}
		v.Count("signer failures", int64(failures))
		p.noShutdown()
	})

	// The signer fails for so long that each failure may be the last that a
	// node can take. After that, it works again.
	v.Cases("signer outage", 8, v.N(16, 160), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		make := func() (*crafted, *outcome) {
			for {
				c, _ := craft(r, p.lnd.key, r.Intn(2),
					r.Intn(2), nil)
				w := judgeMsg(ref, c.typ, c.data,
					typeSet(probeTypes))
				if w.what != "unclaimed" {
					return c, w
				}
			}
		}
		// Blinding with the key of the message always comes first.
		lost, _ := make()
		err := bareErr(r)
		p.lnd.onECDH = func(_ context.Context,
			pub *btcec.PublicKey) error {

			if !bytes.Equal(pub.SerializeCompressed(),
				lost.data[:33]) {

				return nil
			}
			v.Count("signer calls in an outage", 1)
			return err
		}
		for b := 0; b < 2; b++ {
			for j := 150 + r.Intn(100); j > 0; j-- {
				p.lnd.inject(p.peer, lost.typ, lost.data)
			}
			var batch []*crafted
			var want []*outcome
			for j := 0; j < 4; j++ {
				c, w := make()
				batch, want = append(batch, c), append(want, w)
			}
			for _, c := range batch {
				p.lnd.inject(p.peer, c.typ, c.data)
			}
			got, sent := p.flush()
			checkOutcomes(want, got, sent, describeBatch(batch))
			v.Distinct("outage", fmt.Sprintf("%T", err), b)
		}
		p.noShutdown()
	})

	v.Cases("slow lnd", 24, v.N(24, 240), func(i int, r *rand.Rand) {
		slowLnd(v, r, i%3 == 0)
	})

	v.Cases("sending", 8, v.N(40, 600), func(i int, r *rand.Rand) {
		sending(v, r)
	})

	// Handlers fail: the payloads of other handlers, in the same and other
	// messages, are delivered all the same.
	v.Cases("handler faults", 8, v.N(80, 3000), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		failing := map[uint64]bool{}
		for _, t := range probeTypes {
			failing[t] = r.Intn(2) == 0
			h := p.rec.handler(t)
			if failing[t] {
				ok := h
				e := handlerErr(r)
				h = func(p *lnwire.ReplyPath, enc,
					val []byte) error {

					_ = ok(p, enc, val)
					return e
				}
			}
			p.register(t, h)
		}
		var batch []*crafted
		var want []*outcome
		for j := 0; j < 10; j++ {
			c := &crafted{typ: onionType, how: "payloads",
				data: p.toSelf(r, nil, pfinals(r, 1+r.Intn(4)))}
			w := judgeMsg(ref, c.typ, c.data, typeSet(probeTypes))
			for _, d := range w.deliver {
				if failing[d.typ] {
					v.Count("handler failures", 1)
				}
			}
			batch, want = append(batch, c), append(want, w)
		}
		for _, c := range batch {
			p.lnd.inject(p.peer, c.typ, c.data)
		}
		got, sent := p.flush()
		checkOutcomes(want, got, sent, describeBatch(batch))
		p.noShutdown()
		v.Distinct("handlers", fmt.Sprint(failing))
	})

	// Very many bad messages in a row.
	v.Cases("flood", 4, v.N(4, 40), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		ref := newPeeler(p.lnd.key)
		n := 0
		for n < 1500+6000*(i%2) {
			c := hostile(r, p.lnd.key)
			w := judgeMsg(ref, c.typ, c.data, typeSet(probeTypes))
			if w.what != "drop" {
				continue
			}
			// Some of them again and again.
			for j := 1 + 12*(i%2)*r.Intn(2); j > 0; j-- {
				n++
				p.lnd.inject(p.peer, c.typ, c.data)
			}
		}
		got, sent := p.flush()
		checkOutcomes(nil, got, sent, func(int) string {
			return "a flood of bad messages"
		})
		p.noShutdown()
		v.Count("flood", int64(n))
	})

	v.Require("drop", 1000)
	v.Require("deliver", 100)
	v.Require("forward", 50)
	v.Require("signer failures", 50)
	v.Require("altered copies ahead", 100)
	v.Require("signer calls in an outage", 1000)
	v.Require("messages among sends that hang", 80)
	v.Require("slow nodes", 20)
	v.Require("hanging signer calls given up", 5)
	v.Require("handler failures", 100)
}

// sending is a node that sends messages of its own, some of which lnd does not
// answer, also from within its handlers, while messages arrive.
func sending(v *V, r *rand.Rand) {
	f := newFakeLnd(rkey(r))
	target := vertex(rkey(r).PubKey())
	p := newProbeOn(r, f, 64, 65)
	gate := make(chan struct{})
	stuck := []string{"QueryRoutes", "ListPeers", "GetNodeInfo", "Connect",
		"SendCustomMessage"}[r.Intn(5)]
	var reached int32
	hang := func(call string, ctx context.Context) error {
		if call != stuck || ctx.Value(p) == nil {
			return nil
		}
		atomic.AddInt32(&reached, 1)
		select {
		case <-gate:
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	peered := stuck == "SendCustomMessage"
	f.onRoutes = func(ctx context.Context, _ lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		if err := hang("QueryRoutes", ctx); err != nil {
			return nil, err
		}
		return hopsOf([]route.Vertex{target}), nil
	}
	f.onPeers = func(ctx context.Context) ([]lndclient.Peer, error) {
		if err := hang("ListPeers", ctx); err != nil {
			return nil, err
		}
		if !peered {
			return nil, nil
		}
		return []lndclient.Peer{peerOf(target)}, nil
	}
	f.onNode = func(ctx context.Context, v route.Vertex, _ bool) (
		*lndclient.NodeInfo, error) {

		if err := hang("GetNodeInfo", ctx); err != nil {
			return nil, err
		}
		return &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v,
			Addresses: []string{"10.0.0.1:9735"}}}, nil
	}
	f.onConnect = func(ctx context.Context, _ route.Vertex, _ string,
		_ bool) error {

		return hang("Connect", ctx)
	}
	f.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
		if err := hang("SendCustomMessage", ctx); err != nil {
			return err
		}
		return p.rec.outgoing(ctx, m)
	}
	key, err := btcec.ParsePubKey(target[:])
	must(err)
	send := func(ctx context.Context, direct bool) error {
		return p.m.SendMessage(ctx, onionmsg.NewSendMessageRequest(key,
			nil, nil, toFinal([]rec{{64, nil}}), direct))
	}

	ctx, cancel := context.WithCancel(context.WithValue(
		context.Background(), p, true))
	defer cancel()
	var wg sync.WaitGroup
	n := 1 + r.Intn(6)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = send(ctx, stuck != "QueryRoutes")
		}()
	}
	eventually("sends reach lnd", func() bool {
		return atomic.LoadInt32(&reached) == int32(n)
	})
	answers := make(chan error, 10)
	own := 1<<40 + uint64(r.Intn(1000))
	p.register(own, func(*lnwire.ReplyPath, []byte, []byte) error {
		answers <- send(context.Background(), false)
		return nil
	})
	ref := newPeeler(f.key)
	var batch []*crafted
	var want []*outcome
	for len(batch) < 4 {
		c, _ := craft(r, f.key, r.Intn(2), r.Intn(2), nil)
		w := judgeMsg(ref, c.typ, c.data, typeSet([]uint64{64, 65}))
		if w.what == "unclaimed" || w.what == "drop" {
			continue
		}
		batch, want = append(batch, c), append(want, w)
		f.inject(p.from(r, w), c.typ, c.data)
	}
	got, sent := p.flush()
	checkOutcomes(want, got, sent, describeBatch(batch))
	f.inject(p.peer, onionType, p.toSelf(r, nil, []rec{{own, nil}}))
	within("a send from within a handler", func() { err = <-answers })
	if err != nil {
		Fail("send from within a handler: %v", err)
	}
	_, sent = p.flush()
	if len(sent) != 1 || sent[0].Peer != target {
		Fail("%d messages sent by a handler", len(sent))
	}
	cancel()
	close(gate)
	within("sends that were cancelled", wg.Wait)
	p.noShutdown()
	p.stop()
	v.Count("messages among sends that hang", 4)
	v.Distinct("sending", stuck, n)
}

// slowLnd is a node on an lnd that takes seconds to answer, or doesn't answer
// one of the calls of the signer at all.
func slowLnd(v *V, r *rand.Rand, hangs bool) {
	slow := func(ctx context.Context, ms int) error {
		select {
		case <-time.After(time.Duration(ms) * time.Millisecond):
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	f := newFakeLnd(rkey(r))
	atStart := r.Intn(2) * r.Intn(3000)
	f.onInfo = func(ctx context.Context) error {
		return slow(ctx, atStart)
	}
	p := newProbeOn(r, f, probeTypes...)
	ref := newPeeler(f.key)
	var batch []*crafted
	var want []*outcome
	delays := map[string]int{}
	var once sync.Once
	hung := make(chan struct{})
	for len(batch) < 5 {
		c, _ := craft(r, f.key, r.Intn(2), r.Intn(2), nil)
		w := judgeMsg(ref, c.typ, c.data, typeSet(probeTypes))
		if w.what == "unclaimed" || w.what == "drop" {
			continue
		}
		switch {
		case hangs && len(batch) == 1:
			delays[string(c.data[:33])] = 1 << 30
			w = &outcome{what: "drop", why: "the signer hangs"}
		case r.Intn(2) == 0:
			delays[string(c.data[:33])] = r.Intn(1500)
		case w.what == "forward" && r.Intn(2) == 0:
			delays[string(w.out)] = r.Intn(1500)
		}
		batch, want = append(batch, c), append(want, w)
	}
	f.onECDH = func(ctx context.Context, pub *btcec.PublicKey) error {
		ms := delays[string(pub.SerializeCompressed())]
		err := slow(ctx, ms)
		if ms == 1<<30 {
			once.Do(func() { close(hung) })
		}
		return err
	}
	f.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
		if err := slow(ctx, delays[string(m.Data)]); err != nil {
			return err
		}
		return p.rec.outgoing(ctx, m)
	}
	for k, c := range batch {
		f.inject(p.from(r, want[k]), c.typ, c.data)
	}
	if hangs {
		// The code doesn't say for how long it waits.
		awaitFor(4*patience, hung,
			"a call of the signer that hangs is given up")
		v.Count("hanging signer calls given up", 1)
	}
	got, sent := p.flush()
	checkOutcomes(want, got, sent, describeBatch(batch))
	p.noShutdown()
	p.stop()
	v.Count("slow nodes", 1)
	v.Distinct("slow", atStart/100, len(delays), hangs)
}

var errReplay = errors.New("replay")

// lateReplays has messages replayed after a long time, in which a few others
// were processed or none.
func lateReplays(v *V, r *rand.Rand) {
	p := newProbe(r, probeTypes...)
	defer p.stop()
	hs := typeSet(probeTypes)
	ref := newPeeler(p.lnd.key)
	var batch []*crafted
	var want []*outcome
	fresh := func(k int) {
		for ; k > 0; k-- {
			c, _ := craft(r, p.lnd.key, r.Intn(2), r.Intn(2), nil)
			w := judgeMsg(ref, c.typ, c.data, hs)
			if w.what == "unclaimed" {
				continue
			}
			batch, want = append(batch, c), append(want, w)
		}
	}
	inject := func() {
		for _, c := range batch {
			p.lnd.inject(vertex(rkey(r).PubKey()), c.typ, c.data)
		}
		p.flushInto(&want, batch)
	}
	fresh(12)
	old := append([]*crafted{}, batch...)
	inject()
	quiet := v.idleTime(r)
	busy := r.Intn(2) == 0
	for j := 0; j < 5 && !v.stopped(); j++ {
		v.Idle(quiet / 5)
		if busy {
			batch, want = nil, nil
			fresh(3)
			old = append(old, batch...)
			inject()
		}
	}
	if v.stopped() {
		return
	}
	batch, want = nil, nil
	for _, j := range r.Perm(len(old)) {
		batch = append(batch, &crafted{old[j].typ,
			append([]byte{}, old[j].data...), "replayed late: " +
				old[j].how})
		want = append(want, &outcome{what: "drop", why: "replayed late"})
		fresh(1)
	}
	inject()
	p.noShutdown()
	v.Count("replays after a long time", int64(len(old)))
}

func runC17(v *V) {
	loud()
	late := v.Background("late", 3, func(i int, r *rand.Rand) {
		lateReplays(v, r)
	})
	defer v.Require("replays after a long time", 10)
	defer late()

	v.Cases("schedules", 8, v.N(100, 4000), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		hs := typeSet(probeTypes)
		ref := newPeeler(p.lnd.key)

		type orig struct {
			data []byte
			c    *crafted
		}
		var all []*crafted
		pattern := ""
		for b := 0; b < 4; b++ {
			var batch []*crafted
			var want []*outcome
			drop := func(how string, c *crafted, data []byte) {
				batch = append(batch, &crafted{c.typ, data,
					how + " of: " + c.how})
				want = append(want, &outcome{what: "drop",
					why: how})
				v.Count(how, 1)
			}
			for j := 3 + r.Intn(8); j > 0; j-- {
				if len(all) == 0 || r.Intn(3) == 0 {
					c, _ := craft(r, p.lnd.key, r.Intn(2),
						r.Intn(2), nil)
					w := judgeMsg(ref, c.typ, c.data, hs)
					if w.what == "unclaimed" {
						continue
					}
					all = append(all, c)
					// An altered copy that came first isn't
					// the message.
					if r.Intn(4) == 0 {
						drop("altered copy ahead", c,
							c.poison(r).data)
						pattern += "a"
					}
					batch = append(batch, c)
					want = append(want, w)
					v.Count("originals "+w.what, 1)
					pattern += "o"
					continue
				}
				c := all[r.Intn(len(all))]
				d := append([]byte{}, c.data...)
				switch r.Intn(6) {
				case 0, 1, 2:
					drop("exact copy", c, d)
					pattern += "c"
				case 3:
					// The onion with other bytes behind it
					// is still the same onion.
					extra := rbytes(r, 1+r.Intn(10))
					drop("padded copy", c, wireMsg(d[:33],
						append(d[35:], extra...)))
					pattern += "p"
				case 4:
					drop("copy with another blinding point",
						c, append(pub33(rkey(r)),
							d[33:]...))
					pattern += "b"
				case 5:
					for k := 1 + r.Intn(4); k > 0; k-- {
						drop("exact copy", c, d)
					}
					pattern += "C"
				}
			}
			for _, c := range batch {
				p.lnd.inject(vertex(rkey(r).PubKey()), c.typ,
					c.data)
			}
			// Handlers that come and go must not open a window.
			if r.Intn(3) == 0 {
				p.flushInto(&want, batch)
				t := probeTypes[r.Intn(len(probeTypes))]
				within("deregistering a handler", func() {
					if err := p.m.DeregisterHandler(
						tlvType(t)); err != nil {
						Fail("deregister: %v", err)
					}
				})
				p.register(t, p.rec.handler(t))
				pattern += "h"
				continue
			}
			p.flushInto(&want, batch)
			pattern += "|"
		}
		p.noShutdown()
		v.Distinct(pattern)
		v.Sample("schedules", pattern)
	})

	// Messages whose first processing had failed to forward or at the
	// handler are not processed a second time either.
	v.Cases("after failure", 8, v.N(40, 1500), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		var mu sync.Mutex
		calls := map[string]int{}
		p.register(64, func(_ *lnwire.ReplyPath, _, val []byte) error {
			mu.Lock()
			defer mu.Unlock()
			calls["d"+string(val)]++
			return errReplay
		})
		fault := bareErr(r)
		p.lnd.onSend = func(_ context.Context,
			m lndclient.CustomMessage) error {

			mu.Lock()
			defer mu.Unlock()
			calls["f"+string(m.Data)]++
			return fault
		}
		var msgs [][]byte
		for j := 0; j < 6; j++ {
			if r.Intn(2) == 0 {
				msgs = append(msgs, p.toSelf(r, nil, []rec{
					{64, rbytes(r, 16)}}))
			} else {
				c, _ := craft(r, p.lnd.key, 0, 1, nil)
				msgs = append(msgs, c.data)
			}
		}
		for round := 0; round < 3; round++ {
			for _, j := range r.Perm(len(msgs)) {
				p.lnd.inject(p.peer, onionType, msgs[j])
			}
			p.flush()
		}
		mu.Lock()
		defer mu.Unlock()
		for k, n := range calls {
			if n > 1 {
				Fail("a message was processed %d times: %x", n, k)
			}
		}
		if len(calls) != len(msgs) {
			Fail("%d of %d messages processed", len(calls), len(msgs))
		}
		v.Count("replays after failure", int64(2*len(msgs)))
	})

	// With handlers for some types, all, or none at all.
	v.Cases("no handlers", 8, v.N(60, 2000), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		var old [][]byte
		pattern := ""
		for round := 0; round < 6; round++ {
			on := map[uint64]bool{}
			for _, t := range probeTypes {
				if r.Intn(2) == 0 {
					on[t] = true
					p.register(t, p.rec.handler(t))
				}
			}
			want, k := 0, 0
			for j := 1 + r.Intn(6); j > 0; j-- {
				if len(old) > 0 && r.Intn(2) == 0 {
					p.lnd.inject(p.peer, onionType,
						old[r.Intn(len(old))])
					v.Count("copies while handlers come and go",
						1)
					continue
				}
				t := probeTypes[r.Intn(len(probeTypes))]
				m := p.toSelf(r, nil, []rec{{t, rbytes(r, 8)}})
				old = append(old, m)
				p.lnd.inject(p.peer, onionType, m)
				if k++; on[t] {
					want++
				}
			}
			got, _ := p.flush()
			if len(got) != want {
				Fail("%d payloads delivered, want %d of %d new "+
					"messages, with %d handlers in round %d",
					len(got), want, k, len(on), round)
			}
			pattern += fmt.Sprintf("%d/%d ", want, k)
			// Nobody is left.
			for t := range on {
				must(p.m.DeregisterHandler(tlvType(t)))
			}
			must(p.m.DeregisterHandler(sentinelType))
			if r.Intn(2) == 0 {
				for j := r.Intn(4); j > 0; j-- {
					p.lnd.inject(p.peer, onionType,
						old[r.Intn(len(old))])
				}
			}
			p.register(sentinelType, p.rec.handler(sentinelType))
		}
		v.Distinct("no handlers", pattern)
	})

	// A long history between a message and its copy.
	v.Cases("long history", 2, v.N(2, 8), func(i int, r *rand.Rand) {
		p := newProbe(r, probeTypes...)
		defer p.stop()
		n := v.N(3000, 30000)
		var msgs [][]byte
		for j := 0; j < n; j++ {
			msgs = append(msgs, p.toSelf(r, nil, []rec{
				{64, u64(uint64(j))}}))
			p.lnd.inject(p.peer, onionType, msgs[j])
			if (j+1)%500 != 0 {
				continue
			}
			if got, _ := p.flush(); len(got) != 500 {
				Fail("%d of 500 messages delivered", len(got))
			}
		}
		// Many more copies, and junk, come before the copies that count.
		for j := v.N(30000, 300000); j > 0; j-- {
			d := msgs[j%7]
			if j%3 == 0 {
				d = rbytes(r, r.Intn(60))
			}
			p.lnd.inject(p.peer, onionType, d)
			if j%1000 != 0 {
				continue
			}
			if got, sent := p.flush(); len(got)+len(sent) != 0 {
				Fail("copies and junk had an effect: %v, %v",
					got, sent)
			}
		}
		for j := 0; j < n; j += 1 + r.Intn(4) {
			p.lnd.inject(p.peer, onionType, msgs[j])
			v.Count("late copies", 1)
		}
		got, _ := p.flush()
		if len(got) != 0 {
			Fail("a copy of a message was delivered %d messages "+
				"later", n)
		}
	})

	v.Require("exact copy", 300)
	v.Require("originals deliver", 100)
	v.Require("originals forward", 50)
	v.Require("late copies", 200)
	v.Require("copies while handlers come and go", 200)
}

// flushInto waits for a batch and compares it with what it must do.
func (p *probe) flushInto(want *[]*outcome, batch []*crafted) {
	got, sent := p.flush()
	checkOutcomes(*want, got, sent, describeBatch(batch))
	*want = nil
}
