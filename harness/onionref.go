package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/tlv"
)

// This file is the independent reference for onion messages: payloads, reply
// paths, peeling and building onions with the sphinx library alone.

// rhop is one hop of a reference reply path.
type rhop struct {
	id  []byte
	enc []byte
}

// rpath is a reference reply path.
type rpath struct {
	intro, blinding []byte
	hops            []rhop
}

func (p *rpath) encode() []byte {
	out := append([]byte{}, p.intro...)
	out = append(out, p.blinding...)
	out = append(out, byte(len(p.hops)))
	for _, h := range p.hops {
		out = append(out, h.id...)
		out = append(out, u16(len(h.enc))...)
		out = append(out, h.enc...)
	}
	return out
}

var errPath = errors.New("malformed reply path")

func takePoint(b []byte) ([]byte, []byte, error) {
	if len(b) < 33 {
		return nil, nil, errPath
	}
	if _, err := btcec.ParsePubKey(b[:33]); err != nil {
		return nil, nil, err
	}
	return append([]byte{}, b[:33]...), b[33:], nil
}

func parsePath(b []byte) (*rpath, error) {
	p := &rpath{}
	var err error
	if p.intro, b, err = takePoint(b); err != nil {
		return nil, err
	}
	if p.blinding, b, err = takePoint(b); err != nil {
		return nil, err
	}
	if len(b) < 1 || b[0] == 0 {
		return nil, errPath
	}
	n := int(b[0])
	b = b[1:]
	for i := 0; i < n; i++ {
		h := rhop{}
		if h.id, b, err = takePoint(b); err != nil {
			return nil, err
		}
		if len(b) < 2 {
			return nil, errPath
		}
		l := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if l > len(b) {
			return nil, errPath
		}
		h.enc = append([]byte{}, b[:l]...)
		b = b[l:]
		p.hops = append(p.hops, h)
	}
	if len(b) != 0 {
		return nil, errPath
	}
	return p, nil
}

func (p *rpath) String() string {
	if p == nil {
		return "none"
	}
	return hex.EncodeToString(p.encode())
}

// toReplyPath converts to the code's type.
func (p *rpath) toReplyPath() *lnwire.ReplyPath {
	if p == nil {
		return nil
	}
	out := &lnwire.ReplyPath{
		FirstNodeID:   toPoint(p.intro),
		BlindingPoint: toPoint(p.blinding),
	}
	for _, h := range p.hops {
		out.Hops = append(out.Hops, &lnwire.BlindedHop{
			BlindedNodeID: toPoint(h.id),
			EncryptedData: append([]byte{}, h.enc...),
		})
	}
	return out
}

func fromReplyPath(p *lnwire.ReplyPath) *rpath {
	if p == nil {
		return nil
	}
	out := &rpath{
		intro:    p.FirstNodeID.SerializeCompressed(),
		blinding: p.BlindingPoint.SerializeCompressed(),
	}
	for _, h := range p.Hops {
		out.hops = append(out.hops, rhop{
			h.BlindedNodeID.SerializeCompressed(), h.EncryptedData,
		})
	}
	return out
}

// rpayload is a reference onion message payload.
type rpayload struct {
	reply *rpath
	enc   []byte
	final []rec
}

func (p *rpayload) records() []rec {
	var out []rec
	if p.reply != nil {
		out = append(out, rec{2, p.reply.encode()})
	}
	if len(p.enc) != 0 {
		out = append(out, rec{4, p.enc})
	}
	out = append(out, p.final...)
	return sortRecs(out)
}

func (p *rpayload) String() string {
	var fs []string
	for _, f := range p.final {
		fs = append(fs, f.String())
	}
	return fmt.Sprintf("reply %s enc %x final [%s]", p.reply, p.enc,
		strings.Join(fs, " "))
}

// parsePayload parses a payload; claim is false if it has even types below 64
// that the reference doesn't know.
func parsePayload(b []byte) (p *rpayload, claim bool, err error) {
	recs, err := parseTLV(b)
	if err != nil {
		return nil, true, err
	}
	p = &rpayload{}
	claim = true
	for _, r := range recs {
		switch {
		case r.t == 2:
			if p.reply, err = parsePath(r.v); err != nil {
				return nil, claim, err
			}
		case r.t == 4:
			p.enc = r.v
		case r.t >= 64:
			p.final = append(p.final, r)
		case r.t%2 == 0:
			claim = false
		}
	}
	return p, claim, nil
}

func fromPayload(o *lnwire.OnionMessagePayload) *rpayload {
	p := &rpayload{reply: fromReplyPath(o.ReplyPath), enc: o.EncryptedData}
	for _, f := range o.FinalHopPayloads {
		p.final = append(p.final, rec{uint64(f.TLVType), f.Value})
	}
	return p
}

func toFinal(recs []rec) []*lnwire.FinalHopPayload {
	var out []*lnwire.FinalHopPayload
	for _, r := range recs {
		out = append(out, &lnwire.FinalHopPayload{
			TLVType: tlv.Type(r.t),
			Value:   append([]byte{}, r.v...),
		})
	}
	return out
}

// rpathGen generates a reply path with random keys.
func rpathGen(r *rand.Rand, maxHops, maxData int) *rpath {
	p := &rpath{intro: pub33(rkey(r)), blinding: pub33(rkey(r))}
	n := 1 + r.Intn(maxHops)
	if r.Intn(8) == 0 {
		n = maxHops
	}
	if r.Intn(8) == 0 {
		maxData = 0
	}
	for i := 0; i < n; i++ {
		p.hops = append(p.hops, rhop{
			pub33(rkey(r)), rbytes(r, r.Intn(maxData+1)),
		})
	}
	if r.Intn(8) == 0 {
		// Keys that only differ in their sign.
		twin := func(b []byte) []byte {
			c := append([]byte{}, b...)
			c[0] ^= 1
			return c
		}
		switch i := r.Intn(n); r.Intn(3) {
		case 0:
			p.hops[i].id = twin(p.hops[r.Intn(n)].id)
		case 1:
			p.hops[i].id = twin(p.intro)
		case 2:
			p.blinding = twin(p.hops[i].id)
		}
	}
	return p
}

// rpathNear generates a reply path that has something in common with one of
// those before it.
func rpathNear(r *rand.Rand, before []*rpath, maxHops, maxData int) *rpath {
	p := rpathGen(r, maxHops, maxData)
	if len(before) == 0 || r.Intn(2) == 0 {
		return p
	}
	o := before[r.Intn(len(before))]
	if o == nil {
		return p
	}
	// A copy of the other, of which one part is new.
	c := &rpath{intro: o.intro, blinding: o.blinding,
		hops: append([]rhop{}, o.hops...)}
	at := r.Intn(len(c.hops))
	switch r.Intn(9) {
	case 0:
		return c
	case 1:
		c.intro = p.intro
	case 2:
		c.blinding = p.blinding
	case 3:
		c.hops = p.hops
	case 4:
		c.hops[at].id = p.hops[0].id
	case 5:
		c.hops[at].enc = p.hops[0].enc
	case 6:
		if len(c.hops) > 1 {
			c.hops = c.hops[:len(c.hops)-1]
		}
	case 7:
		// Only the introduction node is the same.
		c.blinding, c.hops = p.blinding, p.hops
	case 8:
		// The negation of the node.
		c.intro = append([]byte{}, c.intro...)
		c.intro[0] ^= 1
	}
	return c
}

// rfinals generates payloads for the final hop, in ascending order.
func rfinals(r *rand.Rand, n, maxLen int) []rec {
	seen := map[uint64]bool{}
	var out []rec
	for len(out) < n {
		t := uint64(64 + r.Intn(6))
		switch r.Intn(5) {
		case 0:
			t = redge(r)
		case 1:
			t = uint64(64 + r.Intn(400))
		}
		if t < 64 || seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, rec{t, rbytes(r, r.Intn(maxLen+1))})
	}
	return sortRecs(out)
}

func shuffled(r *rand.Rand, recs []rec) []rec {
	out := make([]rec, len(recs))
	for i, j := range r.Perm(len(recs)) {
		out[i] = recs[j]
	}
	return out
}

// peeler processes onions as one node of the network, independently.
type peeler struct {
	key    *btcec.PrivateKey
	router *sphinx.Router
}

func newPeeler(key *btcec.PrivateKey) *peeler {
	p := &peeler{key: key, router: sphinx.NewRouter(
		&sphinx.PrivKeyECDH{PrivKey: key}, &chaincfg.MainNetParams,
		sphinx.NewMemoryReplayLog(),
	)}
	must(p.router.Start())
	return p
}

func (p *peeler) ecdh() *sphinx.PrivKeyECDH {
	return &sphinx.PrivKeyECDH{PrivKey: p.key}
}

// layer is what one node sees of an onion message.
type layer struct {
	exit    bool
	payload *rpayload
	raw     []byte
	data    []rec  // decrypted route data
	next    []byte // next_node_id
	blind   []byte // blinding point for the next node
	blob    []byte // next onion
	sphinx  *sphinx.ProcessedPacket
}

// wireMsg is an onion message on the wire.
func wireMsg(blinding, blob []byte) []byte {
	out := append([]byte{}, blinding...)
	out = append(out, u16(len(blob))...)
	return append(out, blob...)
}

func parseWire(b []byte) (blinding, blob []byte, err error) {
	if len(b) < 35 {
		return nil, nil, fmt.Errorf("%d byte onion message", len(b))
	}
	if _, err := btcec.ParsePubKey(b[:33]); err != nil {
		return nil, nil, err
	}
	n := int(b[33])<<8 | int(b[34])
	if len(b) != 35+n {
		return nil, nil, fmt.Errorf("onion of %d bytes in message of "+
			"%d", n, len(b))
	}
	return b[:33], b[35:], nil
}

// peel processes an onion message at this node.
func (p *peeler) peel(msg []byte) (*layer, error) {
	blindB, blob, err := parseWire(msg)
	if err != nil {
		return nil, err
	}
	blinding := toPoint(blindB)
	pkt := &sphinx.OnionPacket{}
	if err := pkt.Decode(bytes.NewReader(blob)); err != nil {
		return nil, fmt.Errorf("decode onion: %w", err)
	}
	proc, err := p.router.ProcessOnionPacket(pkt, nil, 0, blinding)
	if err != nil {
		return nil, fmt.Errorf("process onion: %w", err)
	}
	l := &layer{exit: proc.Action == sphinx.ExitNode, sphinx: proc,
		raw: proc.Payload.Payload}
	l.payload, _, err = parsePayload(proc.Payload.Payload)
	if err != nil {
		return nil, fmt.Errorf("payload %x: %w",
			proc.Payload.Payload, err)
	}
	if len(l.payload.enc) != 0 {
		dec, err := sphinx.DecryptBlindedData(p.ecdh(), blinding,
			l.payload.enc)
		if err == nil {
			l.data, err = parseTLV(dec)
		}
		if err != nil {
			if !l.exit {
				return nil, fmt.Errorf("route data: %w", err)
			}
			l.data = nil
		}
	}
	if l.exit {
		return l, nil
	}
	l.next, _ = find(l.data, 4)
	nb, err := sphinx.NextEphemeral(p.ecdh(), blinding)
	if err != nil {
		return nil, err
	}
	l.blind = nb.SerializeCompressed()
	if o, ok := find(l.data, 8); ok {
		l.blind = o
	}
	buf := &bytes.Buffer{}
	must(proc.NextPacket.Encode(buf))
	l.blob = buf.Bytes()
	return l, nil
}

// blindPath builds a blinded path with the sphinx library. data is the route
// data for every node.
func blindPath(session *btcec.PrivateKey, nodes []*btcec.PublicKey,
	data [][]byte) *rpath {

	var hops []*sphinx.BlindedPathHop
	for i, n := range nodes {
		hops = append(hops, &sphinx.BlindedPathHop{
			NodePub: n, Payload: data[i],
		})
	}
	bp, err := sphinx.BuildBlindedPath(session, hops)
	must(err)
	out := &rpath{
		intro:    bp.IntroductionPoint.SerializeCompressed(),
		blinding: bp.BlindingPoint.SerializeCompressed(),
	}
	for i := range bp.BlindedHops {
		out.hops = append(out.hops, rhop{
			bp.BlindedHops[i].SerializeCompressed(),
			bp.EncryptedData[i],
		})
	}
	return out
}

// routeData is the reference encoding of a hop's route data.
func routeData(next, override []byte, extra ...rec) []byte {
	var recs []rec
	if next != nil {
		recs = append(recs, rec{4, next})
	}
	if override != nil {
		recs = append(recs, rec{8, override})
	}
	return encRecs(sortRecs(append(recs, extra...)))
}

// plainData gives the route data of a path where each node only gets the next
// node's id.
func plainData(nodes []*btcec.PublicKey) [][]byte {
	out := make([][]byte, len(nodes))
	for i := range nodes {
		if i+1 < len(nodes) {
			out[i] = routeData(nodes[i+1].SerializeCompressed(), nil)
		}
	}
	return out
}

// buildOnion builds an onion for blinded nodes with raw payloads.
func buildOnion(session *btcec.PrivateKey, ids [][]byte,
	payloads [][]byte) ([]byte, error) {

	var path sphinx.PaymentPath
	for i := range ids {
		path[i] = sphinx.OnionHop{
			NodePub: *toPoint(ids[i]),
			HopPayload: sphinx.HopPayload{
				Type:    sphinx.PayloadTLV,
				Payload: payloads[i],
			},
		}
	}
	pkt, err := sphinx.NewOnionPacket(&path, session, nil,
		sphinx.DeterministicPacketFiller)
	if err != nil {
		return nil, err
	}
	buf := &bytes.Buffer{}
	if err := pkt.Encode(buf); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// refMessage builds a whole onion message over a blinded path.
func refMessage(r *rand.Rand, p *rpath, final *rpayload) []byte {
	var ids, pls [][]byte
	for i, h := range p.hops {
		pl := &rpayload{enc: h.enc}
		if i == len(p.hops)-1 {
			pl.reply, pl.final = final.reply, final.final
		}
		ids = append(ids, h.id)
		pls = append(pls, encRecs(pl.records()))
	}
	blob, err := buildOnion(rkey(r), ids, pls)
	must(err)
	return wireMsg(p.blinding, blob)
}

// onionBytes is the space that a hop with a payload takes in an onion.
func onionBytes(payload int) int {
	return len(bigsize(uint64(payload))) + payload + 32
}

func pubs(keys []*btcec.PrivateKey) []*btcec.PublicKey {
	var out []*btcec.PublicKey
	for _, k := range keys {
		out = append(out, k.PubKey())
	}
	return out
}

func rkeys(r *rand.Rand, n int) []*btcec.PrivateKey {
	var out []*btcec.PrivateKey
	for i := 0; i < n; i++ {
		out = append(out, rkey(r))
	}
	return out
}

// negKey is the key whose public key has the same x coordinate and the other
// parity.
func negKey(k *btcec.PrivateKey) *btcec.PrivateKey {
	s := k.Key
	s.Negate()
	return &btcec.PrivateKey{Key: s}
}

// rrelated is a fresh key, or one related to a key of the pool: the same, or
// its negation.
func rrelated(r *rand.Rand, pool []*btcec.PrivateKey) *btcec.PrivateKey {
	if len(pool) == 0 {
		return rkey(r)
	}
	k := pool[r.Intn(len(pool))]
	switch r.Intn(10) {
	case 0:
		return k
	case 1:
		return negKey(k)
	}
	return rkey(r)
}

// rroute gives the keys of the nodes of a route, which may visit a node
// repeatedly.
func rroute(r *rand.Rand, n int) []*btcec.PrivateKey {
	var out []*btcec.PrivateKey
	for i := 0; i < n; i++ {
		out = append(out, rrelated(r, out))
	}
	return out
}
