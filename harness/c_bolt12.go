package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register("C01", "BOLT 12 messages are generated field by field with "+
		"boundary-biased values and unknown odd records; a case is "+
		"non-trivial when its set of record types and value lengths "+
		"was not seen before in this run", runC01)
	register("C02", "Well formed streams are mutated structurally "+
		"(truncation, order, duplicates, lengths, keys, integers) or "+
		"replaced with noise, and the decoder's verdict is compared "+
		"with an independent parser; distinct (mutation, verdict, "+
		"record shape) triples are counted", runC02)
	register("C03", "Streams of 1..40 non-signature records in random "+
		"shapes; the root is compared with an independent merkle "+
		"tree; distinct record shapes are counted", runC03)
	register("C04", "Signed messages, and one random alteration of each; "+
		"the verdict is compared with a BIP 340 verification of an "+
		"independent digest; distinct (kind, alteration, field) are "+
		"counted", runC04)
	register("C05", "Unsigned (or correctly signed) messages with each "+
		"required field independently set, unset or at a boundary; "+
		"distinct field combinations and verdicts are counted", runC05)
	register("C06", "Offers and requested amounts and quantities at and "+
		"around each boundary; distinct relations between offer and "+
		"request are counted", runC06)
	register("C07", "Offer strings re-split with '+', whitespace and case "+
		"changes, and corrupted ones; distinct (edit, verdict) shapes "+
		"are counted", runC07)
}

func pickKind(r *rand.Rand) kind { return kinds[r.Intn(len(kinds))] }

// decodeTwice decodes a copy of a stream, checks that decoding is a function
// of the stream, and that it leaves the stream alone.
func decodeTwice(k kind, b []byte) (*msg, error) {
	in := append([]byte{}, b...)
	m, err := decodeMsg(k, in)
	if !bytes.Equal(in, b) {
		Fail("decode of %s changed its input %x", k.name, b)
	}
	m2, err2 := decodeMsg(k, b)
	if (err == nil) != (err2 == nil) {
		Fail("decode of %s %x gave %v, then %v", k.name, b, err, err2)
	}
	if err == nil {
		if d := diffFields(m.fields(), m2.fields()); d != "" {
			Fail("decode of %s %x is not deterministic: %s",
				k.name, b, d)
		}
		if m.root() != m2.root() {
			Fail("merkle root of %s %x is not deterministic",
				k.name, b)
		}
	}
	return m, err
}

// nonSig counts records covered by the merkle tree.
func nonSig(recs []rec) int {
	n := 0
	for _, r := range recs {
		if !isSigType(r.t) {
			n++
		}
	}
	return n
}

// ensureNonSig makes sure that there's something to build a tree with.
func ensureNonSig(r *rand.Rand, k kind, recs []rec) []rec {
	if nonSig(recs) > 0 {
		return recs
	}
	recs = append(recs, rec{8, tu64(1 + uint64(r.Intn(100)))})
	return sortRecs(recs)
}

// encodable caps values that the code's types cannot hold.
func encodable(k kind, recs []rec) []rec {
	for i, r := range recs {
		if k.name == "invoice" && r.t == 44 &&
			u64of(r.v) > maxRelExpiry {

			recs[i].v = u64(u64of(r.v) % maxRelExpiry)
		}
	}
	return recs
}

func runC01(v *V) {
	// What we encode: exactly the canonical stream of the fields set, and
	// it decodes to the same fields.
	v.Cases("encode", 8, v.N(30000, 600000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs := encodable(k, rstream(r, k, []float64{
			.2, .6, 1}[r.Intn(3)], 0))
		m := build(k, recs)
		want := canonical(k, recs)
		b, err := m.encode()
		if err != nil {
			Fail("could not encode %s %s: %v", k.name, types(want),
				err)
		}
		if exp := encRecs(want); !bytes.Equal(b, exp) {
			Fail("%s encoded to %s, want %s", k.name,
				clip(hex.EncodeToString(b)),
				clip(hex.EncodeToString(exp)))
		}
		b2, err := m.encode()
		if err != nil || !bytes.Equal(b, b2) {
			Fail("encoding %s twice differs", k.name)
		}
		v.Count("encodes compared", 1)
		if nonSig(want) == 0 {
			return
		}
		d, err := decodeTwice(k, b)
		if err != nil {
			Fail("could not decode own %s %x: %v", k.name, b, err)
		}
		exp, _, err := k.fields(want)
		must(err)
		if df := diffFields(exp, d.fields()); df != "" {
			Fail("%s did not survive encode and decode: %s",
				k.name, df)
		}
		v.Count("round trips compared", 1)
		v.Distinct(k.name, types(want))
		v.Sample("encode", k.name+" "+clip(hex.EncodeToString(b)))
	})

	// What others encode: every field is reported as sent, whatever else
	// is in the stream, and survives being re-encoded.
	v.Cases("decode", 8, v.N(30000, 600000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs := rstream(r, k, r.Float64(), r.Intn(4))
		recs = ensureNonSig(r, k, recs)
		exp, claim, err := k.fields(recs)
		must(err)
		b := encRecs(recs)
		m, err := decodeTwice(k, b)
		if err != nil {
			Fail("valid %s %x was rejected: %v", k.name, b, err)
		}
		if !claim {
			return
		}
		if df := diffFields(exp, m.fields()); df != "" {
			Fail("%s %s decoded wrong: %s", k.name,
				clip(hex.EncodeToString(b)), df)
		}
		v.Count("decodes compared", 1)
		v.Distinct(k.name, types(recs))

		for _, rc := range recs {
			if k.name == "invoice" && rc.t == 44 &&
				u64of(rc.v) > maxRelExpiry {
				return
			}
		}
		b2, err := m.encode()
		if err != nil {
			Fail("decoded %s could not be encoded: %v", k.name, err)
		}
		recs2, err := parseTLV(b2)
		if err != nil {
			Fail("re-encoded %s is not a tlv stream: %x", k.name, b2)
		}
		exp2, _, err := k.fields(recs2)
		if err != nil {
			Fail("re-encoded %s is malformed: %v: %x", k.name, err,
				b2)
		}
		if df := diffFields(exp, exp2); df != "" {
			Fail("re-encoding %s %s lost a value: %s", k.name,
				clip(hex.EncodeToString(b)), df)
		}
		v.Count("re-encodes compared", 1)
		v.Sample("decode", k.name+" "+clip(hex.EncodeToString(b)))
	})
	v.Require("round trips compared", 1000)
	v.Require("re-encodes compared", 1000)
}

// rawRec is a record with full control over its encoding.
type rawRec struct {
	t, l, v []byte
}

func toRaw(recs []rec) []rawRec {
	var out []rawRec
	for _, r := range recs {
		out = append(out, rawRec{bigsize(r.t),
			bigsize(uint64(len(r.v))), append([]byte{}, r.v...)})
	}
	return out
}

func rawBytes(rs []rawRec) []byte {
	var out []byte
	for _, r := range rs {
		out = append(out, r.t...)
		out = append(out, r.l...)
		out = append(out, r.v...)
	}
	return out
}

// wide encodes an integer with more bytes than needed.
func wide(n uint64, r *rand.Rand) []byte {
	switch {
	case n < 0xfd:
		switch r.Intn(3) {
		case 0:
			return []byte{0xfd, 0, byte(n)}
		case 1:
			return append([]byte{0xfe, 0, 0, 0}, byte(n))
		}
		return append([]byte{0xff}, u64(n)...)
	case n <= 0xffff:
		if r.Intn(2) == 0 {
			return append([]byte{0xfe, 0, 0}, u16(int(n))...)
		}
		return append([]byte{0xff}, u64(n)...)
	case n <= 0xffffffff:
		return append([]byte{0xff}, u64(n)...)
	}
	return bigsize(n)
}

// notOnCurve finds an x coordinate with no point.
func notOnCurve(r *rand.Rand) []byte {
	for {
		x := rbytes(r, 32)
		if _, err := schnorr.ParsePubKey(x); err != nil {
			return x
		}
	}
}

// mutateStream alters the encoding of a stream.
func mutateStream(r *rand.Rand, k kind, recs []rec) (string, []byte) {
	raw := toRaw(recs)
	pick := func() int { return r.Intn(len(raw)) }
	name := ""
	switch op := r.Intn(17); op {
	case 0:
		b := rawBytes(raw)
		return "truncate", b[:r.Intn(len(b)+1)]
	case 1:
		b := rawBytes(raw)
		for j := 0; j <= r.Intn(3); j++ {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return "flip", b
	case 2:
		name = "duplicate"
		i := pick()
		raw = append(raw[:i+1], raw[i:]...)
	case 3:
		name = "swap"
		i, j := pick(), pick()
		raw[i], raw[j] = raw[j], raw[i]
	case 4:
		name = "wide type"
		i := pick()
		raw[i].t = wide(recs[i].t, r)
	case 5:
		name = "wide length"
		i := pick()
		raw[i].l = wide(uint64(len(recs[i].v)), r)
	case 6:
		name = "huge length"
		i := pick()
		raw[i].l = bigsize([]uint64{65536, 1 << 31, 1 << 32, 1 << 62,
			1<<63 - 1, 1 << 63, ^uint64(0)}[r.Intn(7)])
	case 7:
		name = "length off by one"
		i := pick()
		d := 1 - 2*r.Intn(2)
		raw[i].l = bigsize(uint64(len(recs[i].v) + d))
		if len(recs[i].v)+d < 0 {
			raw[i].l = bigsize(1)
		}
	case 8, 9:
		// A record with a value of the wrong length, and a length that
		// says so.
		name = "resize value"
		i := pick()
		n := []int{0, 1, 7, 8, 9, 31, 32, 33, 34, 63, 64, 65}[r.Intn(12)]
		val := append([]byte{}, recs[i].v...)
		for len(val) < n {
			val = append(val, byte(r.Intn(256)))
		}
		raw[i].v, raw[i].l = val[:n], bigsize(uint64(n))
	case 10:
		name = "leading zero integer"
		var c []int
		for i, rc := range recs {
			if k.types[rc.t] == fTu64 {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			break
		}
		i := c[r.Intn(len(c))]
		val := append(make([]byte, 1+r.Intn(2)), recs[i].v...)
		raw[i].v, raw[i].l = val, bigsize(uint64(len(val)))
	case 11:
		name = "bad key"
		for i, rc := range recs {
			switch k.types[rc.t] {
			case fXOnly:
				raw[i].v = notOnCurve(r)
			case fPoint:
				switch r.Intn(4) {
				case 0:
					raw[i].v = append([]byte{2},
						notOnCurve(r)...)
				case 1:
					raw[i].v[0] = byte(r.Intn(256))
				case 2:
					raw[i].v = make([]byte, 33)
				default:
					// Field prime and above.
					raw[i].v = bytes.Repeat(
						[]byte{0xff}, 33)
					raw[i].v[0] = 3
				}
			}
		}
	case 12:
		return "noise", rbytes(r, r.Intn(200))
	case 13:
		name = "trailing type"
		b := append(rawBytes(raw), bigsize(redge(r))...)
		return name, b
	case 14:
		name = "partial varint"
		b := append(rawBytes(raw), []byte{0xfd, 0xfe, 0xff}[r.Intn(3)])
		return name, append(b, rbytes(r, r.Intn(8))...)
	case 15:
		name = "unknown even"
		t := redge(r) &^ 1
		if _, ok := k.types[t]; ok {
			t = 252
		}
		recs = sortRecs(append(recs, rec{t, rbytes(r, rlen(r))}))
		return name, encRecs(recs)
	case 16:
		name = "drop bytes"
		b := rawBytes(raw)
		i := r.Intn(len(b))
		n := 1 + r.Intn(4)
		if i+n > len(b) {
			n = len(b) - i
		}
		return name, append(b[:i], b[i+n:]...)
	}
	return name, rawBytes(raw)
}

func runC02(v *V) {
	v.Assume("streams with unknown even types, with no record outside " +
		"of the signature range, or with feature vectors over 8192 " +
		"bytes only have to be handled without a panic or a hang")
	v.Cases("mutate", 8, v.N(100000, 2000000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs := rstream(r, k, r.Float64(), r.Intn(3))
		recs = ensureNonSig(r, k, recs)
		op, b := mutateStream(r, k, recs)

		parsed, err := parseTLV(b)
		var want map[uint64]string
		claim := true
		if err == nil {
			want, claim, err = k.fields(parsed)
		}
		m, gotErr := decodeTwice(k, b)
		v.Count("decodes of mutated streams", 1)
		if !claim {
			v.Count("decodes without a reference verdict", 1)
			return
		}
		switch {
		case err != nil && gotErr == nil:
			Fail("malformed %s (%s: %v) was accepted: %x", k.name,
				op, err, b)
		case err == nil && gotErr != nil:
			Fail("well formed %s (%s) was rejected: %v: %x", k.name,
				op, gotErr, b)
		case err == nil:
			if df := diffFields(want, m.fields()); df != "" {
				Fail("%s (%s) %x decoded wrong: %s", k.name, op,
					b, df)
			}
			v.Count("accepted, fields compared", 1)
		default:
			v.Count("rejected", 1)
		}
		v.Distinct(k.name, op, err == nil, types(parsed), len(b))
		v.Sample("mutate", fmt.Sprintf("%s %s valid=%v %s", k.name, op,
			err == nil, clip(hex.EncodeToString(b))))
	})
	v.Require("rejected", 2000)
	v.Require("accepted, fields compared", 2000)
}

func runC03(v *V) {
	v.Cases("received", 8, v.N(20000, 300000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		unknown := r.Intn(28)
		if r.Intn(60) == 0 {
			unknown = 28 + r.Intn(300)
		}
		recs := rstream(r, k, r.Float64(), unknown)
		recs = ensureNonSig(r, k, recs)
		b := encRecs(recs)
		m, err := decodeTwice(k, b)
		if err != nil {
			Fail("valid %s %x was rejected: %v", k.name, b, err)
		}
		if got, want := m.root(), refRoot(recs); got != want {
			Fail("%s root of %d records is %x, want %x: %s",
				k.name, nonSig(recs), got, want,
				clip(hex.EncodeToString(b)))
		}
		v.Count("roots compared", 1)
		v.Count(fmt.Sprintf("trees with %02d leaves", nonSig(recs)), 1)
		v.Distinct(k.name, types(recs))
		v.Sample("received", k.name+" "+types(recs))
	})

	// Roots of records built locally, in any order: the exported tree.
	v.Cases("local", 8, v.N(5000, 100000), func(i int, r *rand.Rand) {
		n := 1 + i%40
		switch {
		case i%40 == 39:
			n = 41 + r.Intn(100)
		case i%1000 == 500:
			n = 100 + r.Intn(1500)
		}
		seen := map[uint64]bool{}
		var recs []rec
		for nonSig(recs) < n {
			t := redge(r)
			if r.Intn(3) == 0 {
				t = uint64(200 + r.Intn(900))
			}
			if n > 40 {
				t = uint64(r.Intn(20 * n))
			}
			if seen[t] {
				continue
			}
			seen[t] = true
			n := rlen(r)
			if i%200 == 7 && len(recs) == 0 {
				// More than a received record can have.
				n = maxRecord + 1 + r.Intn(100000)
			}
			recs = append(recs, rec{t, rbytes(r, n)})
		}
		var in []tlv.Record
		for _, j := range r.Perm(len(recs)) {
			val := append([]byte{}, recs[j].v...)
			in = append(in, tlv.MakePrimitiveRecord(
				tlv.Type(recs[j].t), &val))
		}
		sortRecs(recs)
		got, err := lnwire.MerkleRoot(in)
		if err != nil {
			Fail("no root for %s: %v", types(recs), err)
		}
		if want := refRoot(recs); got != want {
			Fail("root of %d local records is %x, want %x: %s", n,
				got[:], want, types(recs))
		}
		v.Count("roots compared", 1)
		v.Distinct(types(recs))
	})

	// Changing, adding or removing a signed record changes the root; doing
	// so to a signature doesn't.
	v.Cases("binding", 8, v.N(5000, 100000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs := rstream(r, k, r.Float64(), 1+r.Intn(6))
		recs = ensureNonSig(r, k, recs)
		j := r.Intn(len(recs))
		alt := append([]rec{}, recs...)
		if _, known := k.types[recs[j].t]; !known {
			if len(recs[j].v) == 0 || r.Intn(2) == 0 {
				alt[j].v = append(append([]byte{},
					recs[j].v...), byte(r.Intn(256)))
			} else {
				x := append([]byte{}, recs[j].v...)
				x[r.Intn(len(x))] ^= byte(1 + r.Intn(255))
				alt[j].v = x
			}
			if len(alt[j].v) > maxRecord {
				return
			}
		} else {
			for bytes.Equal(alt[j].v, recs[j].v) {
				alt[j].v = rfield(r, k.types[recs[j].t])
			}
		}
		a, err := decodeMsg(k, encRecs(recs))
		if err != nil {
			Fail("valid %s rejected: %v", k.name, err)
		}
		b, err := decodeMsg(k, encRecs(alt))
		if err != nil {
			Fail("valid %s rejected: %v", k.name, err)
		}
		same := a.root() == b.root()
		if same != isSigType(recs[j].t) {
			Fail("%s root with type %d changed: same root %v: %s",
				k.name, recs[j].t, same, types(recs))
		}
		v.Count("alterations compared", 1)
	})

	// The root that a request is created with is the one that its
	// recipient will calculate.
	v.Cases("request", 8, v.N(4000, 80000), func(i int, r *rand.Rand) {
		ob := encRecs(validOffer(r, r.Intn(4)))
		o, err := lnwire.DecodeOffer(ob)
		must(err)
		o.QuantityMin, o.QuantityMax = 0, 0
		q := uint64(0)
		if r.Intn(2) == 0 {
			q = 1 + redge(r)>>1
			o.QuantityMin = 1
		}
		amt := lndwire.MilliSatoshi(redge(r))
		if amt < o.MinimumAmount {
			amt = o.MinimumAmount
		}
		req, err := lnwire.NewInvoiceRequest(o, amt, q,
			rkey(r).PubKey(), rtext(r, rlen(r)))
		if err != nil {
			Fail("request for offer %x failed: %v", ob, err)
		}
		if r.Intn(2) == 0 {
			req.Signature = toSig(rbytes(r, 64))
		}
		b, err := lnwire.EncodeInvoiceRequest(req)
		if err != nil {
			Fail("could not encode request: %v", err)
		}
		recs, err := parseTLV(b)
		if err != nil {
			Fail("request is not a tlv stream: %x", b)
		}
		if want := refRoot(recs); req.MerkleRoot != want {
			Fail("request was created with root %x, its "+
				"recipient calculates %x: %x", req.MerkleRoot[:],
				want, b)
		}
		v.Count("request roots compared", 1)
		v.Distinct("request", types(recs))
	})
	v.Require("roots compared", 2000)
	v.Require("alterations compared", 500)
	v.Require("request roots compared", 500)
}

// validOffer generates the records of an offer that passes validation.
func validOffer(r *rand.Rand, unknown int) []rec {
	recs := rstream(r, kOffer, r.Float64(), unknown)
	var out []rec
	var min, max uint64
	for _, x := range recs {
		switch x.t {
		case 10, 30, 240:
			continue
		case 22:
			min = n64(x.v)
		case 24:
			max = n64(x.v)
			if max < min && max != 0 {
				continue
			}
		}
		out = append(out, x)
	}
	out = append(out, rec{10, []byte(rtext(r, rlen(r)|1))},
		rec{30, pub33(rkey(r))[1:]})
	return sortRecs(out)
}

// validRecs generates the records of a message that would pass validation,
// without its signature, and its key.
func validRecs(r *rand.Rand, k kind, unknown int) ([]rec,
	*btcec.PrivateKey) {

	key := rkey(r)
	var recs []rec
	switch k.name {
	case "offer":
		recs = validOffer(r, unknown)
		for i := range recs {
			if recs[i].t == 30 {
				recs[i].v = pub33(key)[1:]
			}
		}
		return recs, key
	case "invoice_request":
		recs = rstream(r, k, r.Float64(), unknown)
		recs = setRec(recs, 4, rbytes(r, 32))
		recs = setRec(recs, 38, pub33(key)[1:])
	default:
		recs = encodable(k, rstream(r, k, r.Float64(), unknown))
		recs = setRec(recs, 8, tu64(1+redge(r)>>1))
		recs = setRec(recs, 10, []byte(rtext(r, rlen(r)|1)))
		recs = setRec(recs, 30, pub33(key))
		recs = setRec(recs, 40, u64(1+redge(r)>>32))
		recs = setRec(recs, 42, rbytes(r, 32))
	}
	return delRec(recs, 240), key
}

func setRec(recs []rec, t uint64, val []byte) []rec {
	return sortRecs(append(delRec(recs, t), rec{t, val}))
}

func delRec(recs []rec, t uint64) []rec {
	var out []rec
	for _, r := range recs {
		if r.t != t {
			out = append(out, r)
		}
	}
	return out
}

func signDigest(key *btcec.PrivateKey, digest [32]byte) []byte {
	s, err := schnorr.Sign(key, digest[:])
	must(err)
	return s.Serialize()
}

func verifies(recs []rec, k kind) bool {
	sigB, ok := find(recs, 240)
	if !ok {
		return k.name != "invoice_request"
	}
	keyB, _ := find(recs, k.key)
	if len(keyB) == 33 {
		keyB = keyB[1:]
	}
	sig, err := schnorr.ParseSignature(sigB)
	if err != nil {
		return false
	}
	d := refDigest(k.tag, "signature", refRoot(recs))
	return sig.Verify(d[:], toX(keyB))
}

func runC04(v *V) {
	v.Assume("btcec's BIP 340 verification is correct")
	v.Cases("sign", 8, v.N(8000, 150000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs, key := validRecs(r, k, r.Intn(4))
		good := append([]rec{}, recs...)
		good = setRec(good, 240, signDigest(key, refDigest(
			k.tag, "signature", refRoot(recs))))

		check := func(recs []rec, what string) {
			b := encRecs(recs)
			m, err := decodeMsg(k, b)
			if err != nil {
				Fail("%s (%s) was rejected by the decoder: "+
					"%v: %x", k.name, what, err, b)
			}
			want := verifies(recs, k)
			err = m.validate()
			if (err == nil) != want {
				Fail("%s (%s): valid signature is %v, but "+
					"validation gave %v: %x", k.name, what,
					want, err, b)
			}
			if want {
				v.Count("valid signatures accepted", 1)
			} else {
				v.Count("bad signatures rejected", 1)
			}
		}
		check(good, "signed")
		if m, _ := decodeMsg(k, encRecs(good)); m.q != nil {
			want := refDigest(k.tag, "signature", refRoot(good))
			if d := m.q.SignatureDigest(); !bytes.Equal(d[:],
				want[:]) {

				Fail("request digest is %x, want %x", d[:],
					want)
			}
			v.Count("digests compared", 1)
		}

		what, alt := alterSigned(r, k, key, good)
		check(alt, what)
		v.Distinct(k.name, what)
		v.Sample("sign", k.name+" "+what)
	})

	// Locally created requests: sign the digest they ask for.
	v.Cases("request", 8, v.N(2000, 30000), func(i int, r *rand.Rand) {
		o, err := lnwire.DecodeOffer(encRecs(validOffer(r, r.Intn(3))))
		must(err)
		key := rkey(r)
		q := o.QuantityMin
		if q == 0 {
			q = o.QuantityMax
		}
		req, err := lnwire.NewInvoiceRequest(o, o.MinimumAmount+
			lndwire.MilliSatoshi(r.Intn(2)), q, key.PubKey(),
			rtext(r, r.Intn(20)))
		if errors.Is(err, lnwire.ErrBelowMinAmount) {
			return // The amount overflowed.
		}
		if err != nil {
			Fail("valid request failed: %v", err)
		}
		d := req.SignatureDigest()
		s, err := schnorr.Sign(key, d[:])
		must(err)
		req.Signature = toSig(s.Serialize())
		if err := req.Validate(); err != nil {
			Fail("own signed request is invalid: %v", err)
		}
		b, err := lnwire.EncodeInvoiceRequest(req)
		must(err)
		got, err := lnwire.DecodeInvoiceRequest(b)
		if err != nil {
			Fail("own request is malformed: %v: %x", err, b)
		}
		if err := got.Validate(); err != nil {
			Fail("own signed request is invalid for its "+
				"recipient: %v: %x", err, b)
		}
		v.Count("signed requests accepted", 1)
	})
	// Bytes that are a valid offer and a valid invoice request: a signature
	// of one isn't one of the other, whatever was looked at before.
	v.Cases("two kinds", 8, v.N(1500, 30000), func(i int, r *rand.Rand) {
		recs := validOffer(r, r.Intn(4))
		key, keys := rkey(r), map[string]*btcec.PrivateKey{}
		keys["offer"], keys["invoice_request"] = key, key
		if r.Intn(3) == 0 {
			keys["invoice_request"] = rkey(r)
		}
		recs = setRec(recs, 4, rbytes(r, 32))
		recs = setRec(recs, 30, pub33(keys["offer"])[1:])
		recs = setRec(recs, 38, pub33(keys["invoice_request"])[1:])
		both := []kind{kOffer, kRequest}
		var signed [][]rec
		for _, k := range both {
			signed = append(signed, setRec(append([]rec{}, recs...),
				240, signDigest(keys[k.name], refDigest(k.tag,
					"signature", refRoot(recs)))))
		}
		type step struct {
			k    kind
			recs []rec
		}
		var steps []step
		for j := 2 + r.Intn(5); j > 0; j-- {
			steps = append(steps, step{both[r.Intn(2)],
				signed[r.Intn(2)]})
		}
		for _, s := range steps {
			m, err := decodeMsg(s.k, encRecs(s.recs))
			if err != nil {
				// It has unknown records of even types.
				v.Count("not of two kinds", 1)
				return
			}
			want := verifies(s.recs, s.k)
			for j := r.Intn(2); j >= 0; j-- {
				err = m.validate()
				if (err == nil) != want {
					Fail("%s that could be of another kind: "+
						"valid signature is %v, but "+
						"validation gave %v: %x",
						s.k.name, want, err,
						encRecs(s.recs))
				}
			}
			v.Count("verdicts on messages of two kinds", 1)
		}
	})

	// Messages made locally, with a signature that can't be right.
	v.Cases("local", 8, v.N(1500, 30000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs, key := validRecs(r, k, 0)
		sig := rbytes(r, 64)
		switch r.Intn(4) {
		case 0:
			sig = make([]byte, 64)
		case 1:
			sig = signDigest(rkey(r), refDigest(k.tag, "signature",
				refRoot(recs)))
		case 2:
			sig = signDigest(key, refDigest("payer", "signature",
				refRoot(recs)))
		}
		m := build(k, canonical(k, setRec(recs, 240, sig)))
		if err := m.validate(); err == nil {
			Fail("local %s with a bad signature %x is valid: %s",
				k.name, sig, types(recs))
		}
		v.Count("bad signatures rejected", 1)
	})
	v.Require("valid signatures accepted", 500)
	v.Require("bad signatures rejected", 500)
	v.Require("digests compared", 100)
}

// alterSigned makes one change to a signed message that keeps it well formed.
func alterSigned(r *rand.Rand, k kind, key *btcec.PrivateKey,
	good []rec) (string, []rec) {

	out := append([]rec{}, good...)
	sig, _ := find(good, 240)
	root := refRoot(good)
	resign := func(d [32]byte, by *btcec.PrivateKey) []rec {
		return setRec(out, 240, signDigest(by, d))
	}
	switch r.Intn(13) {
	case 0:
		s := append([]byte{}, sig...)
		s[r.Intn(64)] ^= 1 << uint(r.Intn(8))
		return "signature bit", setRec(out, 240, s)
	case 1:
		return "other key", resign(refDigest(k.tag, "signature", root),
			rkey(r))
	case 2:
		tag := []string{"offer", "invoice_request", "invoice",
			"payer", ""}[r.Intn(5)]
		return "tag " + tag, resign(
			refDigest(tag, "signature", root), key)
	case 3:
		return "field tag", resign(refDigest(k.tag,
			[]string{"", "sig", "payer_signature"}[r.Intn(3)], root),
			key)
	case 4:
		return "untagged root", resign(root, key)
	case 5, 6, 7:
		j := r.Intn(len(out))
		t := out[j].t
		f, ok := k.types[t]
		if t == 240 || t == k.key {
			return "nothing", out
		}
		if !ok {
			out[j].v = append(append([]byte{}, out[j].v...), 1)
			if len(out[j].v) > maxRecord {
				out[j].v = nil
			}
			return fmt.Sprintf("unknown value sig=%v", isSigType(t)),
				out
		}
		old := out[j].v
		for n := 0; n < 20; n++ {
			val := rfield(r, f)
			if bytes.Equal(val, old) {
				continue
			}
			alt := append([]rec{}, out...)
			alt[j].v = val
			if semantic(k, alt) {
				return fmt.Sprintf("field %d", t), alt
			}
		}
		return "nothing", out
	case 8:
		t := rodd(r, k)
		if _, ok := find(out, t); ok {
			return "nothing", out
		}
		return fmt.Sprintf("added record sig=%v", isSigType(t)),
			sortRecs(append(out, rec{t, rbytes(r, r.Intn(3))}))
	case 9:
		j := r.Intn(len(out))
		t := out[j].t
		alt := delRec(out, t)
		if t == 240 || !semantic(k, alt) {
			return "nothing", out
		}
		return fmt.Sprintf("removed %d", t), alt
	case 10:
		return "no signature", delRec(out, 240)
	case 11:
		// Another message's valid signature.
		o2, k2 := validRecs(r, k, 1)
		return "other message's signature", setRec(out, 240, signDigest(
			k2, refDigest(k.tag, "signature", refRoot(o2))))
	default:
		switch r.Intn(4) {
		case 0:
			return "zero signature", setRec(out, 240,
				make([]byte, 64))
		case 1:
			return "max signature", setRec(out, 240,
				bytes.Repeat([]byte{0xff}, 64))
		case 2:
			// s + n is out of range, -s has the wrong parity.
			s := append([]byte{}, sig...)
			var sc btcec.ModNScalar
			sc.SetByteSlice(s[32:])
			sc.Negate()
			x := sc.Bytes()
			copy(s[32:], x[:])
			return "negated s", setRec(out, 240, s)
		default:
			s := append(append([]byte{}, sig[32:]...), sig[:32]...)
			return "swapped halves", setRec(out, 240, s)
		}
	}
}

// semantic is the reference for validation, signatures aside.
func semantic(k kind, recs []rec) bool {
	has := func(t uint64) bool {
		b, ok := find(recs, t)
		return ok && len(b) > 0
	}
	num := func(t uint64) uint64 {
		b, ok := find(recs, t)
		if !ok {
			return 0
		}
		return n64(b)
	}
	hash := func(t uint64) bool {
		b, ok := find(recs, t)
		return ok && toHash(b) != lntypes.ZeroHash
	}
	switch k.name {
	case "offer":
		min, max := num(22), num(24)
		return has(30) && has(10) && !(min != 0 && max != 0 &&
			min > max)
	case "invoice_request":
		return hash(4) && has(38)
	default:
		return num(8) != 0 && hash(42) && has(40) && has(30) && has(10)
	}
}

func runC05(v *V) {
	v.Cases("received", 8, v.N(20000, 300000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs, key := validRecs(r, k, r.Intn(2))
		desc := k.name
		for _, t := range []uint64{4, 8, 10, 22, 24, 30, 38, 40, 42} {
			f, ok := k.types[t]
			if !ok || r.Intn(4) != 0 {
				continue
			}
			switch r.Intn(3) {
			case 0:
				recs = delRec(recs, t)
				desc += fmt.Sprintf(" no %d", t)
			case 1:
				switch f {
				case fTu64, fBytes:
					recs = setRec(recs, t, nil)
					desc += fmt.Sprintf(" empty %d", t)
				case fHash:
					recs = setRec(recs, t, make([]byte, 32))
					desc += fmt.Sprintf(" zero %d", t)
				}
			default:
				if f == fTu64 {
					recs = setRec(recs, t, tu64(uint64(
						r.Intn(4))))
				}
			}
		}
		signed := k.name == "invoice_request" || r.Intn(3) == 0
		if k.name == "invoice_request" && r.Intn(6) == 0 {
			signed = false
		}
		if signed {
			if nonSig(recs) == 0 {
				return
			}
			recs = setRec(recs, 240, signDigest(key, refDigest(
				k.tag, "signature", refRoot(recs))))
		}
		if nonSig(recs) == 0 {
			return
		}
		want := semantic(k, recs)
		if k.name == "invoice_request" && !signed {
			want = false
		}
		b := encRecs(recs)
		m, err := decodeMsg(k, b)
		if err != nil {
			Fail("well formed %s was rejected: %v: %x", desc, err, b)
		}
		err = m.validate()
		if (err == nil) != want {
			Fail("%s: should be valid: %v, validation gave %v: %x",
				desc, want, err, b)
		}
		if want {
			v.Count("valid accepted", 1)
		} else {
			v.Count("invalid rejected", 1)
		}
		v.Distinct(desc, want, signed)
		v.Sample("received", fmt.Sprintf("%s signed=%v valid=%v", desc,
			signed, want))
	})

	// Messages that were put together locally.
	v.Cases("local", 8, v.N(4000, 60000), func(i int, r *rand.Rand) {
		k := pickKind(r)
		recs := delRec(encodable(k, rstream(r, k, r.Float64(), 0)), 240)
		recs = canonical(k, recs)
		m := build(k, recs)
		want := semantic(k, recs) && k.name != "invoice_request"
		if err := m.validate(); (err == nil) != want {
			Fail("local %s %s: should be valid: %v, validation "+
				"gave %v", k.name, types(recs), want, err)
		}
		v.Count("local verdicts compared", 1)
	})
	v.Require("valid accepted", 500)
	v.Require("invalid rejected", 500)
}

func runC06(v *V) {
	near := func(r *rand.Rand, n uint64) uint64 {
		switch r.Intn(5) {
		case 0:
			return n
		case 1:
			return n + 1
		case 2:
			return n - 1
		case 3:
			return 0
		default:
			return redge(r)
		}
	}
	rel := func(a, b uint64) string {
		switch {
		case a < b:
			return "<"
		case a == b:
			return "="
		}
		return ">"
	}
	v.Cases("request", 8, v.N(20000, 400000), func(i int, r *rand.Rand) {
		o, err := lnwire.DecodeOffer(encRecs(validOffer(r, r.Intn(3))))
		must(err)
		o.QuantityMin, o.QuantityMax, o.MinimumAmount = 0, 0, 0
		if r.Intn(2) == 0 {
			o.QuantityMin = redge(r)
		}
		if r.Intn(2) == 0 {
			o.QuantityMax = redge(r)
			if o.QuantityMin != 0 && r.Intn(2) == 0 {
				o.QuantityMax = near(r, o.QuantityMin)
			}
		}
		if o.QuantityMin > o.QuantityMax && o.QuantityMax != 0 {
			o.QuantityMin, o.QuantityMax = o.QuantityMax,
				o.QuantityMin
		}
		if r.Intn(2) == 0 {
			o.MinimumAmount = lndwire.MilliSatoshi(redge(r))
		}
		amt := near(r, uint64(o.MinimumAmount))
		q := near(r, []uint64{o.QuantityMin, o.QuantityMax}[r.Intn(2)])
		key, note := rkey(r).PubKey(), rtext(r, rlen(r))

		// What the offer allows.
		want := amt >= uint64(o.MinimumAmount)
		if o.QuantityMin == 0 && o.QuantityMax == 0 {
			want = want && q == 0
		} else {
			want = want && q != 0
			if o.QuantityMin != 0 {
				want = want && q >= o.QuantityMin
			}
			if o.QuantityMax != 0 {
				want = want && q <= o.QuantityMax
			}
		}
		// A request with no fields at all can't occur: it has a key.
		if r.Intn(3) == 0 {
			o.Signature = toSig(rbytes(r, 64))
		}
		if r.Intn(8) == 0 {
			o.Expiry = time.Unix(int64(r.Intn(1<<31)), 0)
		}
		before := *o
		req, err := lnwire.NewInvoiceRequest(o,
			lndwire.MilliSatoshi(amt), q, key, note)
		desc := fmt.Sprintf("min amount %d quantity %d..%d, request "+
			"%d x %d", o.MinimumAmount, o.QuantityMin,
			o.QuantityMax, amt, q)
		if (err == nil) != want {
			Fail("%s: allowed %v, got %v", desc, want, err)
		}
		if o.MerkleRoot != before.MerkleRoot ||
			o.QuantityMin != before.QuantityMin ||
			o.QuantityMax != before.QuantityMax ||
			o.MinimumAmount != before.MinimumAmount {

			Fail("%s: the offer was changed", desc)
		}
		v.Distinct(rel(amt, uint64(o.MinimumAmount)), o.QuantityMin == 0,
			o.QuantityMax == 0, rel(q, o.QuantityMin),
			rel(q, o.QuantityMax), q == 0, amt == 0,
			o.Chainhash == lntypes.ZeroHash,
			o.Features.IsEmpty(), note == "")
		v.Sample("request", desc)
		if !want {
			if req != nil {
				Fail("%s: refused, but returned a request", desc)
			}
			v.Count("requests refused", 1)
			return
		}
		v.Count("requests created", 1)

		// It carries over what the offer asks for, and decodes to what
		// was requested.
		b, err := lnwire.EncodeInvoiceRequest(req)
		if err != nil {
			Fail("%s: could not be encoded: %v", desc, err)
		}
		recs, err := parseTLV(b)
		if err != nil {
			Fail("%s: not a tlv stream: %x", desc, b)
		}
		got, _, err := kRequest.fields(recs)
		if err != nil {
			Fail("%s: malformed: %v %x", desc, err, b)
		}
		exp := map[uint64]string{
			3: hashStr(before.Chainhash),
			4: hashStr(before.MerkleRoot), 8: fmt.Sprint(amt),
			12: featStr(before.Features), 32: fmt.Sprint(q),
			38: keyStr(key, true),
			39: hex.EncodeToString([]byte(note)), 50: "",
			240: "none",
		}
		if df := diffFields(exp, got); df != "" {
			Fail("%s: request is wrong: %s", desc, df)
		}
		if req.MerkleRoot != refRoot(recs) {
			Fail("%s: root of request is wrong", desc)
		}
	})
	v.Require("requests created", 500)
	v.Require("requests refused", 500)
}

// splitOffer joins parts of an offer string with '+' and whitespace.
func splitOffer(r *rand.Rand, s string, n int) string {
	for j := 0; j < n; j++ {
		i := 1 + r.Intn(len(s)-1)
		if strings.ContainsAny(s[i-1:i+1], "+ \t\r\n") {
			continue
		}
		ws := ""
		for r.Intn(2) == 0 {
			ws += string(" \t\r\n"[r.Intn(4)])
		}
		if r.Intn(40) == 0 {
			ws = strings.Repeat(ws+" ", 1+r.Intn(400))
		}
		s = s[:i] + "+" + ws + s[i:]
	}
	return s
}

// decorate puts something around an offer string.
func decorate(r *rand.Rand, s string) string {
	pre := []string{"lightning:", "LIGHTNING:", "Lightning:", "lightning://",
		"bitcoin:?lno=", "lno", "lno1", "\ufeff", "\u200b", "\"", "'", "<",
		"\x00", "@", "/", "#", "LNO=", "0x"}
	post := []string{"\x00", "\x00\x00\x00", "\"", "'", ">", ".", ",", ";",
		"?", "/", "#", "=", "&x=1", "\ufeff", "\u200b", "\x7f", "\x1b",
		"qqqqqq", "q", "1", "\u00ad", "...", "lno1"}
	switch r.Intn(3) {
	case 0:
		return pre[r.Intn(len(pre))] + s
	case 1:
		return s + post[r.Intn(len(post))]
	}
	return pre[r.Intn(len(pre))] + s + post[r.Intn(len(post))]
}

// flipCase changes the case of all ascii letters.
func flipCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] ^= 32
		}
	}
	return string(b)
}

// strictOffer judges an offer string by the grammar of BOLT 12: bech32
// characters with single joins ('+' and optional whitespace) between them.
// It gives the joined string, or false if the string breaks the grammar.
func strictOffer(s string) (string, bool) {
	var out []byte
	afterJoin := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '+':
			if len(out) == 0 || afterJoin {
				return "", false
			}
			afterJoin = true
		case strings.IndexByte(" \t\r\n", c) >= 0:
			if !afterJoin {
				return "", false
			}
		default:
			afterJoin = false
			out = append(out, c)
		}
	}
	return string(out), !afterJoin && len(out) > 0
}

func runC07(v *V) {
	v.Assume("whitespace before a '+' or around the whole string, and " +
		"strings too short to hold an offer, are not judged")
	accept := func(s string, recs []rec, what string) {
		o, err := offers.DecodeOfferStr(s)
		if err != nil {
			Fail("valid offer string (%s) was rejected: %v: %q",
				what, err, s)
		}
		exp, _, err := kOffer.fields(recs)
		must(err)
		if df := diffFields(exp, (&msg{o: o}).fields()); df != "" {
			Fail("offer string (%s) decoded wrong: %s: %q", what,
				df, s)
		}
		if o.MerkleRoot != refRoot(recs) {
			Fail("offer string (%s) has the wrong root: %q", what, s)
		}
		v.Count("accepted, fields compared", 1)
	}
	reject := func(s string, what string) {
		if _, err := offers.DecodeOfferStr(s); err == nil {
			Fail("bad offer string (%s) was accepted: %q", what, s)
		}
		v.Count("rejected", 1)
	}
	v.Cases("strings", 8, v.N(12000, 200000), func(i int, r *rand.Rand) {
		recs, key := validRecs(r, kOffer, r.Intn(3))
		if r.Intn(2) == 0 {
			recs = setRec(recs, 240, signDigest(key, refDigest(
				"offer", "signature", refRoot(recs))))
		}
		s := bech32NoSum("lno", encRecs(recs))
		if r.Intn(3) == 0 {
			s = strings.ToUpper(s)
		}
		joins := r.Intn(6)
		if r.Intn(16) == 0 {
			joins = r.Intn(len(s))
		}
		s2 := splitOffer(r, s, joins)
		accept(s2, recs, fmt.Sprintf("%d joins", joins))
		v.Distinct("ok", s[0], strings.Count(s2, "+"), len(s2)-len(s),
			len(s)%8)
		v.Sample("strings", clip(s2))

		// One edit, judged by the grammar.
		b := []byte(s2)
		what := ""
		pos := r.Intn(len(b))
		ins := func(x string) {
			b = append(b[:pos:pos], append([]byte(x), b[pos:]...)...)
		}
		switch r.Intn(19) {
		case 17, 18:
			what = "decorated"
			b = []byte(decorate(r, s2))
		case 13, 14:
			what = "case of some parts"
			parts := strings.Split(s2, "+")
			if len(parts) == 1 && r.Intn(4) != 0 {
				parts = strings.Split(splitOffer(r, s, 1+r.Intn(3)),
					"+")
			}
			for j := range parts {
				if r.Intn(2) == 0 {
					parts[j] = flipCase(parts[j])
				}
			}
			b = []byte(strings.Join(parts, "+"))
		case 15:
			what = "case of a piece"
			from, to := pos, r.Intn(len(b)+1)
			if r.Intn(2) == 0 {
				from = []int{0, 1, 2, 3, 4}[r.Intn(5)]
			}
			if from > to {
				from, to = to, from
			}
			b = []byte(s2[:from] + flipCase(s2[from:to]) + s2[to:])
		case 0:
			what = "prefix"
			b = []byte(strings.Replace(string(b), string(b[0]),
				[]string{"k", "L", "1", "", "ll"}[r.Intn(5)], 1))
		case 1:
			what = "case of one letter"
			for n := 0; n < 50; n++ {
				c := b[pos]
				if c >= 'a' && c <= 'z' {
					b[pos] = c - 32
					break
				}
				if c >= 'A' && c <= 'Z' {
					b[pos] = c + 32
					break
				}
				pos = r.Intn(len(b))
			}
		case 2:
			what = "character outside of charset"
			pos = 4 + r.Intn(len(b)-4)
			b[pos] = "bio1!@_-BIO\x00\x7f\x80\xe9"[r.Intn(15)]
		case 3:
			what = "leading +"
			b = append([]byte("+"), b...)
		case 4:
			what = "trailing +"
			b = append(b, []string{"+", "+ ", "+\n"}[r.Intn(3)]...)
		case 5:
			what = "double +"
			ins([]string{"++", "+ +", "+\r\n+"}[r.Intn(3)])
		case 6:
			what = "whitespace without +"
			ins(" \t\r\n"[r.Intn(4):][:1])
		case 7:
			what = "exotic character"
			ins([]string{"\u00a0", "\u2003", "\v", "\f", "\x00",
				"\u212a", "\u017f"}[r.Intn(7)])
		case 8:
			what = "truncated"
			b = b[:pos]
		case 9:
			what = "extra character"
			ins(string(bechCharset[r.Intn(32)]))
		case 10:
			what = "swapped character"
			b[pos] = bechCharset[r.Intn(32)]
		case 11:
			what = "lost 1"
			b = []byte(strings.Replace(string(b), "1", "", 1))
		case 12:
			what = "padding"
			k := 1 + r.Intn(3)
			for j := 0; j < k; j++ {
				b = append(b, bechCharset[[]int{0, 1, 31}[r.Intn(
					3)]])
			}
		default:
			what = "semantics"
			bad := delRec(recs, []uint64{10, 30}[r.Intn(2)])
			bad = delRec(bad, 240)
			if nonSig(bad) == 0 {
				return
			}
			b = []byte(bech32NoSum("lno", encRecs(bad)))
		}
		judge(v, string(b), what, accept, reject)
	})

	// Each pattern for the joins of a string, exhaustively.
	pats := []string{"+", "++", "+ +", " +", "+ ", "+\n", "+\t \r\n", " ",
		"\n", "+x", "", "+\v", "+\u00a0", "+ + +"}
	recs, _ := validRecs(rand.New(rand.NewSource(caseSeed(v.Seed, "c07",
		0))), kOffer, 1)
	s := bech32NoSum("lno", encRecs(recs))
	if len(s) > 300 {
		recs = []rec{{10, []byte("d")}, {30, pub33(rkey(rand.New(
			rand.NewSource(1))))[1:]}}
		s = bech32NoSum("lno", encRecs(recs))
	}
	v.Cases("joins", 8, len(pats)*(len(s)+1), func(i int, r *rand.Rand) {
		p, at := pats[i%len(pats)], i/len(pats)
		judge(v, s[:at]+p+s[at:], fmt.Sprintf("%q at %d", p, at), accept,
			reject)
		v.Distinct("join", i)
	})
	v.Require("accepted, fields compared", 500)
	v.Require("rejected", 500)
}

// judge compares the verdict on any string with the grammar's.
func judge(v *V, s, what string, accept func(string, []rec, string),
	reject func(string, string)) {

	// Whitespace around the string and before a join is trimmed leniently:
	// no claim. Neither for whitespace that's only a space to unicode.
	trimmed := strings.TrimSpace(s)
	parts := strings.Split(s, "+")
	lenient := trimmed != s
	for i, p := range parts {
		if i < len(parts)-1 && strings.TrimRight(p, " \t\r\n\v\f\u0085"+
			"\u00a0\u2003") != p {
			lenient = true
		}
		if strings.TrimSpace(p) != strings.Trim(p, " \t\r\n") {
			lenient = true
		}
	}
	if !utf8.ValidString(s) {
		what += " (not utf-8)"
	}
	joined, ok := strictOffer(s)
	var recs []rec
	if ok {
		b, err := refOfferBytes(joined)
		ok = err == nil && isASCII(joined)
		if ok {
			recs, err = parseTLV(b)
			ok = err == nil
		}
		if ok {
			var claim bool
			_, claim, err = kOffer.fields(recs)
			if !claim {
				_, _ = offers.DecodeOfferStr(s)
				return
			}
			ok = err == nil && semantic(kOffer, recs) &&
				verifies(recs, kOffer)
		}
	}
	if lenient {
		_, _ = offers.DecodeOfferStr(s)
		v.Count("not judged (lenient whitespace)", 1)
		return
	}
	if ok {
		accept(s, recs, what)
	} else {
		reject(s, what)
	}
	v.Distinct(what, ok)
}

// isASCII says whether a string is of ascii characters other than white space.
func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 126 || strings.IndexByte(" \t\n\v\f\r", s[i]) >= 0 {
			return false
		}
	}
	return true
}

var _ = time.Now
