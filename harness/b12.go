package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// msg adapts the three BOLT 12 types of the code under test.
type msg struct {
	o *lnwire.Offer
	q *lnwire.InvoiceRequest
	i *lnwire.Invoice
}

func decodeMsg(k kind, b []byte) (*msg, error) {
	m := &msg{}
	var err error
	switch k.name {
	case "offer":
		m.o, err = lnwire.DecodeOffer(b)
	case "invoice_request":
		m.q, err = lnwire.DecodeInvoiceRequest(b)
	default:
		m.i, err = lnwire.DecodeInvoice(b)
	}
	if err != nil {
		return nil, err
	}
	if m.o == nil && m.q == nil && m.i == nil {
		Fail("decode of %s returned neither a message nor an error "+
			"for %x", k.name, b)
	}
	return m, nil
}

func (m *msg) encode() ([]byte, error) {
	switch {
	case m.o != nil:
		return lnwire.EncodeOffer(m.o)
	case m.q != nil:
		return lnwire.EncodeInvoiceRequest(m.q)
	default:
		return lnwire.EncodeInvoice(m.i)
	}
}

func (m *msg) validate() error {
	switch {
	case m.o != nil:
		return m.o.Validate()
	case m.q != nil:
		return m.q.Validate()
	default:
		return m.i.Validate()
	}
}

func (m *msg) root() [32]byte {
	switch {
	case m.o != nil:
		return m.o.MerkleRoot
	case m.q != nil:
		return m.q.MerkleRoot
	default:
		return m.i.MerkleRoot
	}
}

func featStr(f *lndwire.FeatureVector) string {
	if f == nil {
		return "nil"
	}
	out := []int{}
	for b := range f.Features() {
		out = append(out, int(b))
	}
	sort.Ints(out)
	return fmt.Sprint(out)
}

func keyStr(k *btcec.PublicKey, xonly bool) string {
	if k == nil {
		return "none"
	}
	if xonly {
		return hex.EncodeToString(schnorr.SerializePubKey(k))
	}
	return hex.EncodeToString(k.SerializeCompressed())
}

func sigStr(s *[64]byte) string {
	if s == nil {
		return "none"
	}
	return hex.EncodeToString(s[:])
}

func hashStr(h lntypes.Hash) string { return hex.EncodeToString(h[:]) }

// timeStr gives the seconds of a time, "0" if it is unset.
func timeStr(t time.Time) string {
	if t.IsZero() {
		return "0"
	}
	return fmt.Sprint(uint64(t.Unix()))
}

// fields gives every field's value, in the format of the reference.
func (m *msg) fields() map[uint64]string {
	switch {
	case m.o != nil:
		o := m.o
		return map[uint64]string{
			2:  hashStr(o.Chainhash),
			8:  fmt.Sprint(uint64(o.MinimumAmount)),
			10: hex.EncodeToString([]byte(o.Description)),
			12: featStr(o.Features), 14: timeStr(o.Expiry),
			20:  hex.EncodeToString([]byte(o.Issuer)),
			22:  fmt.Sprint(o.QuantityMin),
			24:  fmt.Sprint(o.QuantityMax),
			30:  keyStr(o.NodeID, true),
			240: sigStr(o.Signature),
		}
	case m.q != nil:
		q := m.q
		return map[uint64]string{
			3: hashStr(q.Chainhash), 4: hashStr(q.OfferID),
			8:  fmt.Sprint(uint64(q.Amount)),
			12: featStr(q.Features), 32: fmt.Sprint(q.Quantity),
			38:  keyStr(q.PayerKey, true),
			39:  hex.EncodeToString([]byte(q.PayerNote)),
			50:  hex.EncodeToString(q.PayerInfo),
			240: sigStr(q.Signature),
		}
	default:
		i := m.i
		return map[uint64]string{
			3: hashStr(i.Chainhash), 4: hashStr(i.OfferID),
			8:  fmt.Sprint(uint64(i.Amount)),
			10: hex.EncodeToString([]byte(i.Description)),
			12: featStr(i.Features), 30: keyStr(i.NodeID, false),
			32: fmt.Sprint(i.Quantity), 38: keyStr(i.PayerKey, false),
			39: hex.EncodeToString([]byte(i.PayerNote)),
			40: timeStr(i.CreatedAt), 42: hashStr(i.PaymentHash),
			44:  fmt.Sprint(uint64(i.RelativeExpiry / time.Second)),
			46:  fmt.Sprint(i.CLTVExpiry),
			50:  hex.EncodeToString(i.PayerInfo),
			240: sigStr(i.Signature),
		}
	}
}

// diffFields returns a description of the first difference.
func diffFields(want, got map[uint64]string) string {
	var ts []uint64
	for t := range want {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for _, t := range ts {
		if want[t] != "any" && want[t] != got[t] {
			return fmt.Sprintf("field %d is %q, want %q", t,
				clip(got[t]), clip(want[t]))
		}
	}
	return ""
}

func toHash(b []byte) (h lntypes.Hash) {
	copy(h[:], b)
	return h
}

func toSig(b []byte) *[64]byte {
	var s [64]byte
	copy(s[:], b)
	return &s
}

func toFeat(b []byte) *lndwire.FeatureVector {
	raw := lndwire.NewRawFeatureVector()
	for _, x := range bits(b) {
		raw.Set(lndwire.FeatureBit(x))
	}
	return lndwire.NewFeatureVector(raw, lndwire.Features)
}

func toX(b []byte) *btcec.PublicKey {
	k, err := schnorr.ParsePubKey(b)
	must(err)
	return k
}

func toPoint(b []byte) *btcec.PublicKey {
	k, err := btcec.ParsePubKey(b)
	must(err)
	return k
}

func n64(b []byte) uint64 {
	n, err := readTu64(b)
	if err != nil {
		n = binary.BigEndian.Uint64(b)
	}
	return n
}

func u64of(b []byte) uint64 { return binary.BigEndian.Uint64(b) }

// build makes a message of the code under test from known records.
func build(k kind, recs []rec) *msg {
	m := &msg{}
	switch k.name {
	case "offer":
		m.o = &lnwire.Offer{}
	case "invoice_request":
		m.q = &lnwire.InvoiceRequest{}
	default:
		m.i = &lnwire.Invoice{}
	}
	for _, r := range recs {
		switch {
		case m.o != nil:
			switch r.t {
			case 2:
				m.o.Chainhash = toHash(r.v)
			case 8:
				m.o.MinimumAmount = lndwire.MilliSatoshi(n64(r.v))
			case 10:
				m.o.Description = string(r.v)
			case 12:
				m.o.Features = toFeat(r.v)
			case 14:
				m.o.Expiry = time.Unix(int64(n64(r.v)), 0)
			case 20:
				m.o.Issuer = string(r.v)
			case 22:
				m.o.QuantityMin = n64(r.v)
			case 24:
				m.o.QuantityMax = n64(r.v)
			case 30:
				m.o.NodeID = toX(r.v)
			case 240:
				m.o.Signature = toSig(r.v)
			}
		case m.q != nil:
			switch r.t {
			case 3:
				m.q.Chainhash = toHash(r.v)
			case 4:
				m.q.OfferID = toHash(r.v)
			case 8:
				m.q.Amount = lndwire.MilliSatoshi(n64(r.v))
			case 12:
				m.q.Features = toFeat(r.v)
			case 32:
				m.q.Quantity = n64(r.v)
			case 38:
				m.q.PayerKey = toX(r.v)
			case 39:
				m.q.PayerNote = string(r.v)
			case 50:
				m.q.PayerInfo = append([]byte{}, r.v...)
			case 240:
				m.q.Signature = toSig(r.v)
			}
		default:
			switch r.t {
			case 3:
				m.i.Chainhash = toHash(r.v)
			case 4:
				m.i.OfferID = toHash(r.v)
			case 8:
				m.i.Amount = lndwire.MilliSatoshi(n64(r.v))
			case 10:
				m.i.Description = string(r.v)
			case 12:
				m.i.Features = toFeat(r.v)
			case 30:
				m.i.NodeID = toPoint(r.v)
			case 32:
				m.i.Quantity = n64(r.v)
			case 38:
				m.i.PayerKey = toPoint(r.v)
			case 39:
				m.i.PayerNote = string(r.v)
			case 40:
				m.i.CreatedAt = time.Unix(int64(u64of(r.v)), 0)
			case 42:
				m.i.PaymentHash = toHash(r.v)
			case 44:
				m.i.RelativeExpiry = time.Second *
					time.Duration(u64of(r.v))
			case 46:
				m.i.CLTVExpiry = u64of(r.v)
			case 50:
				m.i.PayerInfo = append([]byte{}, r.v...)
			case 240:
				m.i.Signature = toSig(r.v)
			}
		}
	}
	return m
}

// canonical keeps the records of fields that a message built from recs has
// set: zero values are unset (except for times, which have their own unset).
func canonical(k kind, recs []rec) []rec {
	var out []rec
	for _, r := range recs {
		f, ok := k.types[r.t]
		if !ok {
			continue
		}
		v := r.v
		isTime := (k.name == "offer" && r.t == 14) ||
			(k.name == "invoice" && r.t == 40)
		switch f {
		case fHash:
			if toHash(v) == (lntypes.Hash{}) {
				continue
			}
		case fTu64, fU64:
			if n64any(f, v) == 0 && !isTime {
				continue
			}
		case fBytes:
			if len(v) == 0 {
				continue
			}
		case fFeat:
			v = bitVector(bits(v))
			if len(v) == 0 {
				continue
			}
		}
		out = append(out, rec{r.t, v})
	}
	return out
}

func n64any(f string, b []byte) uint64 {
	if f == fU64 {
		return u64of(b)
	}
	return n64(b)
}

// unsetTime reports whether a seconds value is the unset value of time.Time.
func unsetTime(n uint64) bool { return time.Unix(int64(n), 0).IsZero() }
