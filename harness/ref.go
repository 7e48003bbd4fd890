package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
)

// This file is the independent reference: TLV streams, BOLT 12 trees, digests
// and offer strings, written from the specification and not from the code
// under test.

// rec is a raw TLV record.
type rec struct {
	t uint64
	v []byte
}

func (r rec) String() string {
	return fmt.Sprintf("%d:%x", r.t, r.v)
}

const maxRecord = 65535

// bigsize encodes a minimal BigSize.
func bigsize(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		b := []byte{0xfd, 0, 0}
		binary.BigEndian.PutUint16(b[1:], uint16(n))
		return b
	case n <= 0xffffffff:
		b := []byte{0xfe, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(b[1:], uint32(n))
		return b
	default:
		b := make([]byte, 9)
		b[0] = 0xff
		binary.BigEndian.PutUint64(b[1:], n)
		return b
	}
}

var errTLV = errors.New("malformed tlv stream")

func readBigsize(b []byte) (uint64, []byte, error) {
	if len(b) == 0 {
		return 0, nil, errTLV
	}
	switch b[0] {
	case 0xfd:
		if len(b) < 3 {
			return 0, nil, errTLV
		}
		n := uint64(binary.BigEndian.Uint16(b[1:]))
		if n < 0xfd {
			return 0, nil, errTLV
		}
		return n, b[3:], nil
	case 0xfe:
		if len(b) < 5 {
			return 0, nil, errTLV
		}
		n := uint64(binary.BigEndian.Uint32(b[1:]))
		if n <= 0xffff {
			return 0, nil, errTLV
		}
		return n, b[5:], nil
	case 0xff:
		if len(b) < 9 {
			return 0, nil, errTLV
		}
		n := binary.BigEndian.Uint64(b[1:])
		if n <= 0xffffffff {
			return 0, nil, errTLV
		}
		return n, b[9:], nil
	}
	return uint64(b[0]), b[1:], nil
}

func encRec(r rec) []byte {
	out := bigsize(r.t)
	out = append(out, bigsize(uint64(len(r.v)))...)
	return append(out, r.v...)
}

// encRecs encodes records in the order given.
func encRecs(recs []rec) []byte {
	var out []byte
	for _, r := range recs {
		out = append(out, encRec(r)...)
	}
	return out
}

func sortRecs(recs []rec) []rec {
	sort.Slice(recs, func(i, j int) bool { return recs[i].t < recs[j].t })
	return recs
}

// parseTLV strictly parses a stream.
func parseTLV(b []byte) ([]rec, error) {
	var out []rec
	for len(b) > 0 {
		t, rest, err := readBigsize(b)
		if err != nil {
			return nil, err
		}
		if len(out) > 0 && t <= out[len(out)-1].t {
			return nil, errTLV
		}
		l, rest, err := readBigsize(rest)
		if err != nil {
			return nil, err
		}
		if l > maxRecord || l > uint64(len(rest)) {
			return nil, errTLV
		}
		out = append(out, rec{t, append([]byte{}, rest[:l]...)})
		b = rest[l:]
	}
	return out, nil
}

func find(recs []rec, t uint64) ([]byte, bool) {
	for _, r := range recs {
		if r.t == t {
			return r.v, true
		}
	}
	return nil, false
}

func tu64(n uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, n)
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

func u64(n uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, n)
	return b
}

func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func readTu64(b []byte) (uint64, error) {
	if len(b) > 8 || (len(b) > 0 && b[0] == 0) {
		return 0, errTLV
	}
	var n uint64
	for _, x := range b {
		n = n<<8 | uint64(x)
	}
	return n, nil
}

// bits gives the sorted bits of a big-endian bit vector.
func bits(b []byte) []int {
	var out []int
	for i := 0; i < len(b)*8; i++ {
		if b[len(b)-1-i/8]>>(i%8)&1 == 1 {
			out = append(out, i)
		}
	}
	return out
}

// bitVector encodes bits minimally.
func bitVector(bs []int) []byte {
	max := -1
	for _, b := range bs {
		if b > max {
			max = b
		}
	}
	if max < 0 {
		return nil
	}
	out := make([]byte, max/8+1)
	for _, b := range bs {
		out[len(out)-1-b/8] |= 1 << (b % 8)
	}
	return out
}

// --- BOLT 12 ---------------------------------------------------------------

func tagged(tag, msg []byte) [32]byte {
	t := sha256.Sum256(tag)
	h := sha256.New()
	h.Write(t[:])
	h.Write(t[:])
	h.Write(msg)
	var out [32]byte
	copy(out[:], h.Sum(nil))
	return out
}

func isSigType(t uint64) bool { return t >= 240 && t <= 1000 }

// refRoot is the BOLT 12 merkle root of a set of records in ascending order.
func refRoot(recs []rec) [32]byte {
	var all []byte
	var enc [][]byte
	for _, r := range recs {
		if isSigType(r.t) {
			continue
		}
		e := encRec(r)
		enc = append(enc, e)
		all = append(all, e...)
	}
	nonceTag := append([]byte("LnAll"), all...)
	var level [][32]byte
	for _, e := range enc {
		level = append(level, refBranch(
			tagged([]byte("LnLeaf"), e), tagged(nonceTag, e),
		))
	}
	for len(level) > 1 {
		var next [][32]byte
		for i := 0; i < len(level); i += 2 {
			if i+1 == len(level) {
				next = append(next, level[i])
				continue
			}
			next = append(next, refBranch(level[i], level[i+1]))
		}
		level = next
	}
	return level[0]
}

func refBranch(a, b [32]byte) [32]byte {
	if bytes.Compare(a[:], b[:]) > 0 {
		a, b = b, a
	}
	return tagged([]byte("LnBranch"), append(append([]byte{}, a[:]...),
		b[:]...))
}

func refDigest(msg, field string, root [32]byte) [32]byte {
	return tagged([]byte("lightning"+msg+field), root[:])
}

// kind describes one of the BOLT 12 message types.
type kind struct {
	name  string
	tag   string
	types map[uint64]string
	key   uint64
}

const (
	fHash  = "hash"
	fTu64  = "tu64"
	fU64   = "u64"
	fBytes = "bytes"
	fFeat  = "features"
	fXOnly = "point32"
	fPoint = "point"
	fSig   = "sig"
)

var (
	kOffer = kind{"offer", "offer", map[uint64]string{
		2: fHash, 8: fTu64, 10: fBytes, 12: fFeat, 14: fTu64,
		20: fBytes, 22: fTu64, 24: fTu64, 30: fXOnly, 240: fSig,
	}, 30}
	kRequest = kind{"invoice_request", "invoice_request",
		map[uint64]string{
			3: fHash, 4: fHash, 8: fTu64, 12: fFeat, 32: fTu64,
			38: fXOnly, 39: fBytes, 50: fBytes, 240: fSig,
		}, 38}
	kInvoice = kind{"invoice", "invoice", map[uint64]string{
		3: fHash, 4: fHash, 8: fTu64, 10: fBytes, 12: fFeat,
		30: fPoint, 32: fTu64, 38: fPoint, 39: fBytes, 40: fU64,
		42: fHash, 44: fU64, 46: fU64, 50: fBytes, 240: fSig,
	}, 30}
	kinds = []kind{kOffer, kRequest, kInvoice}
)

func (k kind) known() []uint64 {
	var out []uint64
	for t := range k.types {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// maxRelExpiry is the largest relative expiry that a time.Duration can hold.
const maxRelExpiry = uint64(1<<63-1) / 1_000_000_000

// fields gives the value of every field of a well formed message, or an error
// if a field is malformed. The bool is false if the reference makes no claim
// about the stream (it is outside of what the property covers).
func (k kind) fields(recs []rec) (map[uint64]string, bool, error) {
	claim, nonSig := true, 0
	out := map[uint64]string{}
	for t, f := range k.types {
		out[t] = zeroOf(f)
	}
	for _, r := range recs {
		if !isSigType(r.t) {
			nonSig++
		}
		f, ok := k.types[r.t]
		if !ok {
			if r.t%2 == 0 {
				claim = false
			}
			continue
		}
		s, err := fieldValue(f, r.v)
		if err != nil {
			return nil, claim, fmt.Errorf("type %d: %w", r.t, err)
		}
		if f == fFeat && len(r.v) > 8192 {
			claim = false
		}
		if k.name == "invoice" && r.t == 44 {
			n := binary.BigEndian.Uint64(r.v)
			if n > maxRelExpiry {
				s = "any"
			}
		}
		out[r.t] = s
	}
	if nonSig == 0 {
		claim = false
	}
	return out, claim, nil
}

func zeroOf(f string) string {
	switch f {
	case fHash:
		return hex.EncodeToString(make([]byte, 32))
	case fTu64, fU64:
		return "0"
	case fBytes:
		return ""
	case fFeat:
		return "[]"
	}
	return "none"
}

func fieldValue(f string, v []byte) (string, error) {
	switch f {
	case fHash:
		if len(v) != 32 {
			return "", errTLV
		}
		return hex.EncodeToString(v), nil
	case fTu64:
		n, err := readTu64(v)
		return fmt.Sprint(n), err
	case fU64:
		if len(v) != 8 {
			return "", errTLV
		}
		return fmt.Sprint(binary.BigEndian.Uint64(v)), nil
	case fBytes:
		return hex.EncodeToString(v), nil
	case fFeat:
		return fmt.Sprint(bits(v)), nil
	case fXOnly:
		if len(v) != 32 {
			return "", errTLV
		}
		if _, err := schnorr.ParsePubKey(v); err != nil {
			return "", err
		}
		return hex.EncodeToString(v), nil
	case fPoint:
		if len(v) != 33 {
			return "", errTLV
		}
		if _, err := btcec.ParsePubKey(v); err != nil {
			return "", err
		}
		return hex.EncodeToString(v), nil
	case fSig:
		if len(v) != 64 {
			return "", errTLV
		}
		return hex.EncodeToString(v), nil
	}
	panic("unknown field " + f)
}

// --- offer strings -----------------------------------------------------------

const bechCharset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bech32NoSum encodes bytes with a prefix and no checksum.
func bech32NoSum(hrp string, data []byte) string {
	var sb strings.Builder
	sb.WriteString(hrp + "1")
	var acc, n uint
	for _, b := range data {
		acc = acc<<8 | uint(b)
		n += 8
		for n >= 5 {
			n -= 5
			sb.WriteByte(bechCharset[acc>>n&31])
		}
	}
	if n > 0 {
		sb.WriteByte(bechCharset[acc<<(5-n)&31])
	}
	return sb.String()
}

// refOfferBytes decodes an offer string that has no joins.
func refOfferBytes(s string) ([]byte, error) {
	if s != strings.ToLower(s) && s != strings.ToUpper(s) {
		return nil, errors.New("mixed case")
	}
	s = strings.ToLower(s)
	i := strings.LastIndexByte(s, '1')
	if i < 0 || s[:i] != "lno" {
		return nil, errors.New("bad prefix")
	}
	var out []byte
	var acc, n uint
	for _, c := range []byte(s[i+1:]) {
		x := strings.IndexByte(bechCharset, c)
		if x < 0 {
			return nil, errors.New("bad character")
		}
		acc = acc<<5 | uint(x)
		n += 5
		if n >= 8 {
			n -= 8
			out = append(out, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	if n >= 5 || acc != 0 {
		return nil, errors.New("bad padding")
	}
	return out, nil
}

// --- generators ----------------------------------------------------------------

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// rkey is a deterministic private key.
func rkey(r *rand.Rand) *btcec.PrivateKey {
	b := rbytes(r, 32)
	b[0] &= 0x7f
	b[31] |= 1
	k, _ := btcec.PrivKeyFromBytes(b)
	return k
}

func pub33(k *btcec.PrivateKey) []byte {
	return k.PubKey().SerializeCompressed()
}

// redge is an integer with a bias to boundaries.
func redge(r *rand.Rand) uint64 {
	switch r.Intn(10) {
	case 6, 7:
		return dictInt(r)
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return ^uint64(0) - uint64(r.Intn(2))
	case 2:
		return 1<<63 - 1 + uint64(r.Intn(2))
	case 3:
		return 1 << uint(8*r.Intn(8))
	case 4:
		return 1<<uint(8*(1+r.Intn(7))) - 1
	case 5:
		return uint64(r.Intn(1000))
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

// rlen is a length with a bias to boundaries of the length encoding.
func rlen(r *rand.Rand) int {
	switch r.Intn(13) {
	case 4:
		return dictLen(r, 1400)
	case 0, 1:
		return 0
	case 2:
		return 252 + r.Intn(3)
	case 3:
		if r.Intn(20) == 0 {
			return maxRecord - r.Intn(2)
		}
		return 500 + r.Intn(600)
	default:
		return 1 + r.Intn(40)
	}
}

// rtext is a UTF-8 string.
func rtext(r *rand.Rand, n int) string {
	if r.Intn(12) == 0 {
		if s := dictStr(r); len(s) <= n {
			return s
		}
	}
	alpha := []rune("abc XYZ 019+é世\x00\n")
	var sb strings.Builder
	for sb.Len() < n {
		c := alpha[r.Intn(len(alpha))]
		if sb.Len()+len(string(c)) > n {
			c = 'a'
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

func rfeatures(r *rand.Rand) []int {
	m := map[int]bool{}
	for i := 0; i < r.Intn(5); i++ {
		if r.Intn(10) == 0 {
			m[r.Intn(65536)] = true
		} else if r.Intn(10) == 0 {
			m[dictLen(r, 65535)] = true
		} else {
			m[r.Intn(60)] = true
		}
	}
	var out []int
	for b := range m {
		out = append(out, b)
	}
	sort.Ints(out)
	return out
}

// rfield generates a well formed value for a field.
func rfield(r *rand.Rand, f string) []byte {
	switch f {
	case fHash:
		if r.Intn(6) == 0 {
			return make([]byte, 32)
		}
		return rbytes(r, 32)
	case fTu64:
		return tu64(redge(r))
	case fU64:
		return u64(redge(r))
	case fBytes:
		return []byte(rtext(r, rlen(r)))
	case fFeat:
		b := bitVector(rfeatures(r))
		if r.Intn(4) == 0 {
			b = append(make([]byte, r.Intn(3)), b...)
		}
		return b
	case fXOnly:
		return pub33(rkey(r))[1:]
	case fPoint:
		return pub33(rkey(r))
	case fSig:
		return rbytes(r, 64)
	}
	panic(f)
}

// rodd generates an unknown odd type for a kind.
func rodd(r *rand.Rand, k kind) uint64 {
	for {
		var t uint64
		switch r.Intn(7) {
		case 0:
			t = 241 + 2*uint64(r.Intn(380))
		case 1:
			t = 1001 + 2*uint64(r.Intn(3))
		case 2:
			t = redge(r) | 1
		case 3:
			t = 237 + 2*uint64(r.Intn(2))
		default:
			t = 1 + 2*uint64(r.Intn(120))
		}
		if _, ok := k.types[t]; !ok {
			return t
		}
	}
}

// rstream generates the records of a well formed message.
func rstream(r *rand.Rand, k kind, density float64, unknown int) []rec {
	var out []rec
	for _, t := range k.known() {
		if r.Float64() >= density {
			continue
		}
		out = append(out, rec{t, rfield(r, k.types[t])})
	}
	seen := map[uint64]bool{}
	for i := 0; i < unknown; i++ {
		t := rodd(r, k)
		if seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, rec{t, rbytes(r, rlen(r))})
	}
	return sortRecs(out)
}

func types(recs []rec) string {
	var s []string
	for _, r := range recs {
		s = append(s, fmt.Sprintf("%d/%d", r.t, len(r.v)))
	}
	return strings.Join(s, " ")
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}
