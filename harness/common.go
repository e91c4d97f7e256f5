package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"pgregory.net/rapid"
)

// HB is a byte string that is written as hex in plans, or as "n*xx+s" for long
// ones: n bytes expanded from seed s.
type HB []byte

func (h HB) MarshalJSON() ([]byte, error) {
	return json.Marshal(hex.EncodeToString(h))
}

func (h *HB) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// Blob is a byte string given by length and seed ("len:seed"), or literally
// ("=hex").
type Blob struct {
	N    int
	Seed int
	Lit  []byte
	IsL  bool
}

func (b Blob) MarshalJSON() ([]byte, error) {
	if b.IsL {
		return json.Marshal("=" + hex.EncodeToString(b.Lit))
	}
	return json.Marshal(fmt.Sprintf("%d:%d", b.N, b.Seed))
}

func (b *Blob) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "=") {
		d, err := hex.DecodeString(s[1:])
		b.Lit, b.IsL = d, true
		return err
	}
	p := strings.SplitN(s, ":", 2)
	if len(p) != 2 {
		return errors.New("bad blob")
	}
	var err error
	if b.N, err = strconv.Atoi(p[0]); err != nil {
		return err
	}
	b.Seed, err = strconv.Atoi(p[1])
	return err
}

// Bytes expands the blob. The result is never nil.
func (b Blob) Bytes() []byte {
	if b.IsL {
		return append([]byte{}, b.Lit...)
	}
	out := make([]byte, 0, b.N+32)
	for i := 0; len(out) < b.N; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("blob %d %d", b.Seed, i)))
		out = append(out, h[:]...)
	}
	return out[:b.N]
}

func lit(b []byte) Blob { return Blob{Lit: b, IsL: true} }

// drawBlob draws a blob of min..max bytes, favouring short ones and the ends of
// the range.
func drawBlob(t *rapid.T, min, max int, label string) Blob {
	switch rapid.IntRange(0, 9).Draw(t, label+"-kind") {
	case 0:
		return Blob{N: max, Seed: rapid.IntRange(0, 9).Draw(t, label)}
	case 1, 2:
		return Blob{
			N:    rapid.IntRange(min, max).Draw(t, label+"-n"),
			Seed: rapid.IntRange(0, 9).Draw(t, label),
		}
	default:
		hi := min + 12
		if hi > max {
			hi = max
		}
		return lit(rapid.SliceOfN(rapid.Byte(), min, hi).Draw(t, label))
	}
}

// priv derives a private key from a small number.
func priv(n int) *btcec.PrivateKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", n)))
	k, _ := btcec.PrivKeyFromBytes(h[:])
	return k
}

func pub(n int) *btcec.PublicKey { return priv(n).PubKey() }

// evenPriv is priv with an even-Y public key.
func evenPriv(n int) *btcec.PrivateKey {
	k := priv(n)
	if k.PubKey().SerializeCompressed()[0] == 3 {
		k.Key.Negate()
	}
	return k
}

func pubHex(p *btcec.PublicKey) string {
	if p == nil {
		return "<nil>"
	}
	return hex.EncodeToString(p.SerializeCompressed())
}

func xonly(p *btcec.PublicKey) []byte { return schnorr.SerializePubKey(p) }

// ---------------------------------------------------------------------------
// Reference TLV, written from BOLT 1.

// Rec is one record.
type Rec struct {
	T uint64 `json:"t"`
	V HB     `json:"v"`
}

func bigSize(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v <= 0xffff:
		b := []byte{0xfd, 0, 0}
		binary.BigEndian.PutUint16(b[1:], uint16(v))
		return b
	case v <= 0xffffffff:
		b := []byte{0xfe, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(b[1:], uint32(v))
		return b
	default:
		b := make([]byte, 9)
		b[0] = 0xff
		binary.BigEndian.PutUint64(b[1:], v)
		return b
	}
}

var errRef = errors.New("malformed")

func readBigSize(b []byte) (v uint64, rest []byte, err error) {
	if len(b) == 0 {
		return 0, nil, errRef
	}
	var n int
	switch b[0] {
	case 0xfd:
		n = 2
	case 0xfe:
		n = 4
	case 0xff:
		n = 8
	default:
		return uint64(b[0]), b[1:], nil
	}
	if len(b) < 1+n {
		return 0, nil, errRef
	}
	for _, x := range b[1 : 1+n] {
		v = v<<8 | uint64(x)
	}
	min := map[int]uint64{2: 0xfd, 4: 0x10000, 8: 0x100000000}[n]
	if v < min {
		return 0, nil, errRef
	}
	return v, b[1+n:], nil
}

func encodeRec(r Rec) []byte {
	out := append(bigSize(r.T), bigSize(uint64(len(r.V)))...)
	return append(out, r.V...)
}

func encodeRecs(rs []Rec) []byte {
	out := []byte{}
	for _, r := range rs {
		out = append(out, encodeRec(r)...)
	}
	return out
}

// parseRecs parses a canonical TLV stream.
func parseRecs(b []byte) ([]Rec, error) {
	var (
		out  []Rec
		last uint64
	)
	for len(b) > 0 {
		t, rest, err := readBigSize(b)
		if err != nil {
			return nil, err
		}
		if len(out) > 0 && t <= last {
			return nil, errRef
		}
		last = t
		l, rest, err := readBigSize(rest)
		if err != nil {
			return nil, err
		}
		if l > 65535 || uint64(len(rest)) < l {
			return nil, errRef
		}
		out = append(out, Rec{t, append(HB{}, rest[:l]...)})
		b = rest[l:]
	}
	return out, nil
}

func sortRecs(rs []Rec) {
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].T < rs[j].T })
}

func findRec(rs []Rec, t uint64) *Rec {
	for i := range rs {
		if rs[i].T == t {
			return &rs[i]
		}
	}
	return nil
}

func tu64(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	i := 0
	for i < 8 && b[i] == 0 {
		i++
	}
	return b[i:]
}

func u64(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[:]
}

func u16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

// featureBytes is the minimal big-endian bitmap.
func featureBytes(bits []uint16) []byte {
	max := -1
	for _, b := range bits {
		if int(b) > max {
			max = int(b)
		}
	}
	out := make([]byte, (max+8)/8)
	for _, b := range bits {
		out[len(out)-1-int(b)/8] |= 1 << (b % 8)
	}
	return out
}

func bitsOf(bitmap []byte) map[uint16]bool {
	out := map[uint16]bool{}
	for i := range bitmap {
		for j := 0; j < 8; j++ {
			if bitmap[len(bitmap)-1-i]>>uint(j)&1 == 1 {
				out[uint16(i*8+j)] = true
			}
		}
	}
	return out
}

func featureVector(bits []uint16) *lndwire.FeatureVector {
	var fb []lndwire.FeatureBit
	for _, b := range bits {
		fb = append(fb, lndwire.FeatureBit(b))
	}
	return lndwire.NewFeatureVector(
		lndwire.NewRawFeatureVector(fb...), lndwire.Features,
	)
}

func sameBits(fv *lndwire.FeatureVector, want map[uint16]bool) bool {
	if fv == nil {
		return len(want) == 0
	}
	got := fv.Features()
	if len(got) != len(want) {
		return false
	}
	for b := range got {
		if !want[uint16(b)] {
			return false
		}
	}
	return true
}

func bitSet(bits []uint16) map[uint16]bool {
	out := map[uint16]bool{}
	for _, b := range bits {
		out[b] = true
	}
	return out
}

// ---------------------------------------------------------------------------
// Reference BOLT 12 Merkle root and signature digest.

func taggedHash(tag, msg []byte) []byte {
	th := sha256.Sum256(tag)
	h := sha256.New()
	h.Write(th[:])
	h.Write(th[:])
	h.Write(msg)
	return h.Sum(nil)
}

func branchHash(a, b []byte) []byte {
	if bytes.Compare(a, b) > 0 {
		a, b = b, a
	}
	return taggedHash([]byte("LnBranch"), append(append([]byte{}, a...), b...))
}

func isSigType(t uint64) bool { return t >= 240 && t <= 1000 }

// refRoot is the Merkle root over the non-signature records, in type order. A
// nil result means there is nothing to summarise.
//
// An earlier draft of BOLT 12, which this code base implements, derives the
// nonce leaves from "LnAll" || all TLVs and hashes the TLV itself under it.
func refRoot(rs []Rec) []byte {
	rs = append([]Rec{}, rs...)
	sortRecs(rs)
	var all []byte
	var encs [][]byte
	for _, r := range rs {
		if isSigType(r.T) {
			continue
		}
		e := encodeRec(r)
		encs = append(encs, e)
		all = append(all, e...)
	}
	if len(encs) == 0 {
		return nil
	}
	var level [][]byte
	nonceTag := append([]byte("LnAll"), all...)
	for _, e := range encs {
		level = append(level, branchHash(
			taggedHash([]byte("LnLeaf"), e), taggedHash(nonceTag, e),
		))
	}
	// Pair neighbours level by level; a lone last node moves up unchanged,
	// so that the deepest part of the tree is over the lowest records.
	for len(level) > 1 {
		var next [][]byte
		for i := 0; i+1 < len(level); i += 2 {
			next = append(next, branchHash(level[i], level[i+1]))
		}
		if len(level)%2 == 1 {
			next = append(next, level[len(level)-1])
		}
		level = next
	}
	return level[0]
}

func refDigest(message, field string, root []byte) []byte {
	return taggedHash([]byte("lightning"+message+field), root)
}

// signDigest makes a BIP-340 signature.
func signDigest(k *btcec.PrivateKey, digest []byte) [64]byte {
	sig, err := schnorr.Sign(k, digest)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	var out [64]byte
	copy(out[:], sig.Serialize())
	return out
}

// verifyDigest is the reference verification.
func verifyDigest(x []byte, sig, digest []byte) bool {
	p, err := schnorr.ParsePubKey(x)
	if err != nil {
		return false
	}
	s, err := schnorr.ParseSignature(sig)
	if err != nil {
		return false
	}
	return s.Verify(digest, p)
}
