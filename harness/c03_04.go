package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C03

type planC03 struct {
	Kind string
	Recs []Rec
}

// drawUnknownType draws a type the schema does not know, outside or inside of
// the signature range.
func drawUnknownType(t *rapid.T, sc *schema, odd bool) uint64 {
	v := rapid.OneOf(
		rapid.Uint64Range(1, 60), rapid.Uint64Range(200, 300),
		rapid.SampledFrom([]uint64{0, 1, 239, 241, 252, 253, 255, 999, 1000,
			1001, 1003, 65535, 65537, 1<<32 + 1, 1<<63 + 1, 1<<64 - 1}),
		rapid.Uint64(),
	).Draw(t, "unknown-type")
	if odd {
		v |= 1
	}
	if sc.byType(v) != nil {
		v = 1001 + 2*(v%50)
	}
	return v
}

func addUnknown(t *rapid.T, sc *schema, rs []Rec, max int) []Rec {
	n := rapid.IntRange(0, max).Draw(t, "unknowns")
	have := map[uint64]bool{}
	for _, r := range rs {
		have[r.T] = true
	}
	for i := 0; i < n; i++ {
		r := Rec{
			drawUnknownType(t, sc, true),
			drawBlob(t, 0, 300, "unknown").Bytes(),
		}
		if !have[r.T] {
			have[r.T] = true
			rs = append(rs, r)
		}
	}
	sortRecs(rs)
	return rs
}

// addCrowd adds very many small unknown records.
func addCrowd(t *rapid.T, rs []Rec) []Rec {
	n := rapid.SampledFrom([]int{20, 31, 32, 33, 63, 64, 65, 127, 128, 129,
		255, 256, 257, 300}).Draw(t, "crowd-n")
	for i := 0; i < n; i++ {
		ty := uint64(1<<20 + 1 + 2*i)
		rs = append(rs, Rec{ty, make([]byte, i%3)})
	}
	seen := map[uint64]bool{}
	var out []Rec
	for _, r := range rs {
		if !seen[r.T] {
			seen[r.T] = true
			out = append(out, r)
		}
	}
	sortRecs(out)
	return out
}

// drawDefaults replaces or adds records that hold default values.
func drawDefaults(t *rapid.T, sc *schema, rs []Rec) []Rec {
	for _, f := range sc.Fields {
		if rapid.IntRange(0, 7).Draw(t, "default-"+f.Name) != 0 {
			continue
		}
		var v []byte
		switch f.Kind {
		case kHash:
			v = make([]byte, 32)
		case kTU64, kBytes, kFeat:
			v = []byte{}
		case kU64:
			v = make([]byte, 8)
		default:
			continue
		}
		if r := findRec(rs, f.T); r != nil {
			r.V = v
		} else {
			rs = append(rs, Rec{f.T, v})
		}
	}
	sortRecs(rs)
	return rs
}

type planRecords struct {
	Recs []Rec
	Perm []int
}

func tlvRecord(r Rec) tlv.Record {
	v := append([]byte{}, r.V...)
	return tlv.MakeStaticRecord(
		tlv.Type(r.T), &v, uint64(len(v)),
		func(w io.Writer, _ interface{}, _ *[8]byte) error {
			_, err := w.Write(v)
			return err
		}, nil,
	)
}

func init() {
	Add("C03", "decoded", 40000, 300000,
		"streams of known records (default values included) and up to 14, "+
			"at times up to 300, unknown ones, decoded as each message type; the root is "+
			"compared with an independent Merkle tree over the raw "+
			"records. Non-trivial: at least five covered records, or "+
			"one that is unknown, empty or default-valued",
		func(t *rapid.T) planC03 {
			kind := rapid.SampledFrom(schemaNames).Draw(t, "kind")
			sc := schemas[kind]
			rs := drawCanonical(t, sc)
			if rapid.IntRange(0, 2).Draw(t, "defaults") == 0 {
				rs = drawDefaults(t, sc, rs)
			}
			if rapid.IntRange(0, 2).Draw(t, "unknown") > 0 {
				rs = addUnknown(t, sc, rs, 14)
			}
			if rapid.IntRange(0, 99).Draw(t, "crowd") == 0 {
				rs = addCrowd(t, rs)
			}
			if !hasContent(rs) {
				rs = append([]Rec{{1, []byte{1}}}, rs...)
			}
			return planC03{kind, rs}
		},
		func(c *C, p planC03) {
			sc := schemas[p.Kind]
			covered, odd := 0, false
			for _, r := range p.Recs {
				if isSigType(r.T) {
					c.Class("signature range present")
					continue
				}
				covered++
				if f := sc.byType(r.T); f == nil {
					odd = true
					c.Class("unknown record")
					c.ClassIf(len(r.V) == 0, "empty unknown record")
				} else if len(bytes.Trim(r.V, "\x00")) == 0 {
					odd = true
					c.Class("default-valued record")
				}
			}
			if covered >= 5 || odd {
				c.NonTrivial()
			}
			c.Class("%s", p.Kind)
			switch {
			case covered < 5:
				c.Class("%d covered records", covered)
			default:
				c.Class("5+ covered records")
			}
			m, err := decodeMsg(p.Kind, encodeRecs(p.Recs))
			if err != nil {
				// Which streams are accepted is C05's question.
				c.Class("rejected")
				return
			}
			if want := refRoot(p.Recs); !bytes.Equal(m.root(), want) {
				c.Failf("%s %x: root is %x, records on the wire give "+
					"%x (%d covered records)", p.Kind,
					encodeRecs(p.Recs), m.root(), want, covered)
			}
			c.Kept(func() string {
				if !bytes.Equal(m.root(), refRoot(p.Recs)) {
					return fmt.Sprintf("root of %x is now %x",
						encodeRecs(p.Recs), m.root())
				}
				return ""
			})
		})

	Add("C03", "records", 20000, 120000,
		"MerkleRoot over 1 to 40, at times up to 300, arbitrary records "+
			"handed over in any order; non-trivial: at least three covered records",
		func(t *rapid.T) planRecords {
			n := rapid.IntRange(1, 12).Draw(t, "n")
			if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
				n = rapid.IntRange(12, 40).Draw(t, "n-many")
			}
			have := map[uint64]bool{}
			var p planRecords
			for i := 0; i < n; i++ {
				ty := rapid.OneOf(
					rapid.Uint64Range(0, 50),
					rapid.Uint64Range(230, 260),
					rapid.Uint64Range(990, 1010), rapid.Uint64(),
				).Draw(t, "type")
				if have[ty] {
					continue
				}
				have[ty] = true
				v := drawBlob(t, 0, 300, "v")
				if rapid.IntRange(0, 199).Draw(t, "huge") == 0 {
					v = Blob{N: rapid.SampledFrom([]int{65534,
						65535, 65536, 65537, 66000, 131072,
					}).Draw(t, "huge-n")}
				}
				p.Recs = append(p.Recs, Rec{ty, v.Bytes()})
			}
			if rapid.IntRange(0, 60).Draw(t, "crowd") == 0 {
				p.Recs = addCrowd(t, p.Recs)
			}
			idx := make([]int, len(p.Recs))
			for i := range idx {
				idx[i] = i
			}
			p.Perm = rapid.Permutation(idx).Draw(t, "perm")
			return p
		},
		func(c *C, p planRecords) {
			want := refRoot(p.Recs)
			n := 0
			for _, r := range p.Recs {
				if !isSigType(r.T) {
					n++
				}
			}
			if n >= 3 {
				c.NonTrivial()
			}
			c.ClassIf(n == 0, "nothing covered")
			c.ClassIf(n >= 5, "5+ covered")
			for k := 0; k < 2; k++ {
				var rs []tlv.Record
				for i := range p.Recs {
					j := i
					if k == 1 {
						j = p.Perm[i]
					}
					rs = append(rs, tlvRecord(p.Recs[j]))
				}
				got, err := lnwire.MerkleRoot(rs)
				if want == nil {
					if err == nil {
						c.Failf("root %x of no records", got[:])
					}
					continue
				}
				if err != nil {
					c.Failf("MerkleRoot of %d records: %v", n, err)
				}
				if !bytes.Equal(got[:], want) {
					c.Failf("MerkleRoot of %d records (order %d) is "+
						"%x, want %x", n, k, got[:], want)
				}
			}
		})
}

// ---------------------------------------------------------------------------
// C04

type planC04 struct {
	Kind string
	Recs []Rec // unsigned, signing key in place
	Key  int
	Mut  string
	// A and B choose where the mutation strikes.
	A, B int
	R    Rec
}

var mutations = []string{
	"none", "none", "flip", "flip", "remove", "add", "retype", "sigbit",
	"key", "otherkey", "othermessage", "otherfield", "unsigned",
	"sigrange", "otherroot", "resign", "sigvalue", "swap", "boundary",
	"empty", "siglen", "payer", "parity",
}

func requiredFields(kind string) []string {
	switch kind {
	case "offer":
		return []string{"node", "description"}
	case "invoice_request":
		return []string{"offerid", "payer"}
	default:
		return []string{"amount", "payhash", "created", "node",
			"description"}
	}
}

func init() {
	Add("C04", "bind", 30000, 200000,
		"valid signed messages of each type, decoded from the wire, with one "+
			"mutation of the records, the signature, the key or the "+
			"tags; signatures are made and judged by an independent "+
			"digest. Non-trivial: every case but the plain signed ones "+
			"with only required fields",
		func(t *rapid.T) planC04 {
			kind := rapid.SampledFrom(schemaNames).Draw(t, "kind")
			sc := schemas[kind]
			rs := drawCanonical(t, sc, requiredFields(kind)...)
			if r := findRec(rs, 240); r != nil {
				rs = rs[:len(rs)-1]
			}
			if kind == "offer" {
				// Keep the quantity range valid.
				lo, hi := findRec(rs, 22), findRec(rs, 24)
				if lo != nil && hi != nil {
					lo.V = HB{1}
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "unknown") == 0 {
				var out []Rec
				for _, r := range addUnknown(t, sc, rs, 6) {
					if !isSigType(r.T) {
						out = append(out, r)
					}
				}
				rs = out
			}
			p := planC04{
				Kind: kind, Recs: rs,
				Key: rapid.IntRange(0, 60).Draw(t, "key"),
				Mut: rapid.SampledFrom(mutations).Draw(t, "mut"),
				A:   rapid.IntRange(0, 1<<16).Draw(t, "a"),
				B:   rapid.IntRange(0, 1<<16).Draw(t, "b"),
			}
			p.R = Rec{drawUnknownType(t, sc, true),
				drawBlob(t, 0, 40, "r").Bytes()}
			for isSigType(p.R.T) {
				p.R.T = 1001 + p.R.T
			}
			return p
		}, runC04)
}

func runC04(c *C, p planC04) {
	sc := schemas[p.Kind]
	rs := append([]Rec{}, p.Recs...)
	keyRec := findRec(rs, sc.byName(keyField(p.Kind)).T)
	k := priv(p.Key)
	setKey := func(n int) {
		if sc.byName(keyField(p.Kind)).Kind == kXOnly {
			keyRec.V = xonly(pub(n))
		} else {
			keyRec.V = pub(n).SerializeCompressed()
		}
	}
	setKey(p.Key)
	root := refRoot(rs)
	sig := signDigest(k, refDigest(p.Kind, "signature", root))
	if p.Mut != "none" || len(rs) > len(requiredFields(p.Kind)) {
		c.NonTrivial()
	}
	c.Class("%s/%s", p.Kind, p.Mut)

	// The positive half first: the message as signed.
	check := func(rs []Rec, what string, want bool) {
		b := encodeRecs(rs)
		m, err := decodeMsg(p.Kind, b)
		if err == nil {
			err = m.validate()
		}
		if want && err != nil {
			c.Failf("%s %x: %s, but it is rejected: %v", p.Kind, b,
				what, err)
		}
		if !want && err == nil {
			c.Failf("%s %x: %s, but it validates", p.Kind, b, what)
		}
		if m == nil || m.r == nil {
			return
		}
		d := m.r.SignatureDigest()
		if want && !bytes.Equal(
			d[:], refDigest(p.Kind, "signature", refRoot(rs)),
		) {
			c.Failf("digest to be signed is %x for %x", d[:], b)
		}
	}
	withSig := func(rs []Rec, s []byte) []Rec {
		out := append([]Rec{}, rs...)
		out = append(out, Rec{240, s})
		sortRecs(out)
		return out
	}
	signed := withSig(rs, sig[:])
	check(signed, "correctly signed", true)
	memory(c, p, encodeRecs(signed))

	mutRecs := func() []Rec {
		out := make([]Rec, len(rs))
		for i, r := range rs {
			out[i] = Rec{r.T, append(HB{}, r.V...)}
		}
		return out
	}
	switch p.Mut {
	case "flip":
		out := mutRecs()
		// Strike a record that has bytes.
		for i := range out {
			r := &out[(p.A+i)%len(out)]
			if len(r.V) > 0 {
				bit := p.B % (8 * len(r.V))
				r.V[bit/8] ^= 1 << (bit % 8)
				check(withSig(out, sig[:]), fmt.Sprintf(
					"bit %d of record %d was flipped after "+
						"signing", bit, r.T), false)
				break
			}
		}
	case "remove":
		out := mutRecs()
		i := p.A % len(out)
		ty := out[i].T
		out = append(out[:i], out[i+1:]...)
		check(withSig(out, sig[:]), fmt.Sprintf(
			"record %d was removed after signing", ty), false)
	case "add":
		if findRec(rs, p.R.T) == nil {
			out := append(mutRecs(), p.R)
			sortRecs(out)
			check(withSig(out, sig[:]), fmt.Sprintf(
				"record %d was added after signing", p.R.T), false)
		}
	case "retype":
		out := mutRecs()
		i := p.A % len(out)
		old := out[i].T
		if findRec(rs, p.R.T) == nil {
			out[i].T = p.R.T
			sortRecs(out)
			check(withSig(out, sig[:]), fmt.Sprintf(
				"record %d became %d after signing", old, p.R.T),
				false)
		}
	case "sigbit":
		s := append([]byte{}, sig[:]...)
		bit := p.B % 512
		s[bit/8] ^= 1 << (bit % 8)
		check(withSig(rs, s), fmt.Sprintf(
			"bit %d of the signature was flipped", bit), false)
	case "key":
		out := mutRecs()
		keyRec = findRec(out, sc.byName(keyField(p.Kind)).T)
		setKey(p.Key + 1 + p.A%10)
		check(withSig(out, sig[:]), "the key was replaced after signing",
			false)
	case "otherkey":
		s := signDigest(priv(p.Key+1+p.A%10),
			refDigest(p.Kind, "signature", root))
		check(withSig(rs, s[:]), "signed by another key", false)
	case "othermessage":
		for _, other := range schemaNames {
			if other == p.Kind {
				continue
			}
			s := signDigest(k, refDigest(other, "signature", root))
			check(withSig(rs, s[:]), "signed as "+other, false)
		}
	case "otherfield":
		for _, f := range []string{"", "payer_signature", "sig",
			"Signature"} {

			s := signDigest(k, refDigest(p.Kind, f, root))
			check(withSig(rs, s[:]), "signed for field "+f, false)
		}
	case "unsigned":
		if p.Kind == "invoice_request" {
			check(rs, "unsigned", false)
		} else {
			check(rs, "unsigned, which is allowed", true)
		}
	case "sigrange":
		out := withSig(rs, sig[:])
		ty := uint64(241 + 2*(p.A%380))
		out = append(out, Rec{ty, p.R.V})
		sortRecs(out)
		check(out, fmt.Sprintf("correctly signed, with an extra record "+
			"%d in the signature range", ty), true)
	case "otherroot":
		r2 := append([]byte{}, root...)
		r2[p.A%32] ^= 1 << (p.B % 8)
		s := signDigest(k, refDigest(p.Kind, "signature", r2))
		check(withSig(rs, s[:]), "signed over another root", false)
	case "sigvalue":
		s := append([]byte{}, sig[:]...)
		half := func(i int, b byte) {
			copy(s[32*i:32*i+32], bytes.Repeat([]byte{b}, 32))
		}
		what := ""
		switch p.A % 9 {
		case 0:
			half(0, 0)
			half(1, 0)
			what = "all zero"
		case 1:
			half(0, 0xff)
			half(1, 0xff)
			what = "all ones"
		case 2:
			half(0, 0)
			what = "without r"
		case 3:
			half(1, 0)
			what = "without s"
		case 4:
			copy(s, append(append([]byte{}, sig[32:]...), sig[:32]...))
			what = "with r and s swapped"
		case 5:
			var n btcec.ModNScalar
			n.SetByteSlice(sig[32:])
			n.Negate()
			b := n.Bytes()
			copy(s[32:], b[:])
			what = "with s negated"
		case 6:
			copy(s, refDigest(p.Kind, "signature", root))
			copy(s[32:], root)
			what = "made of the digest and the root"
		case 7:
			o := signDigest(k, root)
			copy(s, o[:])
			what = "made over the bare root"
		case 8:
			half(1, 0xff)
			what = "with s out of range"
		}
		check(withSig(rs, s), "the signature is "+what, false)
	case "siglen":
		n := []int{0, 1, 32, 63, 65, 128}[p.A%6]
		s := append(append([]byte{}, sig[:]...), sig[:]...)[:n]
		check(withSig(rs, s), fmt.Sprintf("the signature has %d bytes", n),
			false)
	case "swap":
		// Two records trade their values.
		out := mutRecs()
		i := p.A % len(out)
		for d := 1; d < len(out); d++ {
			j := (i + d) % len(out)
			if bytes.Equal(out[i].V, out[j].V) {
				continue
			}
			out[i].V, out[j].V = out[j].V, out[i].V
			check(withSig(out, sig[:]), fmt.Sprintf("records %d and "+
				"%d traded values after signing", out[i].T,
				out[j].T), false)
			break
		}
	case "boundary":
		// A byte moves from the end of one record to the start of the
		// next, so that the values still read the same in a row.
		out := mutRecs()
		for d := 0; d < len(out)-1; d++ {
			i := (p.A + d) % (len(out) - 1)
			n := len(out[i].V)
			if n == 0 {
				continue
			}
			b := out[i].V[n-1]
			out[i].V = out[i].V[:n-1]
			out[i+1].V = append(HB{b}, out[i+1].V...)
			check(withSig(out, sig[:]), fmt.Sprintf("a byte moved "+
				"from record %d to %d after signing", out[i].T,
				out[i+1].T), false)
		}
	case "empty":
		// An unknown record without a value is still a record.
		if findRec(rs, p.R.T) == nil {
			out := append(mutRecs(), Rec{p.R.T, HB{}})
			sortRecs(out)
			check(withSig(out, sig[:]), fmt.Sprintf("an empty record "+
				"%d was added after signing", p.R.T), false)
		}
	case "parity":
		// The other key with the same X coordinate.
		out := mutRecs()
		if r := findRec(out, sc.byName(keyField(p.Kind)).T); len(r.V) == 33 {
			r.V[0] ^= 1
			check(withSig(out, sig[:]), "the key was negated after "+
				"signing", false)
		}
	case "payer":
		// Signed by the key in some other record, which is not the one
		// that vouches for this message.
		other := priv(p.Key + 1 + p.A%10)
		out := mutRecs()
		n := 0
		for i, r := range out {
			f := sc.byType(r.T)
			if f == nil || f.Name == keyField(p.Kind) {
				continue
			}
			switch f.Kind {
			case kXOnly:
				out[i].V = xonly(other.PubKey())
				n++
			case kPoint:
				out[i].V = other.PubKey().SerializeCompressed()
				n++
			}
		}
		if n > 0 {
			s := signDigest(other,
				refDigest(p.Kind, "signature", refRoot(out)))
			check(withSig(out, s[:]), "signed by a key in another "+
				"record", false)
			s = signDigest(k,
				refDigest(p.Kind, "signature", refRoot(out)))
			check(withSig(out, s[:]), "signed by the right key", true)
		}
	case "resign":
		// Re-signing a changed message makes it valid again.
		if findRec(rs, p.R.T) == nil {
			out := append(mutRecs(), p.R)
			sortRecs(out)
			s := signDigest(k, refDigest(
				p.Kind, "signature", refRoot(out)))
			check(withSig(out, s[:]), "changed and signed again", true)
		}
	}
}

// memory changes a valid message after it was decoded and validated.
func memory(c *C, p planC04, b []byte) {
	m, err := decodeMsg(p.Kind, b)
	if err != nil {
		c.Failf("%s %x is rejected: %v", p.Kind, b, err)
	}
	var (
		key **btcec.PublicKey
		sig *[64]byte
	)
	switch p.Kind {
	case "offer":
		key, sig = &m.o.NodeID, m.o.Signature
	case "invoice_request":
		key, sig = &m.r.PayerKey, m.r.Signature
	default:
		key, sig = &m.i.NodeID, m.i.Signature
	}
	validates := func(what string, want bool) {
		err := m.validate()
		if want && err != nil {
			c.Failf("%s %x: %s, but it is rejected: %v", p.Kind, b,
				what, err)
		}
		if !want && err == nil {
			c.Failf("%s %x: %s, but it validates", p.Kind, b, what)
		}
	}
	validates("correctly signed", true)
	was := *key
	*key = pub(p.Key + 1 + p.A%10)
	validates("its key was replaced in memory", false)
	*key = was
	validates("its key was put back", true)
	bit := p.B % 512
	sig[bit/8] ^= 1 << (bit % 8)
	validates("its signature was changed in memory", false)
	sig[bit/8] ^= 1 << (bit % 8)
	validates("its signature was put back", true)
}
