package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/lightningnetwork/lnd/lntypes"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"pgregory.net/rapid"
)

// fieldKind is the value encoding of a record.
type fieldKind int

const (
	kHash  fieldKind = iota // 32 bytes
	kTU64                   // truncated integer
	kU64                    // 8 byte integer
	kBytes                  // arbitrary bytes
	kFeat                   // bare feature bitmap
	kXOnly                  // 32 byte x-only key
	kPoint                  // 33 byte compressed key
	kSig                    // 64 bytes
)

type field struct {
	Name string
	T    uint64
	Kind fieldKind
}

// A schema is the documented stream of a message type.
type schema struct {
	Kind   string // offer, invoice_request, invoice
	Fields []field
}

func (s *schema) byName(n string) *field {
	for i := range s.Fields {
		if s.Fields[i].Name == n {
			return &s.Fields[i]
		}
	}
	return nil
}

func (s *schema) byType(t uint64) *field {
	for i := range s.Fields {
		if s.Fields[i].T == t {
			return &s.Fields[i]
		}
	}
	return nil
}

var (
	offerSchema = &schema{"offer", []field{
		{"chain", 2, kHash}, {"amount", 8, kTU64},
		{"description", 10, kBytes}, {"features", 12, kFeat},
		{"expiry", 14, kTU64}, {"issuer", 20, kBytes},
		{"qmin", 22, kTU64}, {"qmax", 24, kTU64},
		{"node", 30, kXOnly}, {"sig", 240, kSig},
	}}
	requestSchema = &schema{"invoice_request", []field{
		{"chain", 3, kHash}, {"offerid", 4, kHash},
		{"amount", 8, kTU64}, {"features", 12, kFeat},
		{"quantity", 32, kTU64}, {"payer", 38, kXOnly},
		{"note", 39, kBytes}, {"info", 50, kBytes},
		{"sig", 240, kSig},
	}}
	invoiceSchema = &schema{"invoice", []field{
		{"chain", 3, kHash}, {"offerid", 4, kHash},
		{"amount", 8, kTU64}, {"description", 10, kBytes},
		{"features", 12, kFeat}, {"node", 30, kPoint},
		{"quantity", 32, kTU64}, {"payer", 38, kPoint},
		{"note", 39, kBytes}, {"created", 40, kU64},
		{"payhash", 42, kHash}, {"relexp", 44, kU64},
		{"cltv", 46, kU64}, {"info", 50, kBytes},
		{"sig", 240, kSig},
	}}
	schemas = map[string]*schema{
		"offer": offerSchema, "invoice_request": requestSchema,
		"invoice": invoiceSchema,
	}
	schemaNames = []string{"offer", "invoice_request", "invoice"}
)

// msg is a decoded message of any of the three kinds behind one face.
type msg struct {
	kind string
	o    *lnwire.Offer
	r    *lnwire.InvoiceRequest
	i    *lnwire.Invoice
}

func decodeMsg(kind string, b []byte) (*msg, error) {
	m := &msg{kind: kind}
	var err error
	switch kind {
	case "offer":
		m.o, err = lnwire.DecodeOffer(b)
	case "invoice_request":
		m.r, err = lnwire.DecodeInvoiceRequest(b)
	default:
		m.i, err = lnwire.DecodeInvoice(b)
	}
	return m, err
}

func (m *msg) encode() ([]byte, error) {
	switch m.kind {
	case "offer":
		return lnwire.EncodeOffer(m.o)
	case "invoice_request":
		return lnwire.EncodeInvoiceRequest(m.r)
	default:
		return lnwire.EncodeInvoice(m.i)
	}
}

func (m *msg) validate() error {
	switch m.kind {
	case "offer":
		return m.o.Validate()
	case "invoice_request":
		return m.r.Validate()
	default:
		return m.i.Validate()
	}
}

func (m *msg) root() []byte {
	switch m.kind {
	case "offer":
		return m.o.MerkleRoot[:]
	case "invoice_request":
		return m.r.MerkleRoot[:]
	default:
		return m.i.MerkleRoot[:]
	}
}

func (m *msg) setRoot(b []byte) {
	var h lntypes.Hash
	copy(h[:], b)
	switch m.kind {
	case "offer":
		m.o.MerkleRoot = h
	case "invoice_request":
		m.r.MerkleRoot = h
	default:
		m.i.MerkleRoot = h
	}
}

// keyField is the record holding the key that signs.
func keyField(kind string) string {
	if kind == "invoice_request" {
		return "payer"
	}
	return "node"
}

// mismatch compares the fields of a decoded message with the records of the
// stream it came from: "" if all agree. Records that are absent must read as
// zero.
func (m *msg) mismatch(rs []Rec) string {
	sc := schemas[m.kind]
	val := func(name string) []byte {
		if r := findRec(rs, sc.byName(name).T); r != nil {
			return r.V
		}
		return nil
	}
	has := func(name string) bool {
		return findRec(rs, sc.byName(name).T) != nil
	}
	num := func(name string) (v uint64) {
		for _, b := range val(name) {
			v = v<<8 | uint64(b)
		}
		return
	}
	var bad string
	check := func(name string, ok bool, got interface{}) {
		if !ok && bad == "" {
			bad = fmt.Sprintf("%s: field %s reads %v, wire has %x "+
				"(present: %v)", m.kind, name, got, val(name),
				has(name))
		}
	}
	hash := func(name string, h lntypes.Hash) {
		var want lntypes.Hash
		copy(want[:], val(name))
		check(name, h == want, fmt.Sprintf("%x", h[:]))
	}
	numf := func(name string, v uint64) { check(name, v == num(name), v) }
	str := func(name, v string) {
		check(name, v == string(val(name)), fmt.Sprintf("%.40q", v))
	}
	feat := func(fv *lndwire.FeatureVector) {
		if len(val("features")) > 8192 {
			return
		}
		var got interface{} = fv
		if fv != nil {
			got = fv.Features()
		}
		check("features", sameBits(fv, bitsOf(val("features"))), got)
	}
	key := func(name string, p *btcec.PublicKey) {
		switch {
		case !has(name):
			check(name, p == nil, pubHex(p))
		case p == nil:
			check(name, false, "nil")
		case sc.byName(name).Kind == kXOnly:
			check(name, bytes.Equal(xonly(p), val(name)), pubHex(p))
		default:
			check(name, bytes.Equal(
				p.SerializeCompressed(), val(name),
			), pubHex(p))
		}
	}
	sig := func(s *[64]byte) {
		switch {
		case !has("sig"):
			check("sig", s == nil, s)
		case s == nil:
			check("sig", false, "nil")
		default:
			check("sig", bytes.Equal(s[:], val("sig")), s)
		}
	}
	tm := func(name string, v time.Time) {
		if !has(name) {
			check(name, v.IsZero(), v)
			return
		}
		// Instants beyond what time can express are not judged.
		if num(name) < 1<<62 {
			check(name, v.Unix() == int64(num(name)) &&
				v.Nanosecond() == 0, v)
		}
	}

	switch m.kind {
	case "offer":
		o := m.o
		hash("chain", o.Chainhash)
		numf("amount", uint64(o.MinimumAmount))
		str("description", o.Description)
		feat(o.Features)
		tm("expiry", o.Expiry)
		str("issuer", o.Issuer)
		numf("qmin", o.QuantityMin)
		numf("qmax", o.QuantityMax)
		key("node", o.NodeID)
		sig(o.Signature)

	case "invoice_request":
		r := m.r
		hash("chain", r.Chainhash)
		hash("offerid", r.OfferID)
		numf("amount", uint64(r.Amount))
		feat(r.Features)
		numf("quantity", r.Quantity)
		key("payer", r.PayerKey)
		str("note", r.PayerNote)
		check("info", bytes.Equal(r.PayerInfo, val("info")), r.PayerInfo)
		sig(r.Signature)

	default:
		i := m.i
		hash("chain", i.Chainhash)
		hash("offerid", i.OfferID)
		numf("amount", uint64(i.Amount))
		str("description", i.Description)
		feat(i.Features)
		key("node", i.NodeID)
		numf("quantity", i.Quantity)
		key("payer", i.PayerKey)
		str("note", i.PayerNote)
		tm("created", i.CreatedAt)
		hash("payhash", i.PaymentHash)
		// Durations beyond what time can express are not judged.
		if num("relexp") < 1<<33 {
			check("relexp", i.RelativeExpiry ==
				time.Duration(num("relexp"))*time.Second,
				i.RelativeExpiry)
		}
		numf("cltv", i.CLTVExpiry)
		check("info", bytes.Equal(i.PayerInfo, val("info")), i.PayerInfo)
		sig(i.Signature)
	}
	return bad
}

// build makes the in-memory message that the records describe, without going
// through the decoder.
func build(kind string, rs []Rec) *msg {
	sc := schemas[kind]
	m := &msg{kind: kind}
	val := func(name string) []byte {
		if r := findRec(rs, sc.byName(name).T); r != nil {
			return r.V
		}
		return nil
	}
	has := func(name string) bool {
		return findRec(rs, sc.byName(name).T) != nil
	}
	num := func(name string) (v uint64) {
		for _, b := range val(name) {
			v = v<<8 | uint64(b)
		}
		return
	}
	hash := func(name string) (h lntypes.Hash) {
		copy(h[:], val(name))
		return
	}
	key := func(name string) *btcec.PublicKey {
		if !has(name) {
			return nil
		}
		v := val(name)
		if len(v) == 32 {
			v = append([]byte{2}, v...)
		}
		p, err := btcec.ParsePubKey(v)
		if err != nil {
			panic(harnessError{"build: " + err.Error()})
		}
		return p
	}
	feat := func() *lndwire.FeatureVector {
		var bits []uint16
		for b := range bitsOf(val("features")) {
			bits = append(bits, b)
		}
		return featureVector(bits)
	}
	sig := func() *[64]byte {
		if !has("sig") {
			return nil
		}
		var s [64]byte
		copy(s[:], val("sig"))
		return &s
	}
	tm := func(name string) time.Time {
		if !has(name) {
			return time.Time{}
		}
		return time.Unix(int64(num(name)), 0)
	}
	switch kind {
	case "offer":
		m.o = &lnwire.Offer{
			Chainhash:     hash("chain"),
			MinimumAmount: lndwire.MilliSatoshi(num("amount")),
			Description:   string(val("description")),
			Features:      feat(),
			Expiry:        tm("expiry"),
			Issuer:        string(val("issuer")),
			QuantityMin:   num("qmin"),
			QuantityMax:   num("qmax"),
			NodeID:        key("node"),
			Signature:     sig(),
		}
	case "invoice_request":
		m.r = &lnwire.InvoiceRequest{
			Chainhash: hash("chain"),
			OfferID:   hash("offerid"),
			Amount:    lndwire.MilliSatoshi(num("amount")),
			Features:  feat(),
			Quantity:  num("quantity"),
			PayerKey:  key("payer"),
			PayerNote: string(val("note")),
			PayerInfo: val("info"),
			Signature: sig(),
		}
	default:
		m.i = &lnwire.Invoice{
			Chainhash:      hash("chain"),
			OfferID:        hash("offerid"),
			Amount:         lndwire.MilliSatoshi(num("amount")),
			Description:    string(val("description")),
			Features:       feat(),
			NodeID:         key("node"),
			Quantity:       num("quantity"),
			PayerKey:       key("payer"),
			PayerNote:      string(val("note")),
			CreatedAt:      tm("created"),
			PaymentHash:    hash("payhash"),
			RelativeExpiry: time.Duration(num("relexp")) * time.Second,
			CLTVExpiry:     num("cltv"),
			PayerInfo:      val("info"),
			Signature:      sig(),
		}
	}
	return m
}

// ---------------------------------------------------------------------------
// Generators.

var interestingU64 = []uint64{
	1, 2, 0x7f, 0x80, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0xffffff,
	0x1000000, 0xffffffff, 0x100000000, 1 << 40, 1 << 48, 1 << 55, 1 << 56,
	1<<63 - 1, 1 << 63, 1<<64 - 1, 21_000_000 * 100_000_000 * 1000,
}

func drawU64(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"-kind") {
	case 0:
		return rapid.SampledFrom(interestingU64).Draw(t, label)
	case 1:
		return rapid.Uint64Range(1, 1000).Draw(t, label)
	default:
		v := rapid.Uint64().Draw(t, label)
		if v == 0 {
			v = 1
		}
		return v
	}
}

func drawBits(t *rapid.T, label string) []uint16 {
	g := rapid.OneOf(
		rapid.Uint16Range(0, 70), rapid.Uint16Range(0, 2100),
		rapid.SampledFrom([]uint16{0, 1, 7, 8, 15, 16, 63, 64, 255, 256,
			511, 512, 4095, 32767, 65534, 65535}),
	)
	return rapid.SliceOfNDistinct(
		g, 1, 6, func(v uint16) uint16 { return v },
	).Draw(t, label)
}

func drawHash(t *rapid.T, label string) []byte {
	h := Blob{N: 32, Seed: rapid.IntRange(0, 1<<20).Draw(t, label)}.Bytes()
	// Sparse hashes too: only one byte set.
	if rapid.IntRange(0, 5).Draw(t, label+"-sparse") == 0 {
		i := rapid.IntRange(0, 31).Draw(t, label+"-at")
		s := make([]byte, 32)
		s[i] = h[i] | 1
		return s
	}
	return h
}

// drawValue draws a populated, canonical value for a field.
func drawValue(t *rapid.T, f field) []byte {
	switch f.Kind {
	case kHash:
		return drawHash(t, f.Name)
	case kTU64:
		if f.Name == "expiry" {
			// Instants that time can express; 0 is the epoch.
			return tu64(rapid.OneOf(
				rapid.Just(uint64(0)), rapid.Uint64Range(1, 1<<33),
				rapid.Uint64Range(1<<33, 1<<60),
			).Draw(t, f.Name))
		}
		return tu64(drawU64(t, f.Name))
	case kU64:
		switch f.Name {
		case "created":
			return u64(rapid.OneOf(
				rapid.Just(uint64(0)), rapid.Uint64Range(1, 1<<33),
				rapid.Uint64Range(1<<33, 1<<60),
			).Draw(t, f.Name))
		case "relexp":
			return u64(rapid.OneOf(
				rapid.Uint64Range(1, 100000),
				rapid.Uint64Range(1, 9_000_000_000),
			).Draw(t, f.Name))
		}
		return u64(drawU64(t, f.Name))
	case kBytes:
		return drawText(t, f.Name)
	case kFeat:
		return featureBytes(drawBits(t, f.Name))
	case kXOnly:
		return xonly(pub(rapid.IntRange(0, 40).Draw(t, f.Name)))
	case kPoint:
		return pub(rapid.IntRange(0, 40).Draw(t, f.Name)).
			SerializeCompressed()
	default:
		return Blob{N: 64, Seed: rapid.IntRange(0, 1<<20).Draw(t, f.Name)}.
			Bytes()
	}
}

// drawText draws a non-empty byte string: mostly short text, sometimes
// arbitrary bytes, sometimes lengths around the steps of the length encoding.
func drawText(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 11).Draw(t, label+"-kind") {
	case 0:
		n := rapid.SampledFrom([]int{252, 253, 254, 255, 256, 1000}).
			Draw(t, label+"-len")
		return Blob{N: n, Seed: 1}.Bytes()
	case 1:
		n := rapid.SampledFrom([]int{4096, 32768, 65534, 65535}).
			Draw(t, label+"-len")
		return Blob{N: n, Seed: 2}.Bytes()
	case 2, 3:
		return rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, label)
	default:
		return []byte(rapid.StringN(1, 12, 40).Draw(t, label))
	}
}

// drawCanonical draws the records of a canonical message: the stream an encoder
// produces. Fields in must are always present.
func drawCanonical(t *rapid.T, sc *schema, must ...string) []Rec {
	var rs []Rec
	force := map[string]bool{}
	for _, m := range must {
		force[m] = true
	}
	dense := rapid.IntRange(1, 9).Draw(t, "density")
	for _, f := range sc.Fields {
		if !force[f.Name] &&
			rapid.IntRange(0, 9).Draw(t, f.Name+"?") >= dense {

			continue
		}
		rs = append(rs, Rec{f.T, drawValue(t, f)})
	}
	return rs
}

// unsigned reports whether the stream has a record outside the signature range.
func hasContent(rs []Rec) bool {
	for _, r := range rs {
		if !isSigType(r.T) {
			return true
		}
	}
	return false
}
