package main

import (
	"bytes"
	"fmt"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C01

type planC01 struct {
	Kind string
	Recs []Rec
	// Odd gives x-only keys an odd Y coordinate in memory.
	Odd bool
}

func flipKey(p *btcec.PublicKey) *btcec.PublicKey {
	if p == nil {
		return nil
	}
	b := p.SerializeCompressed()
	b[0] ^= 1
	q, err := btcec.ParsePubKey(b)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return q
}

func init() {
	Add("C01", "roundtrip", 60000, 400000,
		"any subset of the fields of an offer, invoice request or invoice "+
			"with boundary-biased values, built in memory; expected "+
			"bytes come from an independent TLV encoder. Non-trivial: "+
			"at least three fields populated",
		func(t *rapid.T) planC01 {
			kind := rapid.SampledFrom(schemaNames).Draw(t, "kind")
			rs := drawCanonical(t, schemas[kind])
			if !hasContent(rs) {
				f := schemas[kind].Fields[rapid.IntRange(
					0, len(schemas[kind].Fields)-2,
				).Draw(t, "one")]
				rs = append([]Rec{{f.T, drawValue(t, f)}}, rs...)
			}
			return planC01{kind, rs, rapid.Bool().Draw(t, "odd")}
		},
		func(c *C, p planC01) {
			m := build(p.Kind, p.Recs)
			if p.Odd {
				switch p.Kind {
				case "offer":
					m.o.NodeID = flipKey(m.o.NodeID)
				case "invoice_request":
					m.r.PayerKey = flipKey(m.r.PayerKey)
				}
			}
			want := encodeRecs(p.Recs)
			if len(p.Recs) >= 3 {
				c.NonTrivial()
			}
			c.Class("%s", p.Kind)
			for _, r := range p.Recs {
				c.Class("%s/%s", p.Kind,
					schemas[p.Kind].byType(r.T).Name)
			}

			got, err := m.encode()
			if err != nil {
				c.Failf("encoding a representable %s failed: %v",
					p.Kind, err)
			}
			if !bytes.Equal(got, want) {
				c.Failf("encoded %s is %x, documented stream is %x",
					p.Kind, got, want)
			}
			again, err := m.encode()
			if err != nil || !bytes.Equal(again, got) {
				c.Failf("encoding %s twice differs (%v)", p.Kind, err)
			}
			d, err := decodeMsg(p.Kind, append([]byte{}, want...))
			if err != nil {
				c.Failf("decoding %x, an encoded %s, failed: %v",
					want, p.Kind, err)
			}
			if bad := d.mismatch(p.Recs); bad != "" {
				c.Failf("after a round trip: %s", bad)
			}
			back, err := d.encode()
			if err != nil || !bytes.Equal(back, want) {
				c.Failf("decode and encode of %x gives %x (%v)",
					want, back, err)
			}
			c.Kept(func() string {
				if !bytes.Equal(got, want) || !bytes.Equal(back, want) {
					return fmt.Sprintf("encoded %s is now %x and %x, "+
						"was %x", p.Kind, got, back, want)
				}
				return d.mismatch(p.Recs)
			})
		})
}

// ---------------------------------------------------------------------------
// C02

type hopPlan struct {
	Key  int
	Data Blob
}

type pathPlan struct {
	First, Blind int
	Hops         []hopPlan
}

func (p *pathPlan) build() *lnwire.ReplyPath {
	if p == nil {
		return nil
	}
	r := &lnwire.ReplyPath{
		FirstNodeID: pub(p.First), BlindingPoint: pub(p.Blind),
	}
	for _, h := range p.Hops {
		r.Hops = append(r.Hops, &lnwire.BlindedHop{
			BlindedNodeID: pub(h.Key), EncryptedData: h.Data.Bytes(),
		})
	}
	return r
}

// refReplyPath is the documented layout of a reply path.
func refReplyPath(r *lnwire.ReplyPath) []byte {
	b := append([]byte{}, r.FirstNodeID.SerializeCompressed()...)
	b = append(b, r.BlindingPoint.SerializeCompressed()...)
	b = append(b, byte(len(r.Hops)))
	for _, h := range r.Hops {
		b = append(b, h.BlindedNodeID.SerializeCompressed()...)
		b = append(b, u16(len(h.EncryptedData))...)
		b = append(b, h.EncryptedData...)
	}
	return b
}

// samePath compares reply paths by value.
func samePath(a, b *lnwire.ReplyPath) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if pubHex(a.FirstNodeID) != pubHex(b.FirstNodeID) ||
		pubHex(a.BlindingPoint) != pubHex(b.BlindingPoint) ||
		len(a.Hops) != len(b.Hops) {

		return false
	}
	for i := range a.Hops {
		if pubHex(a.Hops[i].BlindedNodeID) !=
			pubHex(b.Hops[i].BlindedNodeID) ||
			!bytes.Equal(a.Hops[i].EncryptedData,
				b.Hops[i].EncryptedData) {

			return false
		}
	}
	return true
}

func pathString(p *lnwire.ReplyPath) string {
	if p == nil {
		return "<none>"
	}
	s := fmt.Sprintf("{first %s blinding %s hops", pubHex(p.FirstNodeID),
		pubHex(p.BlindingPoint))
	for _, h := range p.Hops {
		s += fmt.Sprintf(" %s/%d bytes", pubHex(h.BlindedNodeID),
			len(h.EncryptedData))
		if len(s) > 600 {
			s += fmt.Sprintf("... (%d hops)", len(p.Hops))
			break
		}
	}
	return s + "}"
}

type finalPlan struct {
	T uint64
	V Blob
}

func drawFinals(t *rapid.T, max int, maxLen int) []finalPlan {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) finalPlan {
		return finalPlan{
			T: drawFinalType(t),
			V: drawBlob(t, 0, maxLen, "value"),
		}
	}), 0, max).Draw(t, "finals")
}

func drawFinalType(t *rapid.T) uint64 {
	return rapid.OneOf(
		rapid.Uint64Range(64, 80),
		rapid.SampledFrom([]uint64{64, 65, 66, 67, 68, 252, 253, 254, 255,
			256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63,
			1<<64 - 2, 1<<64 - 1}),
		rapid.Uint64Range(64, 1<<64-1),
	).Draw(t, "type")
}

func distinctFinals(fs []finalPlan) []finalPlan {
	seen := map[uint64]bool{}
	var out []finalPlan
	for _, f := range fs {
		if !seen[f.T] {
			seen[f.T] = true
			out = append(out, f)
		}
	}
	return out
}

func buildFinals(fs []finalPlan) []*lnwire.FinalHopPayload {
	var out []*lnwire.FinalHopPayload
	for _, f := range fs {
		out = append(out, &lnwire.FinalHopPayload{
			TLVType: tlv.Type(f.T), Value: f.V.Bytes(),
		})
	}
	return out
}

func drawPath(t *rapid.T, wild bool) *pathPlan {
	p := &pathPlan{
		First: rapid.IntRange(0, 50).Draw(t, "first"),
		Blind: rapid.IntRange(0, 50).Draw(t, "blinding"),
	}
	n := rapid.IntRange(1, 5).Draw(t, "hops")
	maxData := 300
	if wild {
		switch rapid.IntRange(0, 19).Draw(t, "hops-kind") {
		case 0:
			n = 0
		case 1, 2:
			n = rapid.SampledFrom([]int{127, 128, 200, 254, 255, 256,
				257, 300, 511, 512, 513}).Draw(t, "hops")
			maxData = 20
		case 3, 4:
			n = 1
			maxData = rapid.SampledFrom([]int{65433, 65434, 65535,
				65536, 65537, 70000, 131072}).Draw(t, "data-max")
		}
	}
	seed := rapid.IntRange(0, 1000).Draw(t, "path-seed")
	for i := 0; i < n; i++ {
		h := hopPlan{Key: seed + i}
		switch {
		case n > 20:
			h.Data = Blob{N: (seed + i) % (maxData + 1), Seed: i}
		case maxData > 300 && i == n-1:
			h.Data = Blob{N: maxData, Seed: i}
		default:
			h.Data = drawBlob(t, 0, maxData, "data")
		}
		p.Hops = append(p.Hops, h)
	}
	return p
}

type planOnionMsg struct {
	Key  int
	Blob Blob
}

type planPayload struct {
	Reply  *pathPlan
	Enc    Blob
	Finals []finalPlan
	// NilEnc leaves the encrypted data nil rather than empty.
	NilEnc bool
}

type planRouteData struct{ Next, Override int }

func init() {
	Add("C02", "onion-message", 10000, 60000,
		"any blinding point and onion blob of 0 to 70000 bytes; non-trivial: "+
			"blob not empty",
		func(t *rapid.T) planOnionMsg {
			b := drawBlob(t, 0, 2000, "blob")
			if rapid.IntRange(0, 5).Draw(t, "big") == 0 {
				b = Blob{N: rapid.SampledFrom([]int{1366, 32834, 65534,
					65535, 65536, 65537, 70000}).Draw(t, "n")}
			}
			return planOnionMsg{rapid.IntRange(0, 60).Draw(t, "key"), b}
		},
		func(c *C, p planOnionMsg) {
			blob := p.Blob.Bytes()
			if len(blob) > 0 {
				c.NonTrivial()
			}
			m := lnwire.NewOnionMessage(pub(p.Key), blob)
			buf := new(bytes.Buffer)
			err := m.Encode(buf, 0)
			if len(blob) > 65535 {
				c.Class("too long")
				if err == nil {
					c.Failf("an onion of %d bytes, which the 2 byte "+
						"length cannot express, was encoded",
						len(blob))
				}
				return
			}
			c.Class("fits")
			want := append(pub(p.Key).SerializeCompressed(),
				u16(len(blob))...)
			want = append(want, blob...)
			if err != nil || !bytes.Equal(buf.Bytes(), want) {
				c.Failf("onion message (blob of %d bytes) encodes to "+
					"%.80x, err %v", len(blob), buf.Bytes(), err)
			}
			if m.MsgType() != 513 {
				c.Failf("message type is %d", m.MsgType())
			}
			var d lnwire.OnionMessage
			if err := d.Decode(bytes.NewReader(want), 0); err != nil {
				c.Failf("decode: %v", err)
			}
			if pubHex(d.BlindingPoint) != pubHex(pub(p.Key)) ||
				!bytes.Equal(d.OnionBlob, blob) {

				c.Failf("decoded onion message differs: %s %d bytes",
					pubHex(d.BlindingPoint), len(d.OnionBlob))
			}
			c.Kept(func() string {
				if pubHex(d.BlindingPoint) != pubHex(pub(p.Key)) ||
					!bytes.Equal(d.OnionBlob, blob) {

					return fmt.Sprintf("decoded onion message of %d "+
						"bytes differs", len(blob))
				}
				return ""
			})
		})

	Add("C02", "payload", 30000, 200000,
		"payloads with any reply path (0 to 513 hops, hop data up to 131072 "+
			"bytes), encrypted data and up to 8, at times up to 264, final "+
			"records in any order with any types and lengths; non-trivial: two or more "+
			"of reply path, encrypted data and final records present",
		func(t *rapid.T) planPayload {
			var p planPayload
			if rapid.IntRange(0, 2).Draw(t, "reply?") > 0 {
				p.Reply = drawPath(t, true)
			}
			p.Enc = drawBlob(t, 0, 400, "enc")
			if rapid.IntRange(0, 30).Draw(t, "enc-big") == 0 {
				p.Enc = Blob{N: 65535}
			}
			p.NilEnc = rapid.IntRange(0, 3).Draw(t, "enc?") == 0
			p.Finals = drawFinals(t, 8, 300)
			if rapid.IntRange(0, 60).Draw(t, "crowd") == 0 {
				n := rapid.SampledFrom([]int{15, 16, 31, 64, 127, 256}).
					Draw(t, "crowd-n")
				for i := 0; i < n; i++ {
					p.Finals = append(p.Finals, finalPlan{
						T: uint64(81 + 7*i),
						V: Blob{N: i % 5},
					})
				}
			}
			if rapid.IntRange(0, 15).Draw(t, "low") == 0 {
				p.Finals = append(p.Finals, finalPlan{
					T: rapid.Uint64Range(0, 63).Draw(t, "low-type"),
					V: drawBlob(t, 0, 20, "low-v"),
				})
			}
			if rapid.IntRange(0, 9).Draw(t, "dup") != 0 {
				p.Finals = distinctFinals(p.Finals)
			}
			return p
		}, runC02Payload)

	Add("C02", "route-data", 2000, 5000,
		"blinded route data with and without next node and override; "+
			"non-trivial: something present",
		func(t *rapid.T) planRouteData {
			return planRouteData{
				rapid.IntRange(-1, 60).Draw(t, "next"),
				rapid.IntRange(-1, 60).Draw(t, "override"),
			}
		},
		func(c *C, p planRouteData) {
			var rs []Rec
			d := &lnwire.BlindedRouteData{}
			if p.Next >= 0 {
				d.NextNodeID = pub(p.Next)
				rs = append(rs, Rec{4, d.NextNodeID.SerializeCompressed()})
			}
			if p.Override >= 0 {
				d.NextBlindingOverride = pub(p.Override)
				rs = append(rs, Rec{8,
					d.NextBlindingOverride.SerializeCompressed()})
			}
			c.Class("%d fields", len(rs))
			if len(rs) > 0 {
				c.NonTrivial()
			}
			b, err := lnwire.EncodeBlindedRouteData(d)
			if err != nil || !bytes.Equal(b, encodeRecs(rs)) {
				c.Failf("route data encodes to %x, want %x (%v)", b,
					encodeRecs(rs), err)
			}
			back, err := lnwire.DecodeBlindedRouteData(b)
			if err != nil {
				c.Failf("decode %x: %v", b, err)
			}
			if pubHex(back.NextNodeID) != pubHex(d.NextNodeID) ||
				pubHex(back.NextBlindingOverride) !=
					pubHex(d.NextBlindingOverride) {

				c.Failf("route data decoded to %s %s",
					pubHex(back.NextNodeID),
					pubHex(back.NextBlindingOverride))
			}
			c.Kept(func() string {
				if !bytes.Equal(b, encodeRecs(rs)) ||
					pubHex(back.NextNodeID) != pubHex(d.NextNodeID) {

					return fmt.Sprintf("route data is now %x, want %x",
						b, encodeRecs(rs))
				}
				return ""
			})
		})
}

func runC02Payload(c *C, p planPayload) {
	reply := p.Reply.build()
	in := &lnwire.OnionMessagePayload{
		ReplyPath:        reply,
		EncryptedData:    p.Enc.Bytes(),
		FinalHopPayloads: buildFinals(p.Finals),
	}
	if p.NilEnc {
		in.EncryptedData = nil
	}

	var (
		refuse string
		rs     []Rec
		parts  int
	)
	if reply != nil {
		parts++
		switch n := len(reply.Hops); {
		case n == 0:
			refuse = "a reply path without hops"
		case n > 255:
			refuse = fmt.Sprintf("a reply path of %d hops", n)
		}
		for _, h := range reply.Hops {
			if len(h.EncryptedData) > 65535 {
				refuse = fmt.Sprintf("hop data of %d bytes",
					len(h.EncryptedData))
			}
		}
		if refuse == "" {
			rs = append(rs, Rec{2, refReplyPath(reply)})
		}
	}
	if len(in.EncryptedData) > 0 {
		parts++
		rs = append(rs, Rec{4, in.EncryptedData})
	}
	seen := map[uint64]bool{}
	for _, f := range p.Finals {
		if f.T < 64 {
			refuse = fmt.Sprintf("a final record of type %d", f.T)
		}
		if seen[f.T] {
			refuse = fmt.Sprintf("two final records of type %d", f.T)
		}
		seen[f.T] = true
		rs = append(rs, Rec{f.T, f.V.Bytes()})
		c.ClassIf(len(f.V.Bytes()) == 0, "empty final record")
	}
	if len(p.Finals) > 0 {
		parts++
	}
	if parts >= 2 {
		c.NonTrivial()
	}
	sortRecs(rs)

	got, err := lnwire.EncodeOnionMessagePayload(in)
	if refuse != "" {
		c.Class("refused")
		if err == nil {
			c.Failf("%s cannot be carried but was encoded without an "+
				"error", refuse)
		}
		return
	}
	for _, r := range rs {
		if len(r.V) > 65535 {
			// Longer than any record the decoder accepts: no promise.
			c.Class("record over 65535 bytes")
			return
		}
	}
	c.Class("carried")
	c.ClassIf(reply != nil && len(reply.Hops) >= 128, "128+ hops")
	want := encodeRecs(rs)
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("payload encodes to %.200x, documented layout %.200x "+
			"(err %v)", got, want, err)
	}
	d, err := lnwire.DecodeOnionMessagePayload(want)
	if err != nil {
		c.Failf("decoding an encoded payload: %v", err)
	}
	if bad := payloadMismatch(d, rs, reply); bad != "" {
		c.Failf("after a round trip: %s", bad)
	}
	c.Kept(func() string {
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("encoded payload is now %.200x, was %.200x",
				got, want)
		}
		return payloadMismatch(d, rs, reply)
	})
}

// payloadMismatch compares a decoded payload with the records it came from.
func payloadMismatch(d *lnwire.OnionMessagePayload, rs []Rec,
	reply *lnwire.ReplyPath) string {

	if !samePath(d.ReplyPath, reply) {
		return fmt.Sprintf("reply path %s, want %s",
			pathString(d.ReplyPath), pathString(reply))
	}
	var enc []byte
	if r := findRec(rs, 4); r != nil {
		enc = r.V
	}
	if !bytes.Equal(d.EncryptedData, enc) {
		return fmt.Sprintf("encrypted data %x, want %x",
			d.EncryptedData, enc)
	}
	var want []Rec
	for _, r := range rs {
		if r.T >= 64 {
			want = append(want, r)
		}
	}
	if len(d.FinalHopPayloads) != len(want) {
		return fmt.Sprintf("%d final records, want %d",
			len(d.FinalHopPayloads), len(want))
	}
	for i, f := range d.FinalHopPayloads {
		if uint64(f.TLVType) != want[i].T ||
			!bytes.Equal(f.Value, want[i].V) {

			return fmt.Sprintf("final record %d is type %d %x, want "+
				"type %d %x", i, f.TLVType, f.Value, want[i].T,
				want[i].V)
		}
	}
	return ""
}
