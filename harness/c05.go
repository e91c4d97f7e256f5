package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	"pgregory.net/rapid"
)

type verdict int

const (
	mustReject verdict = iota
	mustAccept
	either
)

func validPoint(b []byte) bool {
	if len(b) != 33 {
		return false
	}
	_, err := btcec.ParsePubKey(b)
	return err == nil
}

// judgeValue says whether a field value is well-formed.
func judgeValue(f field, v []byte) verdict {
	ok := func(b bool) verdict {
		if b {
			return mustAccept
		}
		return mustReject
	}
	switch f.Kind {
	case kHash:
		return ok(len(v) == 32)
	case kTU64:
		return ok(len(v) <= 8 && (len(v) == 0 || v[0] != 0))
	case kU64:
		return ok(len(v) == 8)
	case kSig:
		return ok(len(v) == 64)
	case kPoint:
		return ok(validPoint(v))
	case kXOnly:
		if len(v) != 32 {
			return mustReject
		}
		_, err := schnorr.ParsePubKey(v)
		return ok(err == nil)
	case kFeat:
		if len(v) > 8192 || (len(v) > 0 && v[0] == 0) || len(v) == 0 {
			return either
		}
	}
	return mustAccept
}

// judgeMsg is the reference acceptor for the three bolt 12 messages.
func judgeMsg(kind string, b []byte) (verdict, []Rec) {
	rs, err := parseRecs(b)
	if err != nil {
		return mustReject, nil
	}
	sc := schemas[kind]
	out := mustAccept
	for _, r := range rs {
		f := sc.byType(r.T)
		if f == nil {
			if r.T%2 == 0 {
				out = either
			}
			continue
		}
		switch judgeValue(*f, r.V) {
		case mustReject:
			return mustReject, rs
		case either:
			out = either
		}
	}
	if !hasContent(rs) {
		out = either
	}
	return out, rs
}

// parseReplyPath is the reference reader of a reply path.
func parseReplyPath(b []byte) *lnwire.ReplyPath {
	if len(b) < 67 || !validPoint(b[:33]) || !validPoint(b[33:66]) {
		return nil
	}
	p := &lnwire.ReplyPath{}
	p.FirstNodeID, _ = btcec.ParsePubKey(b[:33])
	p.BlindingPoint, _ = btcec.ParsePubKey(b[33:66])
	n := int(b[66])
	b = b[67:]
	if n == 0 {
		return nil
	}
	for i := 0; i < n; i++ {
		if len(b) < 35 || !validPoint(b[:33]) {
			return nil
		}
		l := int(binary.BigEndian.Uint16(b[33:]))
		if len(b) < 35+l {
			return nil
		}
		k, _ := btcec.ParsePubKey(b[:33])
		p.Hops = append(p.Hops, &lnwire.BlindedHop{
			BlindedNodeID: k, EncryptedData: b[35 : 35+l],
		})
		b = b[35+l:]
	}
	if len(b) != 0 {
		return nil
	}
	return p
}

type planC05 struct {
	Kind string
	B    HB
}

var c05Kinds = []string{"offer", "invoice_request", "invoice", "onionmsg",
	"payload", "payload", "routedata"}

// largeSizes are sizes around and beyond what an onion packet has room for, up
// to the largest that records can have.
var largeSizes = []int{1023, 1024, 1025, 1300, 1301, 1366, 1367, 2048, 4096,
	4097, 8192, 10000, 16384, 32767, 32768, 50000, 65000, 65534, 65535}

// drawLarge is drawBlob with some values that are larger than usual.
func drawLarge(t *rapid.T, max int, label string) []byte {
	if rapid.IntRange(0, 39).Draw(t, label+"-large") == 0 {
		return Blob{N: rapid.SampledFrom(largeSizes).
			Draw(t, label+"-n")}.Bytes()
	}
	return drawBlob(t, 0, max, label).Bytes()
}

// drawLargePath draws a reply path that is longer, or has more data, than any
// that fits in an onion packet, but which can be written.
func drawLargePath(t *rapid.T) *pathPlan {
	p := &pathPlan{First: 1, Blind: 2}
	n := rapid.SampledFrom([]int{1, 1, 2, 3, 15, 16, 27, 28, 100, 127, 128,
		129, 254, 255}).Draw(t, "large-hops")
	room := 65535 - 67 - 35*n
	for i := 0; i < n; i++ {
		h := hopPlan{Key: i % 40, Data: Blob{N: i % 60, Seed: i}}
		room -= h.Data.N
		p.Hops = append(p.Hops, h)
	}
	i := rapid.IntRange(0, n-1).Draw(t, "large-at")
	h := &p.Hops[i].Data
	if room += h.N; room > 0 {
		h.N = min(room, rapid.SampledFrom(largeSizes).
			Draw(t, "large-data"))
	}
	return p
}

// drawStream draws records that are mostly well-formed for a kind.
func drawStream(t *rapid.T, kind string) []Rec {
	switch kind {
	case "payload":
		var rs []Rec
		if rapid.IntRange(0, 3).Draw(t, "reply?") > 0 {
			path := drawPath(t, false)
			if rapid.IntRange(0, 19).Draw(t, "large-path") == 0 {
				path = drawLargePath(t)
			}
			v := refReplyPath(path.build())
			rs = append(rs, Rec{2, v})
		}
		if rapid.Bool().Draw(t, "enc?") {
			rs = append(rs, Rec{4, drawLarge(t, 200, "enc")})
		}
		for _, f := range distinctFinals(drawFinals(t, 4, 60)) {
			rs = append(rs, Rec{f.T, f.V.Bytes()})
		}
		switch rapid.IntRange(0, 59).Draw(t, "large-finals") {
		case 0:
			// Very many of them.
			rs = addCrowd(t, rs)
		case 1:
			if len(rs) > 0 && rs[len(rs)-1].T >= 64 {
				rs[len(rs)-1].V = Blob{N: rapid.SampledFrom(
					largeSizes).Draw(t, "large-final")}.Bytes()
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "unknown?") == 0 {
			ty := rapid.Uint64Range(0, 63).Draw(t, "unknown-low")
			if findRec(rs, ty) == nil && ty != 2 && ty != 4 {
				rs = append(rs, Rec{ty,
					drawBlob(t, 0, 20, "unknown").Bytes()})
			}
		}
		sortRecs(rs)
		return rs
	case "routedata":
		var rs []Rec
		for _, ty := range []uint64{4, 8} {
			if rapid.Bool().Draw(t, "present") {
				rs = append(rs, Rec{ty, pub(rapid.IntRange(0, 60).
					Draw(t, "key")).SerializeCompressed()})
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "unknown?") == 0 {
			ty := rapid.Uint64Range(0, 300).Draw(t, "unknown") | 1
			rs = append(rs, Rec{ty, drawLarge(t, 20, "v")})
		}
		sortRecs(rs)
		return rs
	default:
		sc := schemas[kind]
		rs := drawCanonical(t, sc)
		if rapid.IntRange(0, 3).Draw(t, "defaults?") == 0 {
			rs = drawDefaults(t, sc, rs)
		}
		if rapid.IntRange(0, 3).Draw(t, "unknown?") == 0 {
			rs = addUnknown(t, sc, rs, 3)
		}
		switch rapid.IntRange(0, 149).Draw(t, "large-unknown") {
		case 0:
			rs = addCrowd(t, rs)
		case 1:
			if r := findRec(rs, 1001); r == nil {
				rs = append(rs, Rec{1001, Blob{N: rapid.SampledFrom(
					largeSizes).Draw(t, "large-n")}.Bytes()})
				sortRecs(rs)
			}
		}
		return rs
	}
}

// longSize writes a BigSize in a longer form than needed.
func longSize(v uint64, form int) []byte {
	switch form {
	case 0:
		return []byte{0xfd, byte(v >> 8), byte(v)}
	case 1:
		return []byte{0xfe, byte(v >> 24), byte(v >> 16), byte(v >> 8),
			byte(v)}
	default:
		b := make([]byte, 9)
		b[0] = 0xff
		binary.BigEndian.PutUint64(b[1:], v)
		return b
	}
}

func resizeVal(t *rapid.T, v []byte) []byte {
	switch rapid.IntRange(0, 4).Draw(t, "resize") {
	case 0:
		return []byte{}
	case 1:
		if len(v) > 0 {
			return v[:len(v)-1]
		}
		return []byte{0}
	case 2:
		return append(append([]byte{}, v...), byte(rapid.IntRange(0, 255).
			Draw(t, "extra")))
	case 3:
		// A leading zero: not minimal for integers.
		return append([]byte{0}, v...)
	default:
		return drawBlob(t, 0, 80, "resized").Bytes()
	}
}

// drawWire draws a byte string near the well-formed ones of a kind.
func drawWire(t *rapid.T, kind string) []byte {
	if kind == "onionmsg" {
		blob := drawLarge(t, 1400, "blob")
		b := append(pub(rapid.IntRange(0, 60).Draw(t, "key")).
			SerializeCompressed(), u16(len(blob))...)
		b = append(b, blob...)
		return corrupt(t, b)
	}
	rs := drawStream(t, kind)
	mode := rapid.IntRange(0, 9).Draw(t, "mode")
	if len(rs) == 0 && mode > 2 {
		mode = 0
	}
	pick := func() int {
		return rapid.IntRange(0, len(rs)-1).Draw(t, "pick")
	}
	switch mode {
	case 0, 1:
		return encodeRecs(rs)
	case 2:
		return corrupt(t, encodeRecs(rs))
	case 3: // one value of another size
		i := pick()
		rs[i].V = resizeVal(t, rs[i].V)
	case 4: // a corrupted value
		i := pick()
		rs[i].V = corrupt(t, rs[i].V)
		if len(rs[i].V) > 65535 {
			rs[i].V = rs[i].V[:65535]
		}
	case 5: // repeated
		i := pick()
		rs = append(rs[:i+1], append([]Rec{rs[i]}, rs[i+1:]...)...)
	case 6: // out of order
		i, j := pick(), pick()
		rs[i], rs[j] = rs[j], rs[i]
	case 7, 8: // non-minimal type or length, or a wrong length
		var out []byte
		k := pick()
		what := rapid.IntRange(0, 2).Draw(t, "what")
		form := rapid.IntRange(0, 2).Draw(t, "form")
		for i, r := range rs {
			ty, l := bigSize(r.T), bigSize(uint64(len(r.V)))
			if i == k {
				switch what {
				case 0:
					if form < 2 && r.T >= 1<<16 {
						form = 2
					}
					ty = longSize(r.T, form)
				case 1:
					l = longSize(uint64(len(r.V)), form)
				default:
					d := rapid.SampledFrom([]uint64{1,
						1<<64 - 1, 2, 33, 35, 37, 1 << 16,
						1 << 32, 1 << 63}).Draw(t, "off")
					l = bigSize(uint64(len(r.V)) + d)
				}
			}
			out = append(append(append(out, ty...), l...), r.V...)
		}
		return out
	default: // parts of two streams
		a, b := encodeRecs(rs), encodeRecs(drawStream(t, kind))
		i := rapid.IntRange(0, len(a)).Draw(t, "cut-a")
		j := rapid.IntRange(0, len(b)).Draw(t, "cut-b")
		return append(append([]byte{}, a[:i]...), b[j:]...)
	}
	return encodeRecs(rs)
}

// corrupt applies a few byte-level edits.
func corrupt(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(1, 3).Draw(t, "edits")
	for i := 0; i < n; i++ {
		at := 0
		if len(b) > 0 {
			// Favour the front, where lengths and counts live.
			at = rapid.OneOf(rapid.IntRange(0, len(b)-1),
				rapid.IntRange(0, (len(b)-1)/8),
				rapid.IntRange(0, min(len(b)-1, 100))).Draw(t, "at")
		}
		x := byte(rapid.IntRange(0, 255).Draw(t, "x"))
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << (x % 8)
			}
		case 1:
			if len(b) > 0 {
				b[at] = x
			}
		case 2:
			b = b[:at]
		case 3:
			b = append(b[:at], append([]byte{x}, b[at:]...)...)
		case 4:
			if len(b) > 0 {
				b = append(b[:at], b[at+1:]...)
			}
		default:
			b = append(b, x)
		}
	}
	return b
}

func init() {
	Add("C05", "accept", 100000, 1500000,
		"byte strings near well-formed ones (mutated values, sizes, order, "+
			"lengths, non-minimal integers, splices, byte edits) for "+
			"six decoders, judged by an independent acceptor. "+
			"Non-trivial: the acceptor must accept a string with at "+
			"least two records, or must reject it after at least one "+
			"record could be read",
		func(t *rapid.T) planC05 {
			kind := rapid.SampledFrom(c05Kinds).Draw(t, "kind")
			return planC05{kind, drawWire(t, kind)}
		}, runC05)
	Add("C05", "random", 16000, 300000,
		"uniformly random byte strings and random short TLV-like strings; "+
			"non-trivial: 4 bytes or more",
		func(t *rapid.T) planC05 {
			kind := rapid.SampledFrom(c05Kinds).Draw(t, "kind")
			if rapid.Bool().Draw(t, "tlv") {
				var b []byte
				for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
					b = append(b, byte(rapid.IntRange(0, 70).
						Draw(t, "t")))
					v := rapid.SliceOfN(rapid.Byte(), 0, 40).
						Draw(t, "v")
					b = append(b, byte(len(v)))
					b = append(b, v...)
				}
				return planC05{kind, b}
			}
			return planC05{kind, rapid.SliceOfN(rapid.Byte(), 0, 200).
				Draw(t, "b")}
		}, func(c *C, p planC05) {
			runC05(c, p)
			if len(p.B) >= 4 {
				c.NonTrivial()
			}
		})
}

func runC05(c *C, p planC05) {
	b := append([]byte{}, p.B...)
	var (
		v    verdict
		err  error
		bad  string
		recs int
	)
	switch p.Kind {
	case "onionmsg":
		v = mustReject
		if len(b) >= 35 && validPoint(b[:33]) {
			l := int(binary.BigEndian.Uint16(b[33:]))
			switch {
			case len(b)-35 == l:
				v = mustAccept
			case len(b)-35 > l:
				v = either
			}
		}
		var m lnwire.OnionMessage
		err = m.Decode(bytes.NewReader(b), 0)
		if err == nil && v != mustReject {
			l := int(binary.BigEndian.Uint16(b[33:]))
			if pubHex(m.BlindingPoint) != fmt.Sprintf("%x", b[:33]) ||
				!bytes.Equal(m.OnionBlob, b[35:35+l]) {

				bad = "fields differ from the bytes"
			}
		}
		recs = 2

	case "payload":
		var d *lnwire.OnionMessagePayload
		rs, perr := parseRecs(b)
		v, recs = mustAccept, len(rs)
		var reply *lnwire.ReplyPath
		if perr != nil {
			v = mustReject
		}
		for _, r := range rs {
			switch {
			case r.T == 2:
				if reply = parseReplyPath(r.V); reply == nil {
					v = mustReject
				}
			case r.T != 4 && r.T < 64 && r.T%2 == 0 && v == mustAccept:
				v = either
			}
		}
		d, err = lnwire.DecodeOnionMessagePayload(b)
		if err == nil && v != mustReject {
			bad = payloadMismatch(d, rs, reply)
			c.Kept(func() string {
				return payloadMismatch(d, rs, reply)
			})
		}

	case "routedata":
		rs, perr := parseRecs(b)
		v, recs = mustAccept, len(rs)
		if perr != nil {
			v = mustReject
		}
		want := map[uint64]string{4: "<nil>", 8: "<nil>"}
		for _, r := range rs {
			if r.T == 4 || r.T == 8 {
				if !validPoint(r.V) {
					v = mustReject
				}
				want[r.T] = fmt.Sprintf("%x", []byte(r.V))
			} else if r.T%2 == 0 && v == mustAccept {
				v = either
			}
		}
		var d *lnwire.BlindedRouteData
		d, err = lnwire.DecodeBlindedRouteData(b)
		if err == nil && v != mustReject {
			if pubHex(d.NextNodeID) != want[4] ||
				pubHex(d.NextBlindingOverride) != want[8] {

				bad = fmt.Sprintf("fields %s %s, want %v",
					pubHex(d.NextNodeID),
					pubHex(d.NextBlindingOverride), want)
			}
		}

	default:
		var (
			m  *msg
			rs []Rec
		)
		v, rs = judgeMsg(p.Kind, b)
		recs = len(rs)
		m, err = decodeMsg(p.Kind, b)
		if err == nil && v != mustReject {
			bad = m.mismatch(rs)
			c.Kept(func() string { return m.mismatch(rs) })
			// Whatever was accepted can be validated too.
			_ = m.validate()
		}
	}

	switch v {
	case mustAccept:
		c.Class("%s/well-formed", p.Kind)
		if recs >= 2 {
			c.NonTrivial()
		}
		if err != nil {
			c.Failf("well-formed %s %x was rejected: %v", p.Kind, b, err)
		}
	case mustReject:
		c.Class("%s/malformed", p.Kind)
		if _, _, e := readBigSize(b); e == nil && len(b) > 2 {
			c.NonTrivial()
		}
		if err == nil {
			c.Failf("malformed %s %x was accepted", p.Kind, b)
		}
	default:
		c.Class("%s/not judged", p.Kind)
	}
	if bad != "" {
		c.Failf("%s %x: %s", p.Kind, b, bad)
	}
}
