package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"unicode"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C06

const bech32Chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bech32Data regroups bytes into 5 bit characters, zero padded.
func bech32Data(b []byte) string {
	var (
		sb   strings.Builder
		acc  uint
		bits uint
	)
	for _, x := range b {
		acc = acc<<8 | uint(x)
		bits += 8
		for bits >= 5 {
			bits -= 5
			sb.WriteByte(bech32Chars[acc>>bits&31])
		}
		acc &= 1<<bits - 1
	}
	if bits > 0 {
		sb.WriteByte(bech32Chars[acc<<(5-bits)&31])
	}
	return sb.String()
}

func offerString(b []byte) string { return "lno1" + bech32Data(b) }

func isBech32(c byte) bool {
	if c >= 'A' && c <= 'Z' {
		c += 32
	}
	return strings.IndexByte(bech32Chars, c) >= 0
}

func asciiSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' ||
		c == '\v' || c == '\f'
}

// refOfferBytes is the reference reading of an offer string: the bytes it
// spells, if it is well formed as a string.
func refOfferBytes(s string) (verdict, []byte) {
	v := mustAccept
	var clean []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '+' {
			clean = append(clean, s[i])
			continue
		}
		// A join: something before it, and something after it and the
		// white space that follows.
		if i == 0 || s[i-1] == '+' {
			return mustReject, nil
		}
		before := s[i-1]
		rest := s[i+1:]
		trimmed := strings.TrimLeftFunc(rest, func(r rune) bool {
			return r < 128 && asciiSpace(byte(r))
		})
		if trimmed == "" || trimmed[0] == '+' {
			return mustReject, nil
		}
		if r := []rune(trimmed)[0]; r >= 128 && unicode.IsSpace(r) {
			// White space beyond ASCII: not judged.
			v = either
			trimmed = strings.TrimLeftFunc(rest, unicode.IsSpace)
			if trimmed == "" || trimmed[0] == '+' {
				return mustReject, nil
			}
		}
		if !isBech32(before) || !isBech32(trimmed[0]) {
			// Joins next to the "o" and "1" of the prefix are not
			// judged; next to anything else they are wrong.
			if strings.ContainsRune("oO1", rune(before)) ||
				strings.ContainsRune("oO1", rune(trimmed[0])) {

				v = either
			} else {
				return mustReject, nil
			}
		}
		i = len(s) - len(trimmed) - 1
	}
	str := string(clean)
	if str != strings.ToLower(str) && str != strings.ToUpper(str) {
		return mustReject, nil
	}
	for i := 0; i < len(str); i++ {
		if str[i] >= 128 {
			return mustReject, nil
		}
	}
	str = strings.ToLower(str)
	if !strings.HasPrefix(str, "lno1") {
		return mustReject, nil
	}
	var (
		out  []byte
		acc  uint
		bits uint
	)
	for _, c := range []byte(str[4:]) {
		i := strings.IndexByte(bech32Chars, c)
		if i < 0 {
			return mustReject, nil
		}
		acc = acc<<5 | uint(i)
		bits += 5
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	if bits >= 5 || acc != 0 {
		return mustReject, nil
	}
	return v, out
}

// judgeOffer says whether bytes are a valid offer.
func judgeOffer(b []byte) (verdict, []Rec) {
	v, rs := judgeMsg("offer", b)
	if v == mustReject {
		return v, rs
	}
	val := func(n string) []byte {
		if r := findRec(rs, offerSchema.byName(n).T); r != nil {
			return r.V
		}
		return nil
	}
	num := func(n string) (x uint64) {
		for _, b := range val(n) {
			x = x<<8 | uint64(b)
		}
		return
	}
	if val("node") == nil || len(val("description")) == 0 {
		return mustReject, rs
	}
	lo, hi := num("qmin"), num("qmax")
	if lo != 0 && hi != 0 && lo > hi {
		return mustReject, rs
	}
	if s := val("sig"); s != nil && !verifyDigest(
		val("node"), s, refDigest("offer", "signature", refRoot(rs)),
	) {
		return mustReject, rs
	}
	return v, rs
}

// drawOffer draws the records of a valid offer, signed or not.
func drawOffer(t *rapid.T) []Rec {
	rs := drawCanonical(t, offerSchema, "node", "description")
	if findRec(rs, 240) != nil {
		rs = rs[:len(rs)-1]
	}
	if r := findRec(rs, 10); len(r.V) > 1000 {
		r.V = r.V[:1000]
	}
	if r := findRec(rs, 20); r != nil && len(r.V) > 1000 {
		r.V = r.V[:1000]
	}
	if r := findRec(rs, 12); r != nil && len(r.V) > 1000 {
		r.V = featureBytes([]uint16{9, 100})
	}
	lo, hi := findRec(rs, 22), findRec(rs, 24)
	if lo != nil && hi != nil && bytes.Compare(u64v(lo.V), u64v(hi.V)) > 0 {
		lo.V, hi.V = hi.V, lo.V
	}
	if rapid.IntRange(0, 4).Draw(t, "unknown?") == 0 {
		var out []Rec
		for _, r := range addUnknown(t, offerSchema, rs, 3) {
			if !isSigType(r.T) {
				out = append(out, r)
			}
		}
		rs = out
	}
	if rapid.Bool().Draw(t, "signed") {
		n := rapid.IntRange(0, 60).Draw(t, "signer")
		findRec(rs, 30).V = xonly(pub(n))
		s := signDigest(priv(n),
			refDigest("offer", "signature", refRoot(rs)))
		rs = append(rs, Rec{240, s[:]})
		sortRecs(rs)
	}
	return rs
}

func u64v(v []byte) []byte {
	return append(make([]byte, 8-len(v)), v...)
}

type planC06 struct {
	// Text is the offer string.
	Text HB
	How  string
}

func drawC06(t *rapid.T) planC06 {
	b := encodeRecs(drawOffer(t))
	how := "valid"
	switch rapid.IntRange(0, 11).Draw(t, "bytes") {
	case 0:
		how = "other bytes"
		b = drawWire(t, "offer")
	case 1:
		how = "corrupt bytes"
		b = corrupt(t, b)
	}
	if len(b) > 3000 {
		b = b[:3000]
	}
	s := offerString(b)
	if rapid.IntRange(0, 3).Draw(t, "upper") == 0 {
		s = strings.ToUpper(s)
		how += " upper"
	}
	spaces := []string{"", "", " ", "  ", "\n", "\r\n", "\t",
		" \n \t", "\v", "\f", "\r  "}
	joins := 0
	if rapid.IntRange(0, 2).Draw(t, "joined") > 0 {
		joins = rapid.IntRange(0, 5).Draw(t, "joins")
	}
	if rapid.IntRange(0, 11).Draw(t, "crumbled") == 0 {
		// Every so many characters, as for lines of a given length.
		ws := rapid.SampledFrom(spaces).Draw(t, "every-ws")
		every := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 20, 64}).
			Draw(t, "every")
		var parts []string
		for rest := s; rest != ""; {
			n := min(every, len(rest))
			if len(parts) == 0 {
				n = min(max(n, 5), len(rest))
			}
			parts = append(parts, rest[:n])
			rest = rest[n:]
		}
		s = strings.Join(parts, "+"+ws)
		how = "joined " + how
		joins = 0
	}
	for i := 0; i < joins; i++ {
		lo := min(5, len(s)-1)
		if rapid.IntRange(0, 9).Draw(t, "anywhere") == 0 {
			lo = 1
		}
		at := rapid.OneOf(rapid.IntRange(lo, len(s)-1),
			rapid.Just(len(s)-1), rapid.Just(lo),
		).Draw(t, "at")
		// Only between two plain characters.
		if !isBech32(s[at-1]) || !isBech32(s[at]) {
			continue
		}
		how = "joined " + strings.TrimPrefix(how, "joined ")
		s = s[:at] + "+" + rapid.SampledFrom(spaces).
			Draw(t, "ws") + s[at:]
	}
	for i := rapid.IntRange(0, 2).Draw(t, "corruptions"); i > 0; i-- {
		at := rapid.IntRange(0, len(s)).Draw(t, "c-at")
		at1 := min(at, len(s)-1)
		ws := rapid.SampledFrom([]string{" ", "\n", "\t",
			"  ", "\u00a0", "\u2003", "\r\n"}).
			Draw(t, "c-ws")
		what := rapid.SampledFrom([]string{"insert", "replace",
			"delete", "lead+", "trail+", "double+",
			"space", "lead space", "trail space",
			"space before +", "case", "prefix", "pad",
			"long", "trail+space", "foreign", "truncate",
			"+space+", "checksum"}).Draw(t, "c-what")
		ch := string(bech32Chars[rapid.IntRange(0, 31).
			Draw(t, "c-ch")])
		switch what {
		case "insert":
			s = s[:at] + ch + s[at:]
		case "replace":
			s = s[:at1] + ch + s[at1+1:]
		case "delete":
			s = s[:at1] + s[at1+1:]
		case "lead+":
			s = "+" + s
		case "trail+":
			s += "+"
		case "trail+space":
			s += "+" + ws
		case "double+":
			s = s[:at] + "++" + s[at:]
		case "+space+":
			s = s[:at] + "+" + ws + "+" + s[at:]
		case "space":
			s = s[:at] + ws + s[at:]
		case "lead space":
			s = ws + s
		case "trail space":
			s += ws
		case "space before +":
			s = s[:at] + ws + "+" + s[at:]
		case "case":
			c := s[at1]
			if unicode.IsLetter(rune(c)) {
				c ^= 0x20
			}
			s = s[:at1] + string(rune(c)) + s[at1+1:]
		case "prefix":
			s = rapid.SampledFrom([]string{"lni1", "lnr1",
				"lno", "ln1", "lnoo1", "lno11", "1",
				"", "bc1", "lno1lno1", "LNO1",
				"lno2"}).Draw(t, "c-prefix") + s[min(4, len(s)):]
		case "pad":
			// Any last character.
			s = s[:max(len(s)-1, 0)] + ch
		case "long":
			s += strings.Repeat("q", rapid.IntRange(1, 9).
				Draw(t, "c-q"))
		case "foreign":
			s = s[:at] + rapid.SampledFrom([]string{"b",
				"i", "o", "1", "-", "_", ".", "B",
				"\x00", "\x7f", "é", "\xff", "ſ", "K",
				"!", "="}).Draw(t, "c-foreign") + s[at:]
		case "truncate":
			s = s[:at]
		case "checksum":
			s += "qqqqqq"
		}
		if s == "" {
			s = "+"
		}
		how = "corrupt: " + what
	}
	return planC06{HB(s), how}
}

func init() {
	Add("C06", "strings", 60000, 400000,
		"valid offers spelled in either case with joins and white space "+
			"anywhere, and one or more corruptions of such strings, "+
			"judged by an independent reader. Non-trivial: a join, upper "+
			"case, or a corruption",
		drawC06,
		func(c *C, p planC06) {
			s := string(p.Text)
			c.Class("%s", p.How)
			if p.How != "valid" {
				c.NonTrivial()
			}
			r := readString(s)
			switch r.v {
			case mustAccept:
				c.Class("accept")
			case mustReject:
				c.Class("reject")
			default:
				c.Class("not judged")
			}
			if bad := r.judge(offers.DecodeOfferStr(s)); bad != "" {
				c.Failf("%s", bad)
			}
		})
	s := Add("C06", "rows", 3000, 30000,
		"2 to 6 strings, most of them of the same offer with another or no "+
			"signature, one record changed or added or another spelling, "+
			"decoded one after the other and then at the same time. "+
			"Each is judged as in \"strings\". Non-trivial: some are "+
			"valid and some are not.",
		func(t *rapid.T) planStrings {
			return planStrings{drawNearOffers(t)}
		}, runStringRows)
	s.Procs = 3
}

func runStringRows(c *C, p planStrings) {
	var (
		rs        []*reading
		good, bad int
		wg        sync.WaitGroup
		found     = make([]string, len(p.Texts))
	)
	for _, s := range p.Texts {
		r := readString(string(s))
		rs = append(rs, r)
		if r.v == mustAccept {
			good++
		}
		if r.v == mustReject {
			bad++
		}
	}
	for i, r := range rs {
		r := r
		o, err := offers.DecodeOfferStr(r.text)
		if b := r.judge(o, err); b != "" {
			c.Failf("string %d: %s", i, b)
		}
		c.Kept(func() string { return r.judge(o, err) })
	}
	for i := range rs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					found[i] = fmt.Sprint("panic: ", e)
				}
			}()
			for k := 0; k < 4 && found[i] == ""; k++ {
				found[i] = rs[i].judge(
					offers.DecodeOfferStr(rs[i].text))
			}
		}()
	}
	wg.Wait()
	for i, b := range found {
		if b != "" {
			c.Failf("string %d, with others at the same time: %s", i, b)
		}
	}
	c.recheck()
	if good > 0 && bad > 0 {
		c.NonTrivial()
	}
}

// ---------------------------------------------------------------------------
// C07

type planC07 struct {
	Offer []Rec
	// Decoded makes the offer by decoding, otherwise it is built in memory.
	Decoded  bool
	Amount   uint64
	Quantity uint64
	Key      int
	Note     HB
}

func near(t *rapid.T, label string, around ...uint64) uint64 {
	a := rapid.SampledFrom(around).Draw(t, label+"-around")
	switch rapid.IntRange(0, 5).Draw(t, label+"-how") {
	case 0:
		return 0
	case 1, 2:
		return a
	case 3:
		return a - 1
	case 4:
		return a + 1
	default:
		return drawU64(t, label)
	}
}

// note is a note for a request, at times a very long one.
func note(t *rapid.T) HB {
	if rapid.IntRange(0, 29).Draw(t, "long-note") == 0 {
		return HB(Blob{N: rapid.SampledFrom([]int{127, 128, 252, 253, 255,
			256, 512, 513, 1024, 1025, 4097, 65534, 65535}).
			Draw(t, "note-n"), Seed: 9}.Bytes())
	}
	return HB(rapid.StringN(0, 10, 30).Draw(t, "note"))
}

func init() {
	Add("C07", "terms", 40000, 300000,
		"offers with any amount and any combination of quantity bounds, and "+
			"requests on, next to and far from the bounds, with payer "+
			"keys of either parity; successful requests are signed over "+
			"the digest the code reports, encoded, decoded and "+
			"validated. Non-trivial: a bound or minimum amount is set",
		func(t *rapid.T) planC07 {
			rs := drawCanonical(t, offerSchema, "node", "description")
			if findRec(rs, 240) != nil {
				rs = rs[:len(rs)-1]
			}
			if r := findRec(rs, 10); len(r.V) > 300 {
				r.V = r.V[:300]
			}
			small := func(ty uint64, label string) {
				r := findRec(rs, ty)
				if r != nil && rapid.IntRange(0, 3).Draw(t, label) > 0 {
					r.V = tu64(rapid.Uint64Range(1, 20).
						Draw(t, label+"-small"))
				}
			}
			small(22, "qmin-s")
			small(24, "qmax-s")
			small(8, "amount-s")
			get := func(ty uint64) (v uint64) {
				if r := findRec(rs, ty); r != nil {
					for _, b := range r.V {
						v = v<<8 | uint64(b)
					}
				}
				return
			}
			return planC07{
				Offer:    rs,
				Decoded:  rapid.Bool().Draw(t, "decoded"),
				Amount:   near(t, "amount", get(8), get(8), 1),
				Quantity: near(t, "quantity", get(22), get(24), 1),
				Key:      rapid.IntRange(0, 60).Draw(t, "key"),
				Note:     note(t),
			}
		}, runC07)
}

func runC07(c *C, p planC07) {
	var m *msg
	if p.Decoded {
		var err error
		m, err = decodeMsg("offer", encodeRecs(p.Offer))
		if err != nil {
			// C05's question.
			return
		}
	} else {
		m = build("offer", p.Offer)
		m.setRoot(refRoot(p.Offer))
	}
	o := m.o
	lo, hi := o.QuantityMin, o.QuantityMax
	if lo != 0 || hi != 0 || o.MinimumAmount != 0 {
		c.NonTrivial()
	}
	why := ""
	switch {
	case p.Amount < uint64(o.MinimumAmount):
		why = "the amount is below the minimum"
	case (lo != 0 || hi != 0) && p.Quantity == 0:
		why = "the offer needs a quantity"
	case lo != 0 && p.Quantity < lo:
		why = "the quantity is below the minimum"
	case hi != 0 && p.Quantity > hi:
		why = "the quantity is above the maximum"
	case lo == 0 && hi == 0 && p.Quantity != 0:
		why = "the offer takes no quantity"
	}
	c.Class("bounds min=%v max=%v quantity=%v", lo != 0, hi != 0,
		p.Quantity != 0)
	terms := fmt.Sprintf("offer amount %d quantity %d..%d, request for %d "+
		"quantity %d", o.MinimumAmount, lo, hi, p.Amount, p.Quantity)

	r, err := lnwire.NewInvoiceRequest(
		o, lndwire.MilliSatoshi(p.Amount), p.Quantity, pub(p.Key),
		string(p.Note),
	)
	if why != "" {
		c.Class("refused: %s", why)
		if err == nil {
			c.Failf("%s: %s, but the request is made", terms, why)
		}
		return
	}
	c.Class("made")
	if err != nil {
		c.Failf("%s: within the terms, but refused: %v", terms, err)
	}

	// What was asked for, on the wire.
	root := refRoot(p.Offer)
	var want []Rec
	add := func(name string, v []byte) {
		want = append(want, Rec{requestSchema.byName(name).T, v})
	}
	if x := findRec(p.Offer, 2); x != nil && !bytes.Equal(
		x.V, make([]byte, 32)) {

		add("chain", x.V)
	}
	add("offerid", root)
	if p.Amount != 0 {
		add("amount", tu64(p.Amount))
	}
	if x := findRec(p.Offer, 12); x != nil {
		add("features", x.V)
	}
	if p.Quantity != 0 {
		add("quantity", tu64(p.Quantity))
	}
	add("payer", xonly(pub(p.Key)))
	if len(p.Note) > 0 {
		add("note", p.Note)
	}

	rm := &msg{kind: "invoice_request", r: r}
	if bad := rm.mismatch(want); bad != "" {
		c.Failf("%s: request made differs: %s", terms, bad)
	}
	if !bytes.Equal(rm.root(), refRoot(want)) {
		c.Failf("%s: request root %x, want %x", terms, rm.root(),
			refRoot(want))
	}
	d := r.SignatureDigest()
	sig := signDigest(priv(p.Key), d[:])
	r.Signature = &sig
	if err := r.Validate(); err != nil {
		c.Failf("%s: signed request does not validate: %v", terms, err)
	}
	b, err := lnwire.EncodeInvoiceRequest(r)
	if err != nil {
		c.Failf("%s: encode request: %v", terms, err)
	}
	back, err := decodeMsg("invoice_request", b)
	if err != nil {
		c.Failf("%s: decode request %x: %v", terms, b, err)
	}
	if bad := back.mismatch(append(want, Rec{240, sig[:]})); bad != "" {
		c.Failf("%s: request after a round trip: %s", terms, bad)
	}
	if err := back.validate(); err != nil {
		c.Failf("%s: request does not validate after a round trip: %v",
			terms, err)
	}
	c.Kept(func() string {
		return back.mismatch(append(want, Rec{240, sig[:]}))
	})
}

// ---------------------------------------------------------------------------
// C08

type planC08 struct {
	Kind    string
	Recs    []Rec
	Decoded bool
	Sign    bool
	Key     int
}

func init() {
	Add("C08", "required", 40000, 250000,
		"every subset of present fields of each message type (required ones "+
			"present with probability about 5/6 each), built in memory "+
			"or decoded, unsigned or properly signed. Non-trivial: "+
			"something required is missing or an optional field is "+
			"present",
		func(t *rapid.T) planC08 {
			kind := rapid.SampledFrom(schemaNames).Draw(t, "kind")
			sc := schemas[kind]
			var must []string
			for _, f := range requiredFields(kind) {
				if rapid.IntRange(0, 5).Draw(t, "req-"+f) > 0 {
					must = append(must, f)
				}
			}
			rs := drawCanonical(t, sc, must...)
			if rapid.IntRange(0, 3).Draw(t, "defaults?") == 0 {
				// Present, but with nothing in them.
				rs = drawDefaults(t, sc, rs)
			}
			if findRec(rs, 240) != nil {
				rs = rs[:len(rs)-1]
			}
			if rapid.IntRange(0, 1).Draw(t, "small-q") == 0 {
				for _, ty := range []uint64{22, 24} {
					if r := findRec(rs, ty); r != nil {
						r.V = tu64(rapid.Uint64Range(0, 4).
							Draw(t, "q"))
					}
				}
			}
			if !hasContent(rs) {
				rs = []Rec{{1, []byte{7}}}
			}
			return planC08{
				Kind: kind, Recs: rs,
				Decoded: rapid.Bool().Draw(t, "decoded"),
				Sign:    rapid.IntRange(0, 4).Draw(t, "sign") > 0,
				Key:     rapid.IntRange(0, 60).Draw(t, "key"),
			}
		}, runC08)
}

func runC08(c *C, p planC08) {
	sc := schemas[p.Kind]
	rs := append([]Rec{}, p.Recs...)
	if k := findRec(rs, sc.byName(keyField(p.Kind)).T); k != nil {
		if len(k.V) == 32 {
			k.V = xonly(pub(p.Key))
		} else {
			k.V = pub(p.Key).SerializeCompressed()
		}
	}
	root := refRoot(rs)
	if p.Sign {
		s := signDigest(priv(p.Key), refDigest(p.Kind, "signature", root))
		rs = append(rs, Rec{240, s[:]})
		sortRecs(rs)
	}

	var m *msg
	if p.Decoded {
		var err error
		if m, err = decodeMsg(p.Kind, encodeRecs(rs)); err != nil {
			c.Class("not decodable")
			return
		}
	} else {
		m = build(p.Kind, rs)
		m.setRoot(root)
	}

	val := func(n string) []byte {
		if r := findRec(rs, sc.byName(n).T); r != nil {
			return r.V
		}
		return nil
	}
	num := func(n string) (x uint64) {
		for _, b := range val(n) {
			x = x<<8 | uint64(b)
		}
		return
	}
	var missing []string
	need := func(n string) {
		v := val(n)
		empty := v == nil || len(v) == 0
		switch sc.byName(n).Kind {
		case kHash, kTU64:
			empty = len(bytes.Trim(v, "\x00")) == 0
		}
		if empty {
			missing = append(missing, n)
		}
	}
	for _, f := range requiredFields(p.Kind) {
		need(f)
	}
	if p.Kind == "invoice_request" && !p.Sign {
		missing = append(missing, "signature")
	}
	if p.Kind == "offer" {
		lo, hi := num("qmin"), num("qmax")
		if lo != 0 && hi != 0 && lo > hi {
			missing = append(missing, "valid quantity range")
			c.Class("offer/range inverted")
		}
		c.ClassIf(lo != 0 && lo == hi, "offer/range of one")
	}
	if len(missing) > 0 || len(rs) > len(requiredFields(p.Kind)) {
		c.NonTrivial()
	}
	err := m.validate()
	desc := fmt.Sprintf("%s with records %v (decoded: %v, signed: %v)",
		p.Kind, recNames(sc, rs), p.Decoded, p.Sign)
	if len(missing) > 0 {
		c.Class("%s/invalid", p.Kind)
		if err == nil {
			c.Failf("%s lacks %v but is valid", desc, missing)
		}
		return
	}
	c.Class("%s/valid", p.Kind)
	if err != nil {
		c.Failf("%s has all that is required but is invalid: %v", desc,
			err)
	}
}

func recNames(sc *schema, rs []Rec) (out []string) {
	for _, r := range rs {
		n := fmt.Sprint(r.T)
		if f := sc.byType(r.T); f != nil {
			n = f.Name
		}
		v := r.V
		if len(v) > 8 {
			v = v[:8]
		}
		out = append(out, fmt.Sprintf("%s=%x", n, []byte(v)))
	}
	return
}
