package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// craft describes an onion message made by hand for one node.
type craft struct {
	// Relay or final.
	Relay    bool
	Next     int
	Override int
	Pad      int
	Finals   []finalPlan
	Reply    *pathPlan
	// Content fault.
	Fault string
	// Mutation of the bytes on the wire.
	Mutate string
	At     int
	By     int
	// Again repeats the bytes of an earlier message (1 is the first).
	Again int
	// SendErr makes lnd refuse the forward.
	SendErr bool
	// From is the peer it comes from: another node, the next node, or the
	// node itself.
	From int
	// Extra adds records that nobody knows: 1 to the data, 2 to the
	// payload, 3 to both.
	Extra int
}

// next is the node a crafted relay names as the next: another one, or the
// node itself.
func (cr craft) next(node *simNode) *btcec.PublicKey {
	if cr.Next == 20 {
		return node.pub
	}
	return nodeKey(50 + cr.Next).PubKey()
}

func (cr craft) from(node *simNode) route.Vertex {
	switch cr.From {
	case 1:
		return vertex(cr.next(node))
	case 2:
		return vertex(node.pub)
	}
	return vertex(nodeKey(49 - cr.From).PubKey())
}

var relayFaults = []string{
	"final payload at a relay", "final payload at a relay", "no data",
	"garbled data", "data for another node", "no next node", "malformed data",
	"bad next node key", "bad override key", "short next node key",
	"malformed payload", "truncated payload", "unordered payload",
}

var finalFaults = []string{
	"malformed payload", "truncated payload", "unordered payload",
	"malformed reply path", "reply path with a bad key",
	"reply path without hops", "overlong reply path",
}

// Overrides other than with a key of its own: with the blinding point that the
// message has, and with the next node's and the node's own key.
const (
	overSame = 1000 + iota
	overNext
	overSelf
)

func drawCraft(t *rapid.T, index int) craft {
	cr := craft{
		Relay: rapid.IntRange(0, 2).Draw(t, "relay") > 0,
		Next:  rapid.IntRange(0, 20).Draw(t, "next"),
	}
	cr.Override = rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2, 3,
		overSame, overNext, overSelf}).Draw(t, "override")
	cr.Pad = rapid.SampledFrom([]int{0, 0, 2, 30, 255, 260}).Draw(t, "pad")
	cr.From = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "from")
	cr.Extra = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).
		Draw(t, "extra")
	if !cr.Relay || rapid.Bool().Draw(t, "inner") {
		cr.Finals = drawNetFinals(t, 200)
		if rapid.IntRange(0, 2).Draw(t, "reply?") == 0 {
			cr.Reply = drawPath(t, false)
			if len(cr.Reply.Hops) > 2 {
				cr.Reply.Hops = cr.Reply.Hops[:2]
			}
		}
	}
	if len(cr.Finals) > 0 || cr.Reply != nil {
		// Both have to fit.
		cr.Pad = min(cr.Pad, 30)
	}
	switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
	case k < 4:
	case k < 7:
		fs := finalFaults
		if cr.Relay {
			fs = relayFaults
		}
		cr.Fault = rapid.SampledFrom(fs).Draw(t, "fault")
		cr.At = rapid.IntRange(0, 2000).Draw(t, "at")
	case k < 9:
		cr.Mutate = rapid.SampledFrom([]string{
			"flip", "flip", "flip", "truncate", "version", "blinding",
			"length", "other node",
		}).Draw(t, "mutate")
		cr.At = rapid.IntRange(0, wireSize-1).Draw(t, "at")
		if rapid.IntRange(0, 3).Draw(t, "head") == 0 {
			cr.At = rapid.IntRange(0, 70).Draw(t, "at")
		}
		cr.By = rapid.IntRange(1, 255).Draw(t, "by")
	}
	if index > 0 && rapid.IntRange(0, 3).Draw(t, "again?") == 0 {
		cr.Again = rapid.IntRange(1, index).Draw(t, "again")
	}
	cr.SendErr = rapid.IntRange(0, 7).Draw(t, "senderr") == 0
	return cr
}

// bytes builds the message for the node; seq makes its keys unique.
func (cr craft) bytes(node *simNode, nextKey *btcec.PublicKey, seq int) []byte {
	var (
		session  = priv(400_000 + seq)
		blinding = priv(500_000 + seq)
		over     *btcec.PublicKey
		reply    = cr.Reply.build()
		self     = node.pub
	)
	switch {
	case cr.Override == overSame:
		over = blinding.PubKey()
	case cr.Override == overNext:
		over = nextKey
	case cr.Override == overSelf:
		over = node.pub
	case cr.Override >= 0:
		over = pub(600_000 + cr.Override)
	}
	if cr.Mutate == "other node" {
		self = pub(610_000)
	}
	badKey := append([]byte{2}, bytes.Repeat([]byte{0xff}, 32)...)

	data := refRouteData(cr.Pad, nextKey, over)
	switch cr.Fault {
	case "no next node":
		data = refRouteData(cr.Pad+2, nil, over)
	case "malformed data":
		data = append(data, 9, 5, 1)
	case "bad next node key":
		data = encodeRecs([]Rec{{4, badKey}})
	case "bad override key":
		data = encodeRecs([]Rec{
			{4, nextKey.SerializeCompressed()}, {8, badKey},
		})
	case "short next node key":
		data = encodeRecs([]Rec{{4, nextKey.SerializeCompressed()[:32]}})
	}
	if cr.Extra&1 != 0 && cr.Fault == "" {
		rs, _ := parseRecs(data)
		rs = append(rs, Rec{3, []byte{1, 2}}, Rec{65537, []byte{}})
		sortRecs(rs)
		data = encodeRecs(rs)
	}
	hops := []*sphinx.BlindedPathHop{{NodePub: self, Payload: data}}
	if cr.Relay {
		hops = append(hops, &sphinx.BlindedPathHop{NodePub: nextKey})
	} else {
		hops[0].Payload = nil
	}
	bp, err := sphinx.BuildBlindedPath(blinding, hops)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	enc := bp.EncryptedData[0]
	switch cr.Fault {
	case "no data":
		enc = nil
	case "garbled data":
		enc[cr.At%len(enc)] ^= 1
	case "data for another node":
		o, _ := sphinx.BuildBlindedPath(blinding, []*sphinx.BlindedPathHop{
			{NodePub: pub(610_001), Payload: data},
		})
		enc = o.EncryptedData[0]
	}

	var first []byte
	if cr.Relay {
		var f []finalPlan
		if cr.Fault == "final payload at a relay" {
			// Any type, any value, any number of them.
			ts := []uint64{64, 65, 66, 255, 1 << 16, 1<<63 + 1,
				1<<64 - 1}
			vs := []Blob{lit([]byte{7}), lit([]byte{}),
				lit([]byte{0}), {N: 40, Seed: cr.At}}
			f = []finalPlan{{
				T: ts[cr.At%len(ts)], V: vs[(cr.At/7)%len(vs)],
			}}
			if cr.At%5 == 0 {
				f = distinctFinals(append(f, finalPlan{
					T: ts[(cr.At/28)%len(ts)],
					V: vs[(cr.At/196)%len(vs)],
				}))
			}
		}
		first = refPayload(nil, enc, f)
		if cr.Fault == "no data" {
			// Something has to be there for the payload to be one.
			first = encodeRecs([]Rec{{61, []byte{1}}})
		}
	} else {
		first = refPayload(reply, enc, cr.Finals)
	}
	switch cr.Fault {
	case "malformed payload":
		first = append([]byte{4, 200}, first[2:]...)
		first = append(first[:2:2], bytes.Repeat([]byte{1}, 20)...)
	case "truncated payload":
		first = append(first, encodeRec(Rec{1<<64 - 1, make([]byte, 9)})...)
		first = first[:len(first)-1]
	case "unordered payload":
		first = append(encodeRec(Rec{5, []byte{1}}), first...)
		first = append(first, encodeRec(Rec{3, []byte{1}})...)
	case "malformed reply path", "reply path with a bad key",
		"reply path without hops", "overlong reply path":

		rp := refReplyPath(refRoute(
			priv(3), []*btcec.PublicKey{pub(4), pub(5)}, nil,
		))
		switch cr.Fault {
		case "malformed reply path":
			rp = rp[:len(rp)-1-cr.At%(len(rp)-1)]
		case "reply path with a bad key":
			copy(rp[33*(cr.At%2):], badKey)
		case "reply path without hops":
			rp = append(rp[:66:66], 0)
		case "overlong reply path":
			rp = append(rp, 0)
		}
		rs := []Rec{{2, rp}}
		if len(enc) > 0 {
			rs = append(rs, Rec{4, enc})
		}
		for _, f := range cr.Finals {
			rs = append(rs, Rec{f.T, f.V.Bytes()})
		}
		sortRecs(rs)
		first = encodeRecs(rs)
	}

	if cr.Extra&2 != 0 && cr.Fault == "" {
		rs, _ := parseRecs(first)
		rs = append(rs, Rec{3, []byte{}}, Rec{63, []byte{9, 9, 9}})
		sortRecs(rs)
		first = encodeRecs(rs)
	}

	keys := []*btcec.PublicKey{bp.BlindedHops[0]}
	payloads := [][]byte{first}
	if cr.Relay {
		keys = append(keys, bp.BlindedHops[1])
		payloads = append(payloads, refPayload(
			reply, bp.EncryptedData[1], cr.Finals,
		))
	}
	wire, err := makeOnion(session, bp.BlindingPoint, keys, payloads)
	if err != nil {
		panic(harnessError{"crafted onion: " + err.Error()})
	}
	switch cr.Mutate {
	case "flip":
		wire[cr.At%len(wire)] ^= byte(cr.By)
	case "truncate":
		wire = wire[:cr.At%len(wire)]
	case "version":
		wire[35] = byte(cr.By)
	case "blinding":
		copy(wire, pub(620_000+cr.By).SerializeCompressed())
	case "length":
		wire[34] ^= byte(cr.By)
	}
	return wire
}

// outcome is what a message must cause.
type outcome struct {
	forward   *wireMsg
	deliver   []delivery
	enc       []byte
	processed bool
	why       string
}

// predict works out, with an independent router, what the node must do.
func predict(ref *refRouter, wire []byte, has map[uint64]bool) outcome {
	pl, err := ref.peel(wire)
	if err != nil {
		return outcome{why: fmt.Sprintf("not processable (%v)", err)}
	}
	finals, reply, badReply := finalsOf(pl.Recs)
	switch {
	case badReply:
		return outcome{why: "malformed reply path"}
	case reply != nil && len(reply.Hops) == 0:
		return outcome{why: "reply path without hops"}
	}
	if pl.Final {
		o := outcome{processed: true, why: "final"}
		if enc := findRec(pl.Recs, 4); enc != nil {
			o.enc = enc.V
		}
		for _, f := range finals {
			if has[f.T] {
				o.deliver = append(o.deliver, delivery{
					Type: f.T, Value: f.V, Reply: reply,
				})
			}
		}
		return o
	}
	switch {
	case len(finals) > 0:
		return outcome{why: "final payloads at a relay"}
	case pl.DataErr != nil:
		return outcome{why: fmt.Sprintf("route data: %v", pl.DataErr)}
	case pl.Next == nil:
		return outcome{why: "no next node"}
	}
	return outcome{
		processed: true, why: "relay",
		forward: &wireMsg{
			To: vertex(pl.Next), Type: onionType, Data: pl.NextWire,
		},
	}
}

// effect compares what happened with the prediction.
func (o outcome) effect(sends []lndclient.CustomMessage,
	got []delivery) string {

	switch {
	case o.forward == nil && len(sends) > 0:
		return fmt.Sprintf("sent a message to %v, expected nothing to be "+
			"sent", sends[0].Peer)
	case o.forward != nil && len(sends) != 1:
		return fmt.Sprintf("sent %d messages, expected one", len(sends))
	case o.forward != nil && sends[0].Peer != o.forward.To:
		return fmt.Sprintf("forwarded to %v, the route data says %v",
			sends[0].Peer, o.forward.To)
	case o.forward != nil && sends[0].MsgType != onionType:
		return fmt.Sprintf("forwarded as type %d", sends[0].MsgType)
	case o.forward != nil && !bytes.Equal(sends[0].Data, o.forward.Data):
		if len(sends[0].Data) < 33 || !bytes.Equal(sends[0].Data[:33],
			o.forward.Data[:33]) {

			return fmt.Sprintf("forwarded with blinding point %x, "+
				"want %x", sends[0].Data[:33],
				o.forward.Data[:33])
		}
		return "the forwarded packet is not the peeled one"
	}
	for _, d := range got {
		if !bytes.Equal(d.Enc, o.enc) {
			return fmt.Sprintf("%s came with encrypted data %x, the "+
				"message has %x", d, d.Enc, o.enc)
		}
	}
	return diffDeliveries(got, o.deliver)
}

// watch intercepts what a node sends.
type watch struct {
	mu    sync.Mutex
	sends []lndclient.CustomMessage
	err   error
}

func (w *watch) attach(s *simNode) {
	s.lnd.send = func(_ context.Context, m lndclient.CustomMessage) error {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.sends = append(w.sends, m)
		return w.err
	}
}

func (w *watch) set(err error) {
	w.mu.Lock()
	w.err = err
	w.mu.Unlock()
}

func (w *watch) take() []lndclient.CustomMessage {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := w.sends
	w.sends = nil
	return out
}

func (w *watch) count() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.sends)
}

func (s *simNode) takeDeliveries() []delivery {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := s.got
	s.got = nil
	return out
}

type planC13 struct {
	Handlers []uint64
	Items    []craft
}

func init() {
	Add("C13", "single-relay", 8000, 60000,
		"one real messenger and 1 to 6 crafted onion messages: relays and "+
			"final messages, well formed or with one of a dozen content "+
			"faults, byte flips and truncations anywhere, changed "+
			"blinding points, versions and lengths, messages for another "+
			"node, exact replays, failing sends; expectations come from "+
			"an independent router; non-trivial: a message was forwarded "+
			"or a non-trivially bad one refused",
		func(t *rapid.T) planC13 {
			p := planC13{Handlers: rapid.SliceOfNDistinct(
				rapid.SampledFrom([]uint64{64, 65, 66, 67, 69, 255,
					65536, 1<<64 - 1}), 0, 6,
				func(v uint64) uint64 { return v },
			).Draw(t, "handlers")}
			n := rapid.IntRange(1, 6).Draw(t, "items")
			for i := 0; i < n; i++ {
				p.Items = append(p.Items, drawCraft(t, i))
			}
			return p
		}, runC13)
}

func runC13(c *C, p planC13) {
	n := newNet(c)
	s := n.run()
	var w watch
	w.attach(s)
	has := map[uint64]bool{}
	for _, t := range p.Handlers {
		if !has[t] {
			has[t] = true
			s.listen(t)
		}
	}
	ref := newRefRouter(s.priv)
	var past [][]byte
	for i, it := range p.Items {
		var wire []byte
		if it.Again > 0 && it.Again <= len(past) {
			wire = past[it.Again-1]
		} else {
			wire = it.bytes(s, it.next(s), i)
		}
		past = append(past, wire)
		o := predict(ref, wire, has)
		w.set(nil)
		if it.SendErr {
			w.set(errors.New("lnd refuses"))
		}
		s.push(it.from(s), onionType, wire)
		s.barrier()
		// Wait for a slow node only if something is missing.
		for k := 0; k < 40 && (o.forward != nil && w.count() == 0 ||
			len(o.deliver) > len(s.deliveries())); k++ {

			s.pause(k)
		}
		if bad := o.effect(w.take(), s.takeDeliveries()); bad != "" {
			c.Failf("message %d (%s; fault %q, mutation %q, replay of "+
				"%d): %s\nmessage %.160s...", i, o.why, it.Fault,
				it.Mutate, it.Again, bad, hex.EncodeToString(wire))
		}
		switch {
		case it.Again > 0:
			c.Class("replay: %v", o.processed)
			c.NonTrivial()
		case it.Mutate != "":
			c.Class("mutation %s: %v", it.Mutate, o.processed)
		case it.Fault != "":
			c.Class("fault %s", it.Fault)
			c.NonTrivial()
		case o.forward != nil:
			c.Class("forwarded, override %v", it.Override >= 0)
			c.NonTrivial()
		default:
			c.Class("final")
		}
	}
	if e := s.shutdownErrs(); len(e) > 0 {
		c.Failf("the node asked for shutdown: %v", e)
	}
}

func (s *simNode) pause(k int) {
	s.barrier()
	sleepMs(k * 2)
}

// ---------------------------------------------------------------------------
// C14

// nodeErrs are errors a handler or lnd may come back with.
var nodeErrs = []error{
	errors.New("plain"), context.Canceled, context.DeadlineExceeded, io.EOF,
	onionmsg.ErrShuttingDown, onionmsg.ErrLNDShutdown,
	onionmsg.ErrBadMessage, onionmsg.ErrHandlerNotFound,
	rpcserver.ErrShuttingDown,
	status.Error(codes.Unavailable, "gone"),
	fmt.Errorf("wrapped: %w", onionmsg.ErrShuttingDown),
	fmt.Errorf("wrapped: %w", onionmsg.ErrLNDShutdown),
	fmt.Errorf("twice: %w", fmt.Errorf("once: %w", io.EOF)),
	errors.New(""),
}

type itemC14 struct {
	Craft *craft
	Junk  *Blob
	// Shape wraps junk: "" raw, "onion" with a valid blinding point and
	// length, "packet" additionally with a valid packet header.
	Shape string
	Type  uint32
	// Err selects what handlers (or sends) fail with, 0 for nothing.
	Err int
	// SignErr is the number of signer calls after which the signer fails;
	// -1 for never.
	SignErr int
}

type planC14 struct {
	Items []itemC14
}

var c14Types = []uint64{64, 65, 66, 67, 69, 255, 65536, 1<<64 - 1}

func drawItemC14(t *rapid.T, i int) itemC14 {
	it := itemC14{Type: onionType, SignErr: -1}
	if rapid.IntRange(0, 9).Draw(t, "other") == 0 {
		it.Type = rapid.SampledFrom([]uint32{0, 1, 512, 514, 32768, 32769,
			65535, 65536 + 513, 1<<32 - 1}).Draw(t, "type")
	}
	if rapid.IntRange(0, 2).Draw(t, "junk?") == 0 {
		b := rapid.OneOf(
			rapid.Custom(func(t *rapid.T) Blob {
				return lit(rapid.SliceOfN(rapid.Byte(), 0, 80).
					Draw(t, "raw"))
			}),
			rapid.Custom(func(t *rapid.T) Blob {
				return Blob{
					N: rapid.SampledFrom([]int{0, 1, 32, 33,
						34, 35, 36, 1365, 1366, 1367, 1400,
						1401, 1402, 65535, 100000}).
						Draw(t, "n"),
					Seed: rapid.IntRange(0, 99).Draw(t, "s"),
				}
			}),
		).Draw(t, "junk")
		it.Junk = &b
		it.Shape = rapid.SampledFrom([]string{"", "onion", "packet"}).
			Draw(t, "shape")
		return it
	}
	cr := drawCraft(t, 0)
	it.Craft = &cr
	if rapid.IntRange(0, 2).Draw(t, "err?") == 0 {
		it.Err = rapid.IntRange(1, len(nodeErrs)).Draw(t, "err")
	}
	if rapid.IntRange(0, 7).Draw(t, "signer") == 0 {
		it.SignErr = rapid.IntRange(0, 3).Draw(t, "sign-at")
	}
	return it
}

func init() {
	Add("C14", "sequences", 5000, 60000,
		"one real messenger with handlers for eight types and 1 to 10 "+
			"incoming messages: random bytes, junk in a valid envelope, "+
			"other message types, crafted onions that are valid or "+
			"faulty, with handlers, sends or the signer failing with "+
			"any of fourteen errors, followed by a valid final message "+
			"and a valid relay; non-trivial: at least two of bad input, "+
			"failure and other type came before a valid message",
		func(t *rapid.T) planC14 {
			var p planC14
			n := rapid.IntRange(1, 10).Draw(t, "items")
			for i := 0; i < n; i++ {
				p.Items = append(p.Items, drawItemC14(t, i))
			}
			return p
		}, runC14)
}

func runC14(c *C, p planC14) {
	n := newNet(c)
	s := n.run()
	var (
		w       watch
		mu      sync.Mutex
		failing error
		signIn  = -1
	)
	w.attach(s)
	s.lnd.signErr = func() error {
		mu.Lock()
		defer mu.Unlock()
		if signIn < 0 {
			return nil
		}
		if signIn > 0 {
			signIn--
			return nil
		}
		return errors.New("signer fails")
	}
	has := map[uint64]bool{}
	for _, t := range c14Types {
		has[t] = true
		err := s.m.RegisterHandler(tlv.Type(t), s.handler(t, 0,
			func([]byte) error {
				mu.Lock()
				defer mu.Unlock()
				return failing
			}))
		if err != nil {
			c.Failf("register: %v", err)
		}
	}
	ref := newRefRouter(s.priv)
	items := append([]itemC14{}, p.Items...)
	probe := finalPlan{T: 64, V: lit([]byte("probe"))}
	items = append(items,
		itemC14{Type: onionType, SignErr: -1, Craft: &craft{
			Override: -1, Finals: []finalPlan{probe},
		}},
		itemC14{Type: onionType, SignErr: -1, Craft: &craft{
			Relay: true, Override: -1,
		}},
	)
	trouble := map[string]bool{}
	for i, it := range items {
		var (
			wire []byte
			o    outcome
		)
		if it.Junk != nil {
			wire = it.Junk.Bytes()
			switch it.Shape {
			case "onion":
				if len(wire) > 65535 {
					wire = wire[:65535]
				}
				wire = joinWire(pub(i), wire)
			case "packet":
				pkt := make([]byte, onionSize)
				copy(pkt[34:], wire)
				copy(pkt[1:], pub(i+1).SerializeCompressed())
				wire = joinWire(pub(i), pkt)
			}
			o = outcome{why: "junk"}
			trouble["junk"] = true
		} else {
			wire = it.Craft.bytes(s, it.Craft.next(s), 1000+i)
			if it.Type == onionType {
				o = predict(ref, wire, has)
			}
			if !o.processed {
				trouble["bad onion"] = true
			}
		}
		if it.Type != onionType {
			o = outcome{why: "other type"}
			trouble["other type"] = true
		}
		var err error
		if it.Err > 0 {
			err = nodeErrs[(it.Err-1)%len(nodeErrs)]
			trouble["failure"] = true
		}
		mu.Lock()
		failing, signIn = err, it.SignErr
		mu.Unlock()
		w.set(err)

		from := vertex(nodeKey(49).PubKey())
		if it.Craft != nil {
			from = it.Craft.from(s)
		}
		s.push(from, it.Type, wire)
		s.barrier()
		if it.SignErr >= 0 {
			// Whatever came of it.
			trouble["signer"] = true
			mu.Lock()
			signIn = -1
			mu.Unlock()
			w.take()
			s.takeDeliveries()
			continue
		}
		for k := 0; k < 40 && (o.forward != nil && w.count() == 0 ||
			len(o.deliver) > len(s.deliveries())); k++ {

			s.pause(k)
		}
		sends, got := w.take(), s.takeDeliveries()
		if bad := o.effect(sends, got); bad != "" {
			c.Failf("message %d (%s, after %v): %s", i, o.why,
				keysOf(trouble), bad)
		}
		if e := s.shutdownErrs(); len(e) > 0 {
			c.Failf("message %d (%s) made the node ask for shutdown: %v",
				i, o.why, e)
		}
	}
	for k := range trouble {
		c.Class("%s", k)
	}
	if len(trouble) > 1 {
		c.NonTrivial()
	}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}
