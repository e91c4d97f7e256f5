package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// The checks in this file have many things wait for the same thing at the same
// time. Nothing promises a limit to their number.

// turnstile holds callers until as many as can come have come.
type turnstile struct {
	mu       sync.Mutex
	op       string
	open     bool
	held     int
	done     int
	released chan struct{}
	// Every fail-th caller held is turned away with an error.
	fail   int
	failed int
	err    error
}

func newTurnstile(op string, fail int, err error) *turnstile {
	return &turnstile{
		op: op, fail: fail, err: err, released: make(chan struct{}),
	}
}

func (g *turnstile) pass(ctx context.Context, op string) error {
	if op != g.op {
		return nil
	}
	g.mu.Lock()
	if g.open {
		g.mu.Unlock()
		return nil
	}
	g.held++
	turned := g.fail > 0 && g.held%g.fail == 0
	if turned {
		g.failed++
	}
	g.mu.Unlock()
	<-g.released
	if turned {
		return g.err
	}
	return nil
}

// release opens the turnstile once n callers are held or through, or none has
// come for a while. It returns how many were held.
func (g *turnstile) release(n int) int {
	last, since := -1, time.Now()
	for {
		g.mu.Lock()
		if k := g.held + g.done; k != last {
			last, since = k, time.Now()
		}
		if last >= n || time.Since(since) > 300*time.Millisecond {
			g.open = true
			close(g.released)
			held := g.held
			g.mu.Unlock()
			return held
		}
		g.mu.Unlock()
		time.Sleep(2 * time.Millisecond)
	}
}

// ---------------------------------------------------------------------------
// C17, C18 and C20: many sends that wait for lnd.

type planHeld struct {
	// Op is the call to lnd that holds them.
	Op     string
	Many   int
	Direct bool
	RPC    bool
	// Same: all go to the same node.
	Same bool
	// Fail: every so many of the calls that are held fail.
	Fail int
	Err  int
}

func drawHeldMany(t *rapid.T) int {
	return rapid.SampledFrom([]int{9, 17, 33, 65, 101, 129, 257, 300}).
		Draw(t, "many")
}

func drawHeld(t *rapid.T, direct, rpc bool) planHeld {
	p := planHeld{
		Many: drawHeldMany(t), Direct: direct, RPC: rpc,
		Same: rapid.Bool().Draw(t, "same"),
		Fail: rapid.SampledFrom([]int{0, 0, 2, 7}).Draw(t, "fail"),
		Err:  rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
	}
	ops := []string{"send", "queryroutes"}
	if direct {
		ops = []string{"send", "peers", "nodeinfo", "connect"}
	}
	p.Op = rapid.SampledFrom(ops).Draw(t, "op")
	return p
}

func runHeld(c *C, p planHeld) {
	var (
		net  = newNet(c)
		n    *simNode
		gate = newTurnstile(p.Op, p.Fail, lndErr(p.Err))
		mu   sync.Mutex
		met  = map[route.Vertex]bool{}
		via  = 2000
		dest = func(i int) int {
			if p.Same {
				return 1000
			}
			return 1000 + i
		}
	)
	if p.RPC {
		n = net.runServer()
	} else {
		n = net.messenger()
	}
	n.lnd.ctxHook = gate.pass
	all := p.Op == "send" || p.Op == "peers"
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		mu.Lock()
		defer mu.Unlock()
		var out []lndclient.Peer
		for i := 0; i < p.Many; i++ {
			v := vertex(nodeKey(dest(i)).PubKey())
			if all || met[v] {
				out = append(out, lndclient.Peer{Pubkey: v})
			}
		}
		return out, nil
	}
	n.lnd.connect = func(_ context.Context, v route.Vertex, _ string) error {
		mu.Lock()
		met[v] = true
		mu.Unlock()
		return nil
	}
	keys := map[route.Vertex]*btcec.PublicKey{}
	for i := 0; i < p.Many; i++ {
		k := nodeKey(dest(i)).PubKey()
		keys[vertex(k)] = k
	}
	n.lnd.routes = func(q lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(nodeKey(via).PubKey(), keys[q.PubKey]), nil
	}
	var (
		errs = make([]error, p.Many)
		wg   sync.WaitGroup
		fs   = make([][]finalPlan, p.Many)
	)
	for i := 0; i < p.Many; i++ {
		i := i
		fs[i] = []finalPlan{{T: 64, V: lit([]byte("hello"))}}
		k := keys[vertex(nodeKey(dest(i)).PubKey())]
		req := onionmsg.NewSendMessageRequest(k, nil, nil,
			buildFinals(fs[i]), p.Direct)
		rpc := &offersrpc.SendOnionMessageRequest{
			Pubkey: k.SerializeCompressed(), DirectConnect: p.Direct,
			FinalPayloads: map[uint64][]byte{64: []byte("hello")},
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p.RPC {
				_, errs[i] = n.srv.SendOnionMessage(
					context.Background(), rpc)
			} else {
				errs[i] = n.m.SendMessage(
					context.Background(), req)
			}
			gate.mu.Lock()
			gate.done++
			gate.mu.Unlock()
		}()
	}
	held := gate.release(p.Many)
	c.mustEnd(fmt.Sprintf("%d sends held in %s", p.Many, p.Op), wg.Wait)
	failed := 0
	for i, err := range errs {
		if err == nil {
			continue
		}
		failed++
		if p.RPC && status.Code(err) != codes.Internal ||
			!p.RPC && !carries(err, gate.err) {

			c.Failf("one of %d sends at the same time failed with %v",
				p.Many, errs[i])
		}
	}
	if failed != gate.failed {
		c.Failf("of %d sends at the same time %d failed, lnd refused %d",
			p.Many, failed, gate.failed)
	}
	// Every send that succeeded has its message.
	var (
		wire = net.wireLog()
		seen = map[string]bool{}
		got  = map[int]int{}
		want = map[int]int{}
		lead []int
	)
	if !p.Direct {
		lead = []int{via}
	}
	for i, err := range errs {
		if err == nil {
			want[dest(i)]++
		}
	}
	ids := map[route.Vertex]int{}
	for i := 0; i < p.Many; i++ {
		ids[vertex(nodeKey(dest(i)).PubKey())] = dest(i)
	}
	for _, w := range wire {
		if seen[string(w.Data)] {
			c.Failf("the same message was sent twice")
		}
		seen[string(w.Data)] = true
		d, ok := ids[w.To]
		if !p.Direct {
			// The next node is in the packet.
			pl, err := newRefRouter(nodeKey(via)).peel(w.Data)
			if err != nil || pl.Next == nil {
				c.Failf("the first hop cannot process a message: %v",
					err)
			}
			d, ok = ids[vertex(pl.Next)]
		}
		if !ok {
			c.Failf("a message for %x was sent for nobody", w.To[:])
		}
		got[d]++
		if bad := followWire(w.Data, append(append([]int{}, lead...), d),
			nil, fs[0]); bad != "" {

			c.Failf("of %d sends at the same time, one to node %d: %s",
				p.Many, d, bad)
		}
	}
	for d := range ids2(want, got) {
		if want[d] != got[d] {
			c.Failf("%d sends to node %d succeeded, %d messages were sent",
				want[d], d, got[d])
		}
	}
	c.Class("held in %s", p.Op)
	c.ClassIf(p.Fail > 0, "some fail")
	if held > 8 {
		c.NonTrivial()
	}
}

func ids2(a, b map[int]int) map[int]bool {
	out := map[int]bool{}
	for k := range a {
		out[k] = true
	}
	for k := range b {
		out[k] = true
	}
	return out
}

// ---------------------------------------------------------------------------
// C19 and C23: many routes that wait for lnd.

type planHeldGen struct {
	Op   string
	Many int
	RPC  bool
	Fail int
	Err  int
}

func runHeldGen(c *C, p planHeldGen) {
	var (
		net  = newNet(c)
		n    *simNode
		gate = newTurnstile(p.Op, p.Fail, lookupErr(p.Err))
		w    = routeGenPlan{
			Chans: []chanPlan{{1, true, false}, {2, true, false}},
			Peers: []peerPlan{
				{Graph: "known", Channels: 1},
				{Graph: "known", Channels: 3},
			},
		}
	)
	if p.RPC {
		n = net.runServer()
	} else {
		n = net.bare()
	}
	w.install(n)
	n.lnd.ctxHook = gate.pass
	gen := routes.NewBlindedRouteGenerator(n.lnd, n.pub)
	var (
		errs = make([]error, p.Many)
		got  = make([]*lnwire.ReplyPath, p.Many)
		bad  = make([]interface{}, p.Many)
		wg   sync.WaitGroup
	)
	for i := 0; i < p.Many; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { bad[i] = caught(recover()) }()
			if p.RPC {
				r, err := n.srv.GenerateBlindedRoute(
					context.Background(),
					&offersrpc.GenerateBlindedRouteRequest{})
				if errs[i] = err; err == nil {
					got[i] = fromRPC(c, r.GetRoute())
				}
			} else {
				r, err := gen.ReplyPath(context.Background(), nil)
				if errs[i] = err; err == nil {
					got[i] = fromSphinx(r)
				}
			}
			gate.mu.Lock()
			gate.done++
			gate.mu.Unlock()
		}()
	}
	held := gate.release(p.Many)
	c.mustEnd(fmt.Sprintf("%d requests held in %s", p.Many, p.Op), wg.Wait)
	failed, keys := 0, map[string]bool{}
	for i := range errs {
		if bad[i] != nil {
			panic(bad[i])
		}
		if errs[i] != nil {
			failed++
			if p.RPC && status.Code(errs[i]) != codes.Internal ||
				!p.RPC && !carries(errs[i], gate.err) {

				c.Failf("one of %d requests at the same time "+
					"failed with %v", p.Many, errs[i])
			}
			continue
		}
		b := usable(got[i], []int{2}, n.id,
			[]finalPlan{{T: 64, V: lit([]byte("hello"))}})
		if b != "" {
			c.Failf("one of %d requests at the same time: %s", p.Many,
				b)
		}
		k := pubHex(got[i].BlindingPoint)
		if keys[k] {
			c.Failf("blinding point %s is used twice", k)
		}
		keys[k] = true
	}
	if failed != gate.failed {
		c.Failf("of %d requests at the same time %d failed, lnd refused "+
			"%d", p.Many, failed, gate.failed)
	}
	c.Class("held in %s", p.Op)
	c.ClassIf(p.Fail > 0, "some fail")
	if held > 8 {
		c.NonTrivial()
	}
}

// ---------------------------------------------------------------------------
// C09, C13 and C15: messages and registrations that wait for the messenger.

type planQueued struct {
	// Many messages, of which about Relays in ten are to be forwarded, come
	// at the same time, while Busy, "handler" or "forward", is in progress,
	// and Regs registrations are made.
	Many, Relays int
	Busy         string
	Regs         int
	// Each forward takes so many µs.
	Slow int
	Seed int64
}

func drawQueued(t *rapid.T) planQueued {
	return planQueued{
		Many: drawHeldMany(t),
		Relays: rapid.SampledFrom([]int{0, 3, 7, 10}).
			Draw(t, "relays"),
		Busy: rapid.SampledFrom([]string{"handler", "forward"}).
			Draw(t, "busy"),
		Regs: rapid.SampledFrom([]int{0, 1, 40, 120, 300}).
			Draw(t, "regs"),
		Slow: rapid.SampledFrom([]int{0, 0, 50, 1000}).Draw(t, "slow"),
		Seed: rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
	}
}

func runQueued(c *C, p planQueued) {
	var (
		net     = newNet(c)
		s       = net.run()
		r       = rand.New(rand.NewSource(p.Seed))
		ref     = newRefRouter(s.priv)
		has     = map[uint64]bool{64: true}
		peers   = make([]*btcec.PublicKey, 5)
		release = make(chan struct{})
		busy    = make(chan struct{})
		once    sync.Once
		mu      sync.Mutex
		sent    = map[string]int{}
		nsent   int
		free    = func() { once.Do(func() { close(release) }) }
	)
	c.Cleanup(free)
	for i := range peers {
		peers[i] = nodeKey(50 + i).PubKey()
	}
	s.lnd.send = func(_ context.Context, m lndclient.CustomMessage) error {
		mu.Lock()
		first := nsent == 0
		nsent++
		sent[fmt.Sprintf("%x %x", m.Peer[:], m.Data)]++
		mu.Unlock()
		if first && p.Busy == "forward" {
			close(busy)
		}
		<-release
		if p.Slow > 0 {
			time.Sleep(time.Duration(p.Slow) * time.Microsecond)
		}
		return nil
	}
	s.listen(64)
	err := s.m.RegisterHandler(99, func(*lnwire.ReplyPath, []byte,
		[]byte) error {

		close(busy)
		<-release
		return nil
	})
	if err != nil {
		c.Failf("registering: %v", err)
	}
	// Something to be busy with.
	first := craft{Override: -1, Relay: p.Busy == "forward"}
	if p.Busy == "handler" {
		first.Finals = []finalPlan{{T: 99, V: lit(nil)}}
	}
	var (
		want  = map[string]int{}
		wantN int
		del   []delivery
		wires [][]byte
	)
	expect := func(o outcome) {
		del = append(del, o.deliver...)
		if f := o.forward; f != nil {
			want[fmt.Sprintf("%x %x", f.To[:], f.Data)]++
			wantN++
		}
	}
	wire := first.bytes(s, peers[0], 0)
	expect(predict(ref, wire, has))
	s.push(vertex(peers[1]), onionType, wire)
	c.awaitDone("processing of a message", busy)
	for i := 1; i <= p.Many; i++ {
		cr := craft{Override: -1, Relay: r.Intn(10) < p.Relays}
		if !cr.Relay {
			cr.Finals = []finalPlan{{T: 64,
				V: lit([]byte(fmt.Sprint(i)))}}
		}
		w := cr.bytes(s, peers[r.Intn(5)], i)
		wires = append(wires, w)
		expect(predict(ref, w, has))
	}
	var (
		wg   sync.WaitGroup
		regs = make([]error, p.Regs)
		took = newTurnstile("", 0, nil)
	)
	for i := range regs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			regs[i] = s.m.RegisterHandler(tlv.Type(1000+2*i),
				s.handler(uint64(1000+2*i), i, nil))
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, w := range wires {
			s.lnd.msgs <- lndclient.CustomMessage{
				Peer:    vertex(peers[r.Intn(5)]),
				MsgType: onionType, Data: w,
			}
			took.mu.Lock()
			took.done++
			took.mu.Unlock()
		}
	}()
	took.release(p.Many)
	free()
	c.mustEnd("messages and registrations that came at the same time",
		wg.Wait)
	s.barrier()
	count := func() int {
		mu.Lock()
		defer mu.Unlock()
		return nsent
	}
	for k := 0; k < 40 && (count() < wantN ||
		len(s.deliveries()) < len(del)); k++ {

		s.pause(k)
	}
	if d := diffDeliveries(s.takeDeliveries(), del); d != "" {
		c.Failf("%d messages at the same time: %s", p.Many, d)
	}
	mu.Lock()
	defer mu.Unlock()
	if nsent != wantN {
		c.Failf("%d of %d messages that came at the same time were "+
			"forwarded", nsent, wantN)
	}
	for k, n := range want {
		if sent[k] != n {
			c.Failf("message %.80s… was forwarded %d times", k, sent[k])
		}
	}
	if e := s.shutdownErrs(); len(e) > 0 {
		c.Failf("the node asked for shutdown: %v", e)
	}
	// The handlers are there.
	var (
		finals []finalPlan
		got    []delivery
	)
	for i, err := range regs {
		if err != nil {
			c.Failf("one of %d registrations at the same time failed: "+
				"%v", p.Regs, err)
		}
		if i < 120 {
			finals = append(finals, finalPlan{T: uint64(1000 + 2*i),
				V: lit([]byte{byte(i)})})
			got = append(got, delivery{Type: uint64(1000 + 2*i),
				Value: []byte{byte(i)}, Tag: i})
		}
	}
	s.push(vertex(peers[0]), onionType, clearMessage(priv(1), priv(2),
		[]*btcec.PublicKey{s.pub}, nil, finals))
	s.barrier()
	for k := 0; k < 40 && len(s.deliveries()) < len(got); k++ {
		s.pause(k)
	}
	if d := diffTagged(s.takeDeliveries(), got); d != "" {
		c.Failf("after %d registrations at the same time: %s", p.Regs, d)
	}
	c.Class("busy with a %s", p.Busy)
	c.ClassIf(p.Regs > 1, "registrations waiting")
	c.ClassIf(wantN > 16, "more than 16 forwards")
	c.ClassIf(len(del) > 16, "more than 16 deliveries")
	c.NonTrivial()
}

func init() {
	const sends = "9 to 300 sends at the same time, to as many nodes or all " +
		"to one, that lnd holds in one of its calls until no more come; " +
		"some of the calls fail then. Every other send must succeed, and " +
		"its message be on the wire. Non-trivial: more than eight are held."
	Add("C17", "held", 24, 400, "Direct. "+sends,
		func(t *rapid.T) planHeld { return drawHeld(t, true, false) },
		runHeld)
	Add("C18", "held", 24, 400, "Over a route. "+sends,
		func(t *rapid.T) planHeld { return drawHeld(t, false, false) },
		runHeld)
	Add("C20", "held", 24, 400, "Through the RPC. "+sends,
		func(t *rapid.T) planHeld {
			return drawHeld(t, rapid.Bool().Draw(t, "direct"), true)
		}, runHeld)
	const gens = "9 to 300 requests for a route at the same time that lnd " +
		"holds in one of its calls until no more come; some of the calls " +
		"fail then. Every other request must succeed and its route be " +
		"usable. Non-trivial: more than eight are held."
	gen := func(t *rapid.T, rpc bool) planHeldGen {
		return planHeldGen{
			Op: rapid.SampledFrom([]string{"channels",
				"nodeinfo"}).Draw(t, "op"),
			Many: drawHeldMany(t), RPC: rpc,
			Fail: rapid.SampledFrom([]int{0, 0, 2, 7}).
				Draw(t, "fail"),
			Err: rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
		}
	}
	Add("C19", "held", 16, 400, gens,
		func(t *rapid.T) planHeldGen { return gen(t, false) }, runHeldGen)
	Add("C23", "held", 16, 400, "Through the RPC. "+gens,
		func(t *rapid.T) planHeldGen { return gen(t, true) }, runHeldGen)
	const queued = "9 to 300 messages, to be forwarded or final, and up to " +
		"300 registrations, that come while a handler or a forward of " +
		"another message is in progress and does not end. When it has, " +
		"each message must be handled and each registration succeed. " +
		"Non-trivial: always."
	for _, prop := range []string{"C09", "C13", "C15"} {
		Add(prop, "queued", 24, 600, queued, drawQueued, runQueued)
	}
}

// ---------------------------------------------------------------------------
// C06: strings in a row and at the same time.

// reading is what a string is to be read as.
type reading struct {
	text string
	v    verdict
	b    []byte
	rs   []Rec
}

func readString(s string) *reading {
	r := &reading{text: s}
	r.v, r.b = refOfferBytes(s)
	if r.v != mustReject {
		w, rs := judgeOffer(r.b)
		r.rs = rs
		if w == mustReject || r.v == mustAccept {
			r.v = w
		}
	}
	return r
}

// judge compares what the code makes of the string with what it is.
func (r *reading) judge(o *lnwire.Offer, err error) string {
	switch {
	case r.v == mustAccept && err != nil:
		return fmt.Sprintf("offer string %q spells the valid offer %x but "+
			"is rejected: %v", r.text, r.b, err)
	case r.v == mustReject && err == nil:
		return fmt.Sprintf("offer string %q is not a valid offer string "+
			"(bytes %x) but is accepted", r.text, r.b)
	case err != nil:
		return ""
	}
	m := &msg{kind: "offer", o: o}
	if bad := m.mismatch(r.rs); bad != "" {
		return fmt.Sprintf("offer string %q: %s", r.text, bad)
	}
	if !bytes.Equal(m.root(), refRoot(r.rs)) {
		return fmt.Sprintf("offer string %q: root %x, want %x", r.text,
			m.root(), refRoot(r.rs))
	}
	return ""
}

// drawNearOffers draws strings most of which are like each other: the same
// records but for one, the same records with another signature, or none, or
// more records next to the signature, or the same bytes spelled differently.
func drawNearOffers(t *rapid.T) []HB {
	var (
		out  []HB
		base = drawOffer(t)
		last = base
	)
	for i := rapid.IntRange(2, 6).Draw(t, "n"); i > 0; i-- {
		how := rapid.SampledFrom([]string{"base", "base", "unsigned",
			"bad signature", "other signer", "extra", "changed",
			"other key", "spelling", "spelling", "any"}).Draw(t, "how")
		rs := make([]Rec, 0, len(base)+1)
		for _, r := range base {
			rs = append(rs, Rec{r.T, append(HB{}, r.V...)})
		}
		sig := func(v []byte) {
			if r := findRec(rs, 240); r != nil {
				r.V = v
			} else {
				rs = append(rs, Rec{240, v})
				sortRecs(rs)
			}
		}
		switch how {
		case "unsigned":
			if findRec(rs, 240) != nil {
				var o []Rec
				for _, r := range rs {
					if r.T != 240 {
						o = append(o, r)
					}
				}
				rs = o
			}
		case "bad signature":
			b := make([]byte, 64)
			if r := findRec(rs, 240); r != nil {
				copy(b, r.V)
			}
			bit := rapid.IntRange(0, 511).Draw(t, "bit")
			b[bit/8] ^= 1 << (bit % 8)
			sig(b)
		case "other signer":
			s := signDigest(priv(rapid.IntRange(61, 80).
				Draw(t, "signer")), refDigest("offer", "signature",
				refRoot(rs)))
			sig(s[:])
		case "extra":
			rs = append(rs, Rec{uint64(241 + 2*rapid.IntRange(0, 379).
				Draw(t, "type")), drawBlob(t, 0, 9, "val").Bytes()})
			sortRecs(rs)
		case "changed":
			r := &rs[rapid.IntRange(0, len(rs)-1).Draw(t, "which")]
			if len(r.V) > 0 {
				bit := rapid.IntRange(0, 8*len(r.V)-1).Draw(t, "bit")
				r.V[bit/8] ^= 1 << (bit % 8)
			}
		case "other key":
			findRec(rs, 30).V = xonly(pub(rapid.IntRange(0, 60).
				Draw(t, "key")))
		case "spelling":
			rs = last
		case "any":
			rs = drawOffer(t)
		}
		last = rs
		s := offerString(encodeRecs(rs))
		if how == "spelling" {
			if rapid.Bool().Draw(t, "upper") {
				s = strings.ToUpper(s)
			}
			if rapid.Bool().Draw(t, "join") && len(s) > 6 {
				at := rapid.IntRange(5, len(s)-1).Draw(t, "at")
				s = s[:at] + "+\n" + s[at:]
			}
		}
		out = append(out, HB(s))
	}
	return out
}

// ---------------------------------------------------------------------------
// C12: nothing is used twice by sends at the same time.

type planHeldSecrets struct {
	Many int
	// Direct sends in ten; the rest go over a route.
	Direct int
	// Blinded: every so many go to a blinded route.
	Blinded int
	Rounds  int
	// Refuse: every so many, lnd comes back with error Err when it is handed
	// the message, which it may have passed on all the same (0: never).
	Refuse, Err int
}

func runHeldSecrets(c *C, p planHeldSecrets) {
	var (
		net  = newNet(c)
		n    = net.messenger()
		dest = nodeKey(1000).PubKey()
		seen = map[string]int{}
		// given are blinding points that blinded routes dictate.
		given = map[string]bool{}

		mu      sync.Mutex
		handed  []lndclient.CustomMessage
		refused int
	)
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(dest)}}, nil
	}
	n.lnd.send = func(_ context.Context, m lndclient.CustomMessage) error {
		mu.Lock()
		defer mu.Unlock()
		handed = append(handed, m)
		if p.Refuse > 0 && len(handed)%p.Refuse == 0 {
			refused++
			return lndErr(p.Err)
		}
		return nil
	}
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(nodeKey(1001).PubKey(), dest), nil
	}
	for round := 0; round < p.Rounds; round++ {
		var (
			errs = make([]error, p.Many)
			wg   sync.WaitGroup
			gate = make(chan struct{})
		)
		before := len(handed)
		refused = 0
		for i := 0; i < p.Many; i++ {
			to, blind := dest, (*lnwire.ReplyPath)(nil)
			if p.Blinded > 0 && i%p.Blinded == 0 {
				to, blind = nil, refRoute(
					priv(700_000+round*p.Many+i),
					[]*btcec.PublicKey{dest,
						nodeKey(1002).PubKey()}, nil)
				given[string(blind.BlindingPoint.
					SerializeCompressed())] = true
			}
			req := onionmsg.NewSendMessageRequest(to, blind, nil,
				buildFinals([]finalPlan{{T: 64,
					V: lit([]byte("hello"))}}), i%10 < p.Direct)
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				errs[i] = n.m.SendMessage(context.Background(),
					req)
			}()
		}
		close(gate)
		c.mustEnd("sends at the same time", wg.Wait)
		failed := 0
		for _, err := range errs {
			switch {
			case err == nil:
			case p.Refuse > 0 && carries(err, lndErr(p.Err)):
				failed++
			default:
				c.Failf("one of %d sends at the same time: %v",
					p.Many, err)
			}
		}
		if failed != refused {
			c.Failf("lnd refused %d messages, %d sends failed", refused,
				failed)
		}
		c.ClassIf(refused > 0 && round+1 < p.Rounds,
			"sends after refused ones")
		log := handed[before:]
		if len(log) != p.Many {
			c.Failf("%d sends put %d messages on the wire", p.Many,
				len(log))
		}
		for i, w := range log {
			d := w.Data
			if len(d) != wireSize {
				c.Failf("a message has %d bytes", len(d))
			}
			for name, b := range map[string]string{
				"blinding point":            string(d[:33]),
				"ephemeral key":             string(d[36:69]),
				"start of the routing data": string(d[69:101]),
				"end of the routing data":   string(d[1337:1369]),
				"integrity tag":             string(d[1369:1401]),
			} {
				if name == "blinding point" && given[b] {
					continue
				}
				if o, ok := seen[b]; ok {
					c.Failf("of %d sends at the same time, the "+
						"%s of message %d came up in message "+
						"%d", p.Many, name, i, o)
				}
				seen[b] = before + i
			}
		}
	}
	c.NonTrivial()
}

func init() {
	s := Add("C12", "concurrent", 60, 1500,
		"2 to 120 sends at the same time by one node, directly, over a "+
			"route and to blinded routes, in up to four rounds; lnd may "+
			"report some of them as failed. No blinding point, ephemeral "+
			"key, integrity tag or part of the routing data may come up "+
			"twice. Non-trivial: always.",
		func(t *rapid.T) planHeldSecrets {
			return planHeldSecrets{
				Many: rapid.SampledFrom([]int{2, 3, 8, 40, 120}).
					Draw(t, "many"),
				Direct: rapid.SampledFrom([]int{0, 5, 10}).
					Draw(t, "direct"),
				Blinded: rapid.SampledFrom([]int{0, 1, 3}).
					Draw(t, "blinded"),
				Rounds: rapid.IntRange(1, 4).Draw(t, "rounds"),
				Refuse: rapid.SampledFrom([]int{0, 0, 1, 2, 7}).
					Draw(t, "refuse"),
				Err: rapid.IntRange(0, len(lndErrs)-1).
					Draw(t, "err"),
			}
		}, runHeldSecrets)
	s.Procs = 4
}
