package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"
)

// The checks in this file have one messenger go through thousands of things:
// nothing may wear out.

func drawMany(t *rapid.T, quick, thorough int) int {
	max := quick
	if *fTier == "thorough" {
		max = thorough
	}
	return rapid.SampledFrom([]int{max / 8, max / 3, max / 2, max}).
		Draw(t, "many") + rapid.IntRange(0, 20).Draw(t, "more")
}

// ---------------------------------------------------------------------------
// C13: replays after long.

type planLongRelay struct {
	// Many messages, of which every Relays-th is to be forwarded, are
	// followed by replays of Back messages, seeded with Seed.
	Many, Relays, Back int
	Seed               int64
}

func runLongRelay(c *C, p planLongRelay) {
	var (
		net   = newNet(c)
		s     = net.run()
		w     watch
		r     = rand.New(rand.NewSource(p.Seed))
		has   = map[uint64]bool{64: true, 65: true}
		ref   = newRefRouter(s.priv)
		past  [][]byte
		peers = make([]*btcec.PublicKey, 5)
	)
	for i := range peers {
		peers[i] = nodeKey(50 + i).PubKey()
	}
	w.attach(s)
	s.listen(64, 65)
	push := func(what string, wire []byte, o outcome) {
		s.push(vertex(peers[r.Intn(5)]), onionType, wire)
		s.barrier()
		for k := 0; k < 40 && (o.forward != nil && w.count() == 0 ||
			len(o.deliver) > len(s.deliveries())); k++ {

			s.pause(k)
		}
		if bad := o.effect(w.take(), s.takeDeliveries()); bad != "" {
			c.Failf("%s (%s): %s", what, o.why, bad)
		}
	}
	for i := 0; i < p.Many; i++ {
		cr := craft{Override: -1, Relay: i%p.Relays == 0}
		if !cr.Relay {
			cr.Finals = []finalPlan{{T: uint64(64 + r.Intn(3)),
				V: lit([]byte(fmt.Sprint(i)))}}
		}
		wire := cr.bytes(s, peers[r.Intn(5)], i)
		past = append(past, wire)
		push(fmt.Sprintf("message %d", i), wire, predict(ref, wire, has))
	}
	// The first, the last and any others.
	back := []int{0, 1, len(past) - 1}
	for i := 0; i < p.Back; i++ {
		back = append(back, r.Intn(len(past)))
	}
	for _, i := range back {
		i %= len(past)
		push(fmt.Sprintf("replay of message %d after %d others", i,
			len(past)-1), past[i], outcome{why: "replay"})
	}
	if e := s.shutdownErrs(); len(e) > 0 {
		c.Failf("the node asked for shutdown: %v", e)
	}
	c.ClassIf(p.Many > 1000, "more than 1000 messages")
	c.NonTrivial()
}

// ---------------------------------------------------------------------------
// C14: trouble that goes on.

type planLongTrouble struct {
	Many int
	// Kinds of trouble that take turns: "handler", "send", "signer",
	// "garbage", "bad onion", "replay", "no handler", "other type".
	Kinds []string
	// Probe is how many of them come between valid messages.
	Probe int
	Err   int
	Seed  int64
}

var longTroubles = []string{"handler", "send", "signer", "garbage", "bad onion",
	"replay", "no handler", "other type"}

func runLongTrouble(c *C, p planLongTrouble) {
	var (
		net     = newNet(c)
		s       = net.run()
		w       watch
		r       = rand.New(rand.NewSource(p.Seed))
		mu      sync.Mutex
		failing error
		sign    error
		ref     = newRefRouter(s.priv)
		has     = map[uint64]bool{64: true}
		sends   int
		handled int
		next    = nodeKey(50).PubKey()
		from    = vertex(nodeKey(49).PubKey())
	)
	trouble := nodeErrs[p.Err%len(nodeErrs)]
	w.attach(s)
	s.lnd.signErr = func() error {
		mu.Lock()
		defer mu.Unlock()
		return sign
	}
	err := s.m.RegisterHandler(tlv.Type(64), s.handler(64, 0,
		func([]byte) error {
			mu.Lock()
			defer mu.Unlock()
			return failing
		}))
	if err != nil {
		c.Failf("register: %v", err)
	}
	last := craft{Override: -1, Finals: []finalPlan{{T: 64, V: lit(nil)}}}.
		bytes(s, next, 0)
	s.push(from, onionType, last)
	for k := 0; k < 60 && len(s.deliveries()) == 0; k++ {
		s.pause(k)
	}
	if len(s.takeDeliveries()) != 1 {
		c.Failf("the first message was not delivered")
	}
	set := func(h, g, l error) {
		mu.Lock()
		failing, sign = h, g
		mu.Unlock()
		w.set(l)
	}
	for i := 1; i <= p.Many; i++ {
		var (
			kind = p.Kinds[i%len(p.Kinds)]
			wire = last
			typ  = uint32(onionType)
		)
		c.Class("%s", kind)
		final := craft{Override: -1, Finals: []finalPlan{{
			T: 64, V: lit([]byte(fmt.Sprint(i))),
		}}}
		switch kind {
		case "handler":
			set(trouble, nil, nil)
			wire = final.bytes(s, next, i)
			last = wire
			handled++
		case "send":
			set(nil, nil, trouble)
			wire = craft{Relay: true, Override: -1}.bytes(s, next, i)
			sends++
		case "signer":
			set(nil, trouble, nil)
			wire = final.bytes(s, next, i)
		case "garbage":
			wire = make([]byte, r.Intn(1500))
			r.Read(wire)
		case "bad onion":
			wire = append([]byte{}, last...)
			wire[40+r.Intn(1300)] ^= byte(1 + r.Intn(255))
		case "no handler":
			final.Finals[0].T = 66
			wire = final.bytes(s, next, i)
		case "other type":
			typ = uint32(32768 + r.Intn(1000))
		}
		s.push(from, typ, wire)
		s.barrier()
		if n := w.count(); n > sends {
			c.Failf("message %d (%s): %d messages were sent, expected "+
				"%d", i, kind, n, sends)
		}
		if i == 1 || i%p.Probe == 0 || i == p.Many {
			// What goes wrong comes to an end before what goes
			// right begins.
			for k := 0; k < 40 && (w.count() < sends ||
				len(s.deliveries()) < handled); k++ {

				s.pause(k)
			}
			sends, handled = 0, 0
			set(nil, nil, nil)
			w.take()
			s.takeDeliveries()
			for _, relay := range []bool{false, true} {
				cr := craft{Override: -1, Relay: relay}
				if !relay {
					cr.Finals = []finalPlan{{T: 64,
						V: lit([]byte("probe"))}}
				}
				seq := 1_000_000 + 2*i
				if relay {
					seq++
				}
				pw := cr.bytes(s, next, seq)
				o := predict(ref, pw, has)
				s.push(from, onionType, pw)
				s.barrier()
				for k := 0; k < 60 && (o.forward != nil &&
					w.count() == 0 || len(o.deliver) >
					len(s.deliveries())); k++ {

					s.pause(k)
				}
				bad := o.effect(w.take(), s.takeDeliveries())
				if bad != "" {
					c.Failf("valid message after %d troublesome "+
						"ones (%v): %s", i, p.Kinds, bad)
				}
			}
		}
		if e := s.shutdownErrs(); len(e) > 0 {
			c.Failf("message %d (%s) made the node ask for shutdown: %v",
				i, kind, e)
		}
	}
	c.NonTrivial()
}

// ---------------------------------------------------------------------------
// C15: many handlers, many times.

type planLongReg struct {
	// Types registered at first, and steps after that.
	Types, Steps int
	Seed         int64
}

func runLongReg(c *C, p planLongReg) {
	var (
		net   = newNet(c)
		s     = net.run()
		r     = rand.New(rand.NewSource(p.Seed))
		table = map[uint64]int{}
		tag   = 0
		types []uint64
		seen  = map[uint64]bool{}
	)
	for len(types) < p.Types {
		// Near each other and far apart.
		t := uint64(64 + len(types))
		if len(types)%3 == 1 || seen[t] {
			t = 64 + r.Uint64()>>uint(1+r.Intn(56))
		}
		if !seen[t] {
			seen[t] = true
			types = append(types, t)
		}
	}
	do := func(op string, t uint64) {
		tag++
		var err error
		o := regOp{Op: op, T: t}
		c.mustEnd(op, func() { err = s.register(o, tag) })
		_, taken := table[t]
		if want := (op == "reg") != taken; (err == nil) != want {
			c.Failf("%s of type %d, of which there is a handler: %v, "+
				"with %d handlers, after %d operations: %v", op, t,
				taken, len(table), tag, err)
		}
		switch {
		case err != nil:
		case op == "reg":
			table[t] = tag
		default:
			delete(table, t)
		}
	}
	msg := func(i int, ts []uint64) {
		var (
			finals []finalPlan
			want   []delivery
		)
		for j, t := range ts {
			f := finalPlan{T: t, V: lit([]byte{byte(j)})}
			finals = append(finals, f)
			if h, ok := table[t]; ok {
				want = append(want, delivery{Type: t,
					Value: []byte{byte(j)}, Tag: h})
			}
		}
		s.push(vertex(pub(1)), onionType, clearMessage(
			priv(2*i), priv(2*i+1), []*btcec.PublicKey{s.pub}, nil,
			finals,
		))
		s.barrier()
		if d := diffTagged(s.takeDeliveries(), want); d != "" {
			c.Failf("message %d with %d payloads, %d handlers: %s", i,
				len(ts), len(table), d)
		}
	}
	pick := func(n int) []uint64 {
		var out []uint64
		used := map[uint64]bool{}
		for i := 0; i < n; i++ {
			t := types[r.Intn(len(types))]
			if !used[t] {
				used[t] = true
				out = append(out, t)
			}
		}
		return out
	}
	for _, t := range types {
		do("reg", t)
	}
	for i := 0; i < p.Steps; i++ {
		t := types[r.Intn(len(types))]
		if r.Intn(2) == 0 {
			// One that comes and goes.
			t = types[0]
		}
		switch r.Intn(10) {
		case 0:
			msg(i, pick(1+r.Intn(40)))
		case 1, 2, 3, 4:
			do("reg", t)
		default:
			do("dereg", t)
		}
	}
	for i := 0; i < 20; i++ {
		msg(p.Steps+i, pick(40))
	}
	for _, t := range types {
		do("dereg", t)
	}
	msg(p.Steps+20, pick(40))
	c.ClassIf(p.Types > 1000, "more than 1000 types")
	c.NonTrivial()
}

func init() {
	Add("C13", "long", 8, 120,
		"Hundreds to thousands of relayed and final messages to one node, "+
			"followed by replays of the first, the last and any others. "+
			"Each is judged by an independent router; replays must have "+
			"no effect. Non-trivial: always.",
		func(t *rapid.T) planLongRelay {
			return planLongRelay{
				Many:   drawMany(t, 2500, 20000),
				Relays: rapid.IntRange(1, 4).Draw(t, "relays"),
				Back:   rapid.IntRange(1, 30).Draw(t, "back"),
				Seed:   rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		}, runLongRelay)
	Add("C14", "long", 16, 160,
		"Hundreds to thousands of messages that are malformed, replayed, of "+
			"another type or for which handlers, sends or the signer "+
			"fail, of one kind or several taking turns. Valid messages "+
			"after every 97 to 5003 of them and at the end must be "+
			"delivered and forwarded. "+
			"Non-trivial: always.",
		func(t *rapid.T) planLongTrouble {
			kinds := longTroubles
			if rapid.IntRange(0, 2).Draw(t, "failing") > 0 {
				// None that the node handles without an error.
				kinds = longTroubles[:6]
			}
			return planLongTrouble{
				Many: drawMany(t, 2000, 12000),
				Kinds: rapid.SliceOfN(rapid.SampledFrom(kinds),
					1, 3).Draw(t, "kinds"),
				Probe: rapid.SampledFrom([]int{97, 397, 1009,
					5003}).Draw(t, "probe"),
				Err:  rapid.IntRange(0, len(nodeErrs)-1).Draw(t, "err"),
				Seed: rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		}, runLongTrouble)
	Add("C15", "long", 16, 160,
		"Handlers for hundreds to thousands of types, then thousands of "+
			"registrations, deregistrations and messages with up to 40 "+
			"payloads; compared with a map step by step. Non-trivial: "+
			"always.",
		func(t *rapid.T) planLongReg {
			return planLongReg{
				Types: drawMany(t, 3000, 20000),
				Steps: drawMany(t, 6000, 60000),
				Seed:  rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		}, runLongReg)
}

// ---------------------------------------------------------------------------
// C22: many subscriptions.

type planLongSub struct {
	// Open at a time, of so many types, for so many steps.
	Open, Types, Steps int
	Seed               int64
}

func runLongSub(c *C, p planLongSub) {
	var (
		w     = newSubWorld(c)
		r     = rand.New(rand.NewSource(p.Seed))
		types []uint64
		ended int
	)
	for i := 0; i < p.Types; i++ {
		t := uint64(64 + i)
		if i%3 == 1 {
			t = uint64(i)<<32 + 64
		}
		types = append(types, t)
	}
	settle := func() {
		w.flush("with no stream stuck")
		for _, s := range w.active {
			w.until(fmt.Sprintf("subscription %d to type %d getting all "+
				"payloads", s.id, s.typ), func() bool {

				w.mustBeOpen(s)
				return w.verify(s)
			})
		}
	}
	for i := 0; i < p.Steps; i++ {
		t := types[r.Intn(len(types))]
		if r.Intn(3) == 0 {
			// One that comes and goes.
			t = types[0]
		}
		s := w.active[t]
		switch op := r.Intn(8); {
		case s == nil && len(w.active) < p.Open:
			w.open(t, 0)
		case op < 3 || s == nil:
			ts := []uint64{t}
			for j := r.Intn(4); j > 0; j-- {
				if o := types[r.Intn(len(types))]; o != t &&
					o != ts[len(ts)-1] && len(ts) < 3 {

					ts = append(ts, o)
				}
			}
			w.send(nil, 0, ts...)
		case op == 3:
			w.ids++
			d := newSubscriber(w.n, w.ids, t, 0)
			w.end(d, "second subscription", isCode(codes.Unavailable))
			w.mustBeOpen(s)
		case op == 4:
			w.flush("before a stream fails")
			w.until("a subscription getting all payloads", func() bool {
				w.mustBeOpen(s)
				return w.verify(s)
			})
			s.mu.Lock()
			s.fail = errors.New("transport is closing")
			s.mu.Unlock()
			w.send(nil, 0, t)
			w.end(s, "stream failed", withCause(s.fail))
			w.flush("after a stream failed")
			ended++
		default:
			w.flush("before a subscription is cancelled")
			w.until("a subscription getting all payloads", func() bool {
				w.mustBeOpen(s)
				return w.verify(s)
			})
			s.leave()
			s.cancel()
			w.end(s, "cancelled", isCode(codes.Canceled))
			ended++
		}
		if errs := w.n.shutdownErrs(); len(errs) > 0 {
			c.Failf("the server asked for shutdown: %v", errs)
		}
	}
	settle()
	c.ClassIf(ended > 200, "more than 200 subscriptions ended")
	c.ClassIf(len(w.active) > 50, "more than 50 open at the end")
	c.NonTrivial()
	var left []*subscriber
	for _, s := range w.active {
		s.leave()
		left = append(left, s)
	}
	var err error
	c.mustEnd("stopping the server", func() { err = w.n.srv.Stop() })
	if err != nil {
		c.Failf("stop: %v", err)
	}
	for _, s := range left {
		w.end(s, "server shutdown", isCode(codes.Aborted))
	}
}

func init() {
	s := Add("C22", "long", 16, 160,
		"Hundreds of subscriptions to up to 300 types, up to 200 of them "+
			"open at a time, on one server: opened, given payloads, "+
			"refused a second time, cancelled and failing, and at last "+
			"ended by stopping the server. Judged as in \"histories\". "+
			"Non-trivial: always.",
		func(t *rapid.T) planLongSub {
			return planLongSub{
				Open: rapid.SampledFrom([]int{1, 5, 60, 200}).
					Draw(t, "open"),
				Types: rapid.SampledFrom([]int{1, 3, 70, 300}).
					Draw(t, "types"),
				Steps: drawMany(t, 1500, 10000),
				Seed:  rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		}, runLongSub)
	s.Procs = 3
}

// ---------------------------------------------------------------------------
// C09: many messages at once.

type planBurst struct {
	// Senders have Many messages in flight together, over Relays relays,
	// before the first is carried on.
	Senders, Many, Relays int
	// Pad is the size of payloads.
	Pad int
	// Late leaves that many in flight when the others have arrived.
	Late int
	Seed int64
}

func runBurst(c *C, p planBurst) {
	var (
		net  = newNet(c)
		r    = rand.New(rand.NewSource(p.Seed))
		want = map[int][]delivery{}
		path []int
	)
	for i := 0; i <= p.Relays; i++ {
		net.run()
		path = append(path, i)
	}
	last := net.nodes[p.Relays]
	last.listen(64, 65)
	for i := 0; i < p.Senders; i++ {
		s := net.run()
		s.lnd.routes = func(lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf(net.keys(path)...), nil
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, p.Senders)
	for i := 0; i < p.Senders; i++ {
		i := i
		var reqs []*onionmsg.SendMessageRequest
		for j := i; j < p.Many; j += p.Senders {
			v := make([]byte, 4+r.Intn(p.Pad+1))
			r.Read(v)
			copy(v, fmt.Sprint(j))
			f := []finalPlan{{T: uint64(64 + r.Intn(3)), V: lit(v)}}
			if f[0].T < 66 {
				want[p.Relays] = append(want[p.Relays],
					delivery{Type: f[0].T, Value: v})
			}
			reqs = append(reqs, onionmsg.NewSendMessageRequest(
				last.pub, nil, nil, buildFinals(f), false))
		}
		s := net.nodes[p.Relays+1+i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, req := range reqs {
				errs[i] = s.m.SendMessage(context.Background(),
					req)
				if errs[i] != nil {
					return
				}
			}
		}()
	}
	c.mustEnd("sending", wg.Wait)
	for _, err := range errs {
		if err != nil {
			c.Failf("one of %d sends at a time failed: %v", p.Many, err)
		}
	}
	if n := len(net.wireLog()); n != p.Many {
		c.Failf("%d sends put %d messages on the wire", p.Many, n)
	}
	// Each node takes what has come for it as fast as it can.
	for i := 0; i <= p.Relays; i++ {
		net.mu.Lock()
		queue := net.queue
		net.queue = nil
		net.mu.Unlock()
		if len(queue) != p.Many {
			c.Failf("of %d messages, %d got past %d relays", p.Many,
				len(queue), i)
		}
		r.Shuffle(len(queue), func(i, j int) {
			queue[i], queue[j] = queue[j], queue[i]
		})
		s := net.nodes[i]
		for j, w := range queue {
			if w.To != vertex(s.pub) {
				c.Failf("a message was sent to %v, not to node %d",
					w.To, i)
			}
			if j == len(queue)-p.Late {
				s.barrier()
			}
			s.push(vertex(net.nodes[w.From].pub), w.Type, w.Data)
		}
		s.barrier()
		for k := 0; k < 60 && i < p.Relays; k++ {
			net.mu.Lock()
			n := len(net.queue)
			net.mu.Unlock()
			if n >= p.Many {
				break
			}
			s.pause(k)
		}
	}
	net.settle(func() bool { return net.judge(want) == "" })
	if bad := net.judge(want); bad != "" {
		c.Failf("of %d messages sent at a time: %s", p.Many, bad)
	}
	c.ClassIf(p.Many > 500, "more than 500 messages")
	c.Class("%d senders", p.Senders)
	c.NonTrivial()
}

// ---------------------------------------------------------------------------
// C12: nothing is used twice, ever.

type planLongSecrets struct {
	// Many messages are sent by Nodes nodes, of which every Repeat-th is
	// the one before once more.
	Many, Nodes, Repeat int
	Seed                int64
}

func runLongSecrets(c *C, p planLongSecrets) {
	var (
		net  = newNet(c)
		r    = rand.New(rand.NewSource(p.Seed))
		seen = map[string]string{}
		req  *onionmsg.SendMessageRequest
	)
	for i := 0; i < p.Nodes; i++ {
		s := net.run()
		s.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
			var ps []lndclient.Peer
			for _, o := range net.nodes {
				ps = append(ps, lndclient.Peer{
					Pubkey: vertex(o.pub)})
			}
			return ps, nil
		}
	}
	given := map[string]bool{}
	for i := 0; i < p.Many; i++ {
		var (
			from = r.Intn(p.Nodes)
			s    = net.nodes[from]
			to   = net.nodes[(from+1+r.Intn(p.Nodes-1))%p.Nodes]
			via  = nodeKey(90).PubKey()
			hops = []*btcec.PublicKey{via, to.pub}
		)
		if req == nil || i%p.Repeat != 0 {
			var (
				dest   = to.pub
				blind  *lnwire.ReplyPath
				direct = r.Intn(2) == 0
			)
			if r.Intn(3) == 0 {
				dest, blind = nil, refRoute(priv(600_000+i),
					[]*btcec.PublicKey{to.pub,
						nodeKey(91).PubKey()}, nil)
				given[string(blind.BlindingPoint.
					SerializeCompressed())] = true
			}
			req = onionmsg.NewSendMessageRequest(dest, blind, nil,
				buildFinals([]finalPlan{{T: 64,
					V: lit([]byte("hello"))}}), direct)
		} else {
			// Which may be sent by another node, too.
			c.Class("request repeated")
			if req.BlindedDestination != nil {
				to = nil
				for _, o := range net.nodes {
					if o.pub.IsEqual(req.BlindedDestination.
						FirstNodeID) {

						to = o
					}
				}
				hops[1] = to.pub
			} else {
				hops[1] = req.Peer
			}
			if hops[1].IsEqual(s.pub) {
				s = net.nodes[(from+1)%p.Nodes]
			}
		}
		s.lnd.routes = func(lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf(hops...), nil
		}
		before := len(net.wire)
		err := s.m.SendMessage(context.Background(), req)
		if err != nil {
			c.Failf("send %d: %v", i, err)
		}
		net.mu.Lock()
		log := net.wire[before:]
		net.mu.Unlock()
		if len(log) != 1 {
			c.Failf("send %d put %d messages on the wire", i, len(log))
		}
		d := log[0].Data
		parts := map[string]string{
			"blinding point": string(d[:33]),
			"ephemeral key":  string(d[36:69]),
			// Equal parts of packets give equal keys away.
			"start of the routing data": string(d[69:101]),
			"end of the routing data":   string(d[1337:1369]),
			"integrity tag":             string(d[1369:1401]),
		}
		for name, b := range parts {
			where := fmt.Sprintf("send %d by node %d", i, s.id)
			if name == "blinding point" && given[b] {
				// A blinded route dictates this one.
				continue
			}
			if o, ok := seen[b]; ok {
				c.Failf("%s: the %s came up in %s", where, name, o)
			}
			seen[b] = where
		}
	}
	c.ClassIf(p.Many > 1000, "more than 1000 messages")
	c.NonTrivial()
}

func init() {
	Add("C09", "bursts", 8, 120,
		"Hundreds to thousands of messages that 1 to 4 nodes send before the "+
			"first arrives, over up to 3 relays, each of which takes all "+
			"that has come for it, in random order, as fast as it can. "+
			"All must arrive. Non-trivial: always.",
		func(t *rapid.T) planBurst {
			return planBurst{
				Senders: rapid.SampledFrom([]int{1, 1, 2, 4}).
					Draw(t, "senders"),
				Many:   drawMany(t, 1600, 6000),
				Relays: rapid.IntRange(0, 3).Draw(t, "relays"),
				Pad: rapid.SampledFrom([]int{0, 20, 700}).
					Draw(t, "pad"),
				Late: rapid.SampledFrom([]int{0, 1, 40}).
					Draw(t, "late"),
				Seed: rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		}, runBurst)
	Add("C12", "long", 8, 120,
		"Hundreds to thousands of messages, sent by 2 to 4 nodes directly, "+
			"over routes and to blinded routes, some of them twice. No "+
			"blinding point, ephemeral key, integrity tag or part of the "+
			"routing data may come up twice. Non-trivial: always.",
		func(t *rapid.T) planLongSecrets {
			return planLongSecrets{
				Many:  drawMany(t, 4000, 40000),
				Nodes: rapid.IntRange(2, 4).Draw(t, "nodes"),
				Repeat: rapid.SampledFrom([]int{2, 3, 10}).
					Draw(t, "repeat"),
				Seed: rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		}, runLongSecrets)
}
