package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// The checks in this file have things take seconds rather than microseconds:
// what is promised without a time limit must not have one. A case is many
// lives led at the same time.

// holds are how long, in ms, something takes.
func drawHold(t *rapid.T) int {
	return rapid.SampledFrom([]int{300, 1200, 2500, 5500, 8000, 12000}).
		Draw(t, "hold")
}

// parallel runs each life on its own. The first that fails is reported, as a
// case of its own.
func parallel[L any](c *C, lives []L, one func(L) interface{},
	run func(c *C, l L)) {

	kids := make([]*C, len(lives))
	panics := make([]interface{}, len(lives))
	var wg sync.WaitGroup
	for i := range lives {
		i := i
		kids[i] = &C{classes: map[string]bool{}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = caught(recover()) }()
			run(kids[i], lives[i])
		}()
	}
	wg.Wait()
	for _, k := range kids {
		for _, f := range k.cleanups {
			c.Cleanup(f)
		}
		for cl := range k.classes {
			c.Class("%s", cl)
		}
		if k.nontrivial {
			c.NonTrivial()
		}
	}
	for i, p := range panics {
		if p != nil {
			c.Narrow(one(lives[i]))
			panic(p)
		}
	}
}

// settleCleanups runs what a case registered so far, at the same time.
func (c *C) cleanAtOnce() {
	c.mu.Lock()
	fs := c.cleanups
	c.cleanups = nil
	c.mu.Unlock()
	var wg sync.WaitGroup
	for i := len(fs) - 1; i >= 0; i-- {
		f := fs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { _ = recover() }()
			f()
		}()
	}
	wg.Wait()
}

// ---------------------------------------------------------------------------
// The messenger: C14, C15 and C16.

type slowLife struct {
	// Kind is what takes long: a "handler" or a "forward".
	Kind string
	Hold int
	// Err makes it fail in the end.
	Err int `json:",omitempty"`
	// Queued messages wait meanwhile, and Regs registrations.
	Queued, Regs int
	// Stop has the messenger stopped meanwhile.
	Stop bool
}

type planSlow struct {
	Lives []slowLife
}

func drawSlow(t *rapid.T, regs int, stop bool) planSlow {
	life := rapid.Custom(func(t *rapid.T) slowLife {
		l := slowLife{
			Kind: rapid.SampledFrom([]string{"handler", "handler",
				"forward"}).Draw(t, "kind"),
			Hold: drawHold(t),
			Queued: rapid.SampledFrom([]int{0, 1, 5, 40}).
				Draw(t, "queued"),
			Stop: stop,
		}
		if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
			l.Err = rapid.IntRange(1, len(nodeErrs)).Draw(t, "err")
		}
		if regs > 0 {
			l.Regs = rapid.IntRange(1, regs).Draw(t, "regs")
		}
		return l
	})
	return planSlow{rapid.SliceOfN(life, 24, 24).Draw(t, "lives")}
}

func init() {
	const rule = "24 messengers at a time, each with a handler or a forward " +
		"that takes 0.3 to 12 s and may then fail, "
	run := func(c *C, p planSlow) {
		before := boltndGoroutines()
		parallel(c, p.Lives, func(l slowLife) interface{} {
			return planSlow{[]slowLife{l}}
		}, runSlow)
		c.cleanAtOnce()
		noLeftovers(c, before, nil)
	}
	Add("C14", "slow", 8, 60, rule+
		"with messages waiting behind it. Everything must be delivered and "+
		"forwarded in the end. Non-trivial: something waited.",
		func(t *rapid.T) planSlow { return drawSlow(t, 0, false) }, run)
	Add("C15", "slow", 8, 60, rule+
		"with registrations and deregistrations waiting behind it. All must "+
		"end as if nothing had been slow. Non-trivial: always.",
		func(t *rapid.T) planSlow { return drawSlow(t, 6, false) }, run)
	Add("C16", "slow", 8, 60, rule+
		"with messages and registrations waiting behind it when the "+
		"messenger is stopped. Stopping must not return before it has "+
		"ended, and then do so. Non-trivial: always.",
		func(t *rapid.T) planSlow { return drawSlow(t, 3, true) }, run)
}

func runSlow(c *C, l slowLife) {
	var (
		net     = newNet(c)
		n       = net.run()
		next    = net.bare()
		sender  = vertex(pub(1))
		busy    = make(chan struct{})
		over    int32
		first   int32
		fail    error
		w       watch
		hold    = time.Duration(l.Hold) * time.Millisecond
		serial  = 0
		wantGot []string
		hops    int
	)
	if l.Err > 0 {
		fail = nodeErrs[(l.Err-1)%len(nodeErrs)]
	}
	slow := func() error {
		if !atomic.CompareAndSwapInt32(&first, 0, 1) {
			return nil
		}
		close(busy)
		time.Sleep(hold)
		atomic.StoreInt32(&over, 1)
		return fail
	}
	n.listen(64)
	if err := n.m.RegisterHandler(100, func(*lnwire.ReplyPath, []byte,
		[]byte) error {

		return slow()
	}); err != nil {
		c.Failf("registering: %v", err)
	}
	w.attach(n)
	record := n.lnd.send
	n.lnd.send = func(ctx context.Context, m lndclient.CustomMessage) error {
		if err := record(ctx, m); err != nil {
			return err
		}
		if l.Kind == "forward" {
			return slow()
		}
		return nil
	}
	base := 8_000_000
	msg := func(hop bool, types ...uint64) []byte {
		serial++
		path := []*btcec.PublicKey{n.pub}
		if hop {
			path = append(path, next.pub)
			hops++
		}
		var fs []finalPlan
		for _, t := range types {
			v := fmt.Sprintf("%d", serial)
			fs = append(fs, finalPlan{T: t, V: lit([]byte(v))})
			if t == 64 && !hop {
				wantGot = append(wantGot, v)
			}
		}
		return clearMessage(priv(base+2*serial), priv(base+2*serial+1),
			path, nil, fs)
	}
	if l.Kind == "forward" {
		n.push(sender, onionType, msg(true, 64))
	} else {
		n.push(sender, onionType, msg(false, 64, 100))
	}
	c.awaitDone("processing of a message", busy)

	// Let others wait behind it.
	var queue [][]byte
	for i := 0; i < l.Queued; i++ {
		queue = append(queue, msg(i%3 == 2, 64))
	}
	quit := make(chan struct{})
	fed := make(chan struct{})
	go func() {
		defer close(fed)
		for _, m := range queue {
			select {
			case n.lnd.msgs <- lndclient.CustomMessage{
				Peer: sender, MsgType: onionType, Data: m,
			}:
			case <-quit:
				return
			}
		}
	}()
	type reg struct {
		what string
		want error
		err  error
	}
	regs := make([]reg, l.Regs)
	var wg sync.WaitGroup
	for i := range regs {
		r := &regs[i]
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch i % 4 {
			case 0:
				r.what = "registering a free type"
				r.err = n.m.RegisterHandler(tlv.Type(200+i),
					n.handler(200, 0, nil))
			case 1:
				r.what, r.want = "registering a taken type",
					onionmsg.ErrHandlerRegistered
				r.err = n.m.RegisterHandler(64,
					n.handler(64, 0, nil))
			case 2:
				r.what, r.want = "deregistering a free type",
					onionmsg.ErrHandlerNotFound
				r.err = n.m.DeregisterHandler(tlv.Type(300 + i))
			case 3:
				r.what = "deregistering a taken type"
				r.err = n.m.DeregisterHandler(100)
			}
		}()
	}
	regsDone := make(chan struct{})
	go func() {
		wg.Wait()
		close(regsDone)
	}()
	if l.Queued+l.Regs > 0 {
		c.NonTrivial()
	}
	c.Class("%s takes %d ms", l.Kind, l.Hold)

	if l.Stop {
		c.NonTrivial()
		time.Sleep(20 * time.Millisecond)
		var (
			early   bool
			err     error
			stopped = make(chan struct{})
		)
		go func() {
			err = n.m.Stop()
			early = atomic.LoadInt32(&over) == 0
			close(stopped)
		}()
		select {
		case <-stopped:
		case <-time.After(hold):
			c.awaitDone("stop", stopped)
		}
		if early {
			c.Failf("stop returned while a %s was still in progress",
				l.Kind)
		}
		if err != nil {
			c.Failf("stop: %v", err)
		}
		c.awaitDone("a registration pending at stop", regsDone)
		for _, r := range regs {
			switch {
			case errors.Is(r.err, onionmsg.ErrShuttingDown):
			case r.want == nil && r.err == nil:
			case r.want != nil && errors.Is(r.err, r.want):
			default:
				c.Failf("%s, pending at stop: %v", r.what, r.err)
			}
		}
		close(quit)
		if e := n.shutdownErrs(); len(e) > 0 {
			c.Failf("shutdown was asked for: %v", e)
		}
		return
	}

	select {
	case <-regsDone:
	case <-time.After(hold):
		c.awaitDone("a registration behind a slow "+l.Kind, regsDone)
	}
	for _, r := range regs {
		if r.want == nil && r.err != nil ||
			r.want != nil && !errors.Is(r.err, r.want) {

			c.Failf("%s behind a slow %s: %v, want %v", r.what, l.Kind,
				r.err, r.want)
		}
	}
	select {
	case <-fed:
	case <-time.After(hold):
		c.awaitDone("processing of messages behind a slow "+l.Kind, fed)
	}
	// The slow one may still be going on if it holds up nobody.
	for i := 0; atomic.LoadInt32(&over) == 0 && i < 3000; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	n.barrier()
	for k := 0; k < 60 && (len(n.deliveries()) < len(wantGot) ||
		w.count() < hops); k++ {

		n.pause(k)
	}
	got := n.deliveries()
	for i, d := range got {
		if i >= len(wantGot) || string(d.Value) != wantGot[i] {
			c.Failf("delivery %d behind a slow %s is %q, expected %v",
				i, l.Kind, d.Value, wantGot)
		}
	}
	if len(got) != len(wantGot) || w.count() != hops {
		c.Failf("after a slow %s %d of %d payloads were delivered and %d "+
			"of %d messages forwarded", l.Kind, len(got), len(wantGot),
			w.count(), hops)
	}
	if e := n.shutdownErrs(); len(e) > 0 {
		c.Failf("shutdown was asked for: %v", e)
	}
	close(quit)
}

// ---------------------------------------------------------------------------
// Slow answers of lnd: C17, C18, C20, C23.

type slowSend struct {
	// Call is the call to lnd that takes long: "peers", "nodeinfo",
	// "connect", "checks" (the peer only shows up then), "queryroutes",
	// "send", "channels".
	Call string
	Hold int
	// RPC makes the request over the server.
	RPC   bool
	Blind bool
}

type planSlowSend struct {
	Sends []slowSend
}

// lagMeter measures how late timers are.
type lagMeter struct {
	worst int64
	quit  chan struct{}
}

func newLagMeter() *lagMeter {
	l := &lagMeter{quit: make(chan struct{})}
	go func() {
		for {
			t := time.Now()
			select {
			case <-l.quit:
				return
			case <-time.After(5 * time.Millisecond):
			}
			runtime.Gosched()
			late := int64(time.Since(t) - 5*time.Millisecond)
			if late > atomic.LoadInt64(&l.worst) {
				atomic.StoreInt64(&l.worst, late)
			}
		}
	}()
	return l
}

func (l *lagMeter) allow(d time.Duration) time.Duration {
	return d + 20*time.Duration(atomic.LoadInt64(&l.worst))
}

func init() {
	add := func(prop string, rpc bool, rule string, calls ...string) {
		Add(prop, "slow", 8, 60, "48 "+rule+" at a time, with one call to "+
			"lnd taking 0.3 to 12 s. They must succeed all the same, "+
			"soon after lnd answers. Non-trivial: always.",
			func(t *rapid.T) planSlowSend {
				one := rapid.Custom(func(t *rapid.T) slowSend {
					s := slowSend{
						Call: rapid.SampledFrom(calls).
							Draw(t, "call"),
						Hold:  drawHold(t),
						RPC:   rpc,
						Blind: rapid.Bool().Draw(t, "blind"),
					}
					if s.Call == "checks" {
						s.Hold = rapid.IntRange(0, 3600).
							Draw(t, "ms")
					}
					return s
				})
				return planSlowSend{rapid.SliceOfN(one, 48, 48).
					Draw(t, "sends")}
			},
			func(c *C, p planSlowSend) {
				lag := newLagMeter()
				defer close(lag.quit)
				parallel(c, p.Sends, func(s slowSend) interface{} {
					return planSlowSend{[]slowSend{s}}
				}, func(c *C, s slowSend) { runSlowSend(c, s, lag) })
				c.cleanAtOnce()
			})
	}
	add("C17", false, "direct sends", "peers", "nodeinfo", "connect",
		"checks", "checks", "checks", "send")
	add("C18", false, "routed sends", "queryroutes", "send")
	add("C20", true, "requests to send", "peers", "nodeinfo", "connect",
		"checks", "queryroutes", "queryroutes", "send")
	add("C23", true, "requests for a route", "channels", "nodeinfo of a peer")
}

func runSlowSend(c *C, s slowSend, lag *lagMeter) {
	c.NonTrivial()
	c.Class("slow %s", s.Call)
	var (
		net    = newNet(c)
		n      *simNode
		target = nodeKey(3).PubKey()
		start  = time.Now()
		hold   = time.Duration(s.Hold) * time.Millisecond
		mu     sync.Mutex
		shown  time.Time
		joined time.Time
		done   = make(chan struct{})
		direct = s.Call != "queryroutes" && s.Call != "send" || s.Blind &&
			s.Call == "send"
		path = []int{3}
		err  error
	)
	if s.RPC {
		n = net.runServer()
	} else {
		n = net.run()
	}
	slow := func(ctx context.Context, call string) error {
		if call != s.Call {
			return nil
		}
		select {
		case <-time.After(hold):
			mu.Lock()
			shown = time.Now()
			mu.Unlock()
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	n.lnd.ctxHook = slow
	n.lnd.peers = func(ctx context.Context) ([]lndclient.Peer, error) {
		mu.Lock()
		defer mu.Unlock()
		if joined.IsZero() || s.Call == "checks" &&
			time.Since(joined) < hold {

			return nil, nil
		}
		return []lndclient.Peer{{Pubkey: vertex(target)}}, nil
	}
	n.lnd.connect = func(context.Context, route.Vertex, string) error {
		mu.Lock()
		defer mu.Unlock()
		joined = time.Now()
		if s.Call == "checks" {
			shown = joined.Add(hold)
		}
		return nil
	}
	if s.Call == "send" && direct {
		joined = start
	}
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(nodeKey(2).PubKey(), target), nil
	}
	if s.Call == "channels" || s.Call == "nodeinfo of a peer" {
		gen := routeGenPlan{
			Chans: []chanPlan{{Peer: 1, Active: true}},
			Peers: []peerPlan{{Graph: "known", Channels: 2}},
		}
		gen.install(n)
		if s.Call != "channels" {
			s.Call = "nodeinfo"
		}
		var resp *offersrpc.GenerateBlindedRouteResponse
		go func() {
			defer close(done)
			resp, err = n.srv.GenerateBlindedRoute(
				context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{},
			)
		}()
		select {
		case <-done:
		case <-time.After(hold):
			c.awaitDone("generating a route", done)
		}
		if err != nil {
			c.Failf("with lnd taking %v for %s: %v", hold, s.Call, err)
		}
		if bad := usable(fromRPC(c, resp.Route), []int{1}, n.id,
			nil); bad != "" {

			c.Failf("with lnd taking %v for %s: %s", hold, s.Call, bad)
		}
		return
	}
	if !direct {
		path = []int{2, 3}
	}
	var blind *lnwire.ReplyPath
	dest := target
	if s.Blind {
		blind = refRoute(priv(300_000), []*btcec.PublicKey{
			target, nodeKey(9).PubKey(),
		}, nil)
		path = append(path, 9)
		dest = nil
	}
	finals := []finalPlan{{T: 64, V: lit([]byte("x"))}}
	go func() {
		defer close(done)
		if !s.RPC {
			err = n.m.SendMessage(context.Background(),
				onionmsg.NewSendMessageRequest(dest, blind, nil,
					buildFinals(finals), direct))
			return
		}
		req := &offersrpc.SendOnionMessageRequest{
			DirectConnect:      direct,
			BlindedDestination: toRPC(blind),
			FinalPayloads:      map[uint64][]byte{64: []byte("x")},
		}
		if dest != nil {
			req.Pubkey = dest.SerializeCompressed()
		}
		_, err = n.srv.SendOnionMessage(context.Background(), req)
	}()
	select {
	case <-done:
	case <-time.After(hold):
		c.awaitDone("sending", done)
	}
	took := time.Since(start)
	if err != nil {
		c.Failf("with lnd taking %v for %s a send failed: %v", hold, s.Call,
			err)
	}
	wire := net.wireLog()
	if len(wire) != 1 {
		c.Failf("%d messages were sent", len(wire))
	}
	if bad := followWire(wire[0].Data, path, nil, finals); bad != "" {
		c.Failf("%s", bad)
	}
	mu.Lock()
	since := time.Since(shown)
	mu.Unlock()
	if max := lag.allow(4 * time.Second); direct && since > max &&
		s.Call != "peers" {

		c.Failf("the message went out %v after %s (total %v, allowed %v)",
			since, map[bool]string{true: "the peer showed up",
				false: "lnd had answered"}[s.Call == "checks"], took,
			max)
	}
}

// ---------------------------------------------------------------------------
// C22: slow subscribers.

type slowSub struct {
	T, Hold int
	// Queued payloads come while its stream is stuck; Other are further
	// ones of a type with a subscriber of its own.
	Queued, Other int
	// End is how it ends then: "", "cancel", "stop".
	End string
}

type planSlowSub struct {
	Subs []slowSub
}

func init() {
	Add("C22", "slow", 8, 60,
		"24 servers at a time, each with a subscriber whose stream takes "+
			"0.3 to 12 s for one payload while 1 to 400 others arrive, "+
			"and a second subscriber. Every payload must get through in "+
			"order, before the subscription is cancelled or the server "+
			"stopped. Non-trivial: always.",
		func(t *rapid.T) planSlowSub {
			one := rapid.Custom(func(t *rapid.T) slowSub {
				return slowSub{
					T:    rapid.IntRange(0, 4).Draw(t, "t"),
					Hold: drawHold(t),
					Queued: rapid.SampledFrom([]int{1, 3, 8, 30,
						130, 400}).Draw(t, "queued"),
					Other: rapid.IntRange(0, 3).Draw(t, "other"),
					End: rapid.SampledFrom([]string{"", "cancel",
						"stop"}).Draw(t, "end"),
				}
			})
			return planSlowSub{rapid.SliceOfN(one, 24, 24).
				Draw(t, "subs")}
		},
		func(c *C, p planSlowSub) {
			parallel(c, p.Subs, func(s slowSub) interface{} {
				return planSlowSub{[]slowSub{s}}
			}, runSlowSub)
			c.cleanAtOnce()
		})
}

func runSlowSub(c *C, p slowSub) {
	c.NonTrivial()
	c.Class("%d payloads behind %d ms", p.Queued, p.Hold)
	var (
		w     = newSubWorld(c)
		typ   = subTypes[p.T%len(subTypes)]
		other = subTypes[(p.T+1)%len(subTypes)]
		s     = w.open(typ, 0)
		o     = w.open(other, 0)
	)
	w.settle()
	s.mu.Lock()
	s.stall = true
	s.mu.Unlock()
	w.send(nil, 0, typ)
	c.awaitDone("streaming of a payload", s.blocked)
	for i := 0; i < p.Queued; i++ {
		w.send(nil, 0, typ)
		if i < p.Other {
			w.send(nil, 0, other)
		}
	}
	time.Sleep(time.Duration(p.Hold) * time.Millisecond)
	w.mustBeOpen(s)
	w.mustBeOpen(o)
	s.release <- nil
	w.settle()
	switch p.End {
	case "cancel":
		s.leave()
		s.cancel()
		w.end(s, "cancelled", isCode(codes.Canceled))
		w.send(nil, 0, other)
		w.open(typ, 0)
		w.settle()
	case "stop":
		s.leave()
		o.leave()
		var err error
		c.mustEnd("stopping the server", func() { err = w.n.srv.Stop() })
		if err != nil {
			c.Failf("stop: %v", err)
		}
		w.end(s, "server shutdown", isCode(codes.Aborted))
		w.end(o, "server shutdown", isCode(codes.Aborted))
	}
	if e := w.n.shutdownErrs(); len(e) > 0 {
		c.Failf("the server asked for shutdown: %v", e)
	}
}

// ---------------------------------------------------------------------------
// C24: slow starts.

type slowStart struct {
	Kind string
	// Before is how long the call waits for the start, Start how long that
	// takes.
	Before, Start int
	// GiveUp has the caller give up after that long, if not 0.
	GiveUp int
}

type planSlowStart struct {
	Starts []slowStart
}

func init() {
	Add("C24", "slow", 8, 60,
		"32 servers at a time, each with a call made 0.3 to 12 s before it "+
			"is started, and starts that take as long. The call must "+
			"wait for all of that and then complete, or end as "+
			"unavailable when its caller gives up. Non-trivial: always.",
		func(t *rapid.T) planSlowStart {
			one := rapid.Custom(func(t *rapid.T) slowStart {
				s := slowStart{
					Kind: rapid.SampledFrom([]string{"send",
						"decode", "route", "subscribe"}).
						Draw(t, "kind"),
					Before: drawHold(t), Start: drawHold(t),
				}
				if rapid.IntRange(0, 4).Draw(t, "give-up") == 0 {
					s.GiveUp = s.Before/2 + 1
				}
				return s
			})
			return planSlowStart{rapid.SliceOfN(one, 32, 32).
				Draw(t, "starts")}
		},
		func(c *C, p planSlowStart) {
			parallel(c, p.Starts, func(s slowStart) interface{} {
				return planSlowStart{[]slowStart{s}}
			}, runSlowStart)
			c.cleanAtOnce()
		})
}

func runSlowStart(c *C, p slowStart) {
	c.NonTrivial()
	c.Class("%s waits %d ms", p.Kind, p.Before+p.Start)
	var (
		net   = newNet(c)
		n     = net.server()
		peer  = nodeKey(40).PubKey()
		done  = make(chan struct{})
		err   error
		reply *offersrpc.DecodeOfferResponse
		sub   *subscriber
	)
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(peer)}}, nil
	}
	n.lnd.info = func() (*lndclient.Info, error) {
		time.Sleep(time.Duration(p.Start) * time.Millisecond)
		i := &lndclient.Info{}
		copy(i.IdentityPubkey[:], n.pub.SerializeCompressed())
		return i, nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	began := time.Now()
	if p.GiveUp > 0 {
		time.AfterFunc(time.Duration(p.GiveUp)*time.Millisecond, cancel)
	}
	if p.Kind == "subscribe" {
		sub = &subscriber{typ: 64, ctx: ctx, cancel: cancel}
	}
	go func() {
		defer close(done)
		switch p.Kind {
		case "send":
			_, err = n.srv.SendOnionMessage(ctx,
				&offersrpc.SendOnionMessageRequest{
					Pubkey:        peer.SerializeCompressed(),
					DirectConnect: true,
				})
		case "decode":
			reply, err = n.srv.DecodeOffer(ctx,
				&offersrpc.DecodeOfferRequest{Offer: plainOffer()})
		case "route":
			_, err = n.srv.GenerateBlindedRoute(ctx,
				&offersrpc.GenerateBlindedRouteRequest{})
		case "subscribe":
			err = n.srv.SubscribeOnionPayload(
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: 64,
				}, sub)
		}
	}()
	early := func() {
		select {
		case <-done:
			if p.GiveUp > 0 && time.Since(began) >=
				time.Duration(p.GiveUp)*time.Millisecond {

				return
			}
			c.Failf("a %s call ended %v after it was made, before the "+
				"server was ready: %v", p.Kind, time.Since(began),
				err)
		default:
		}
	}
	time.Sleep(time.Duration(p.Before) * time.Millisecond)
	early()
	if p.GiveUp > 0 {
		c.awaitDone("a call whose caller gave up", done)
		if status.Code(err) != codes.Unavailable {
			c.Failf("a %s call whose caller gave up ended with %v",
				p.Kind, err)
		}
		return
	}
	started := make(chan error, 1)
	go func() { started <- n.srv.Start(n.services()) }()
	c.Cleanup(func() { within(20*time.Second, func() { _ = n.srv.Stop() }) })
	if p.Start > 100 {
		time.Sleep(time.Duration(p.Start-100) * time.Millisecond)
		select {
		case e := <-started:
			// Starting need not ask lnd for anything.
			started <- e
		default:
			early()
		}
	}
	select {
	case e := <-started:
		if e != nil {
			c.Failf("starting: %v", e)
		}
	case <-time.After(stuckAfter):
		c.Failf("starting did not end")
	}
	if p.Kind == "subscribe" {
		for d := time.Millisecond; ; {
			n.push(vertex(peer), onionType, clearMessage(
				priv(int(d)), priv(int(d)+1),
				[]*btcec.PublicKey{n.pub}, nil,
				[]finalPlan{{T: 64, V: lit([]byte("x"))}}))
			n.barrier()
			time.Sleep(d)
			if len(sub.received()) > 0 {
				return
			}
			select {
			case <-done:
				c.Failf("a subscription made before the start "+
					"ended with %v", err)
			default:
			}
			if d *= 2; d > stuckAfter/4 {
				c.stuck("a subscription being served", done)
			}
		}
	}
	c.awaitDone("a call made before the start", done)
	switch p.Kind {
	case "send":
		if err != nil || len(net.wireLog()) != 1 {
			c.Failf("a send made before the start: %v, %d messages "+
				"sent", err, len(net.wireLog()))
		}
	case "decode":
		if err != nil || reply.Offer.Description != c24Offer {
			c.Failf("a decode made before the start: %v", err)
		}
	case "route":
		if status.Code(err) != codes.Internal {
			c.Failf("a route asked for before the start, of a node "+
				"without channels: %v", err)
		}
	}
}
