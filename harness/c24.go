package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// callC24 is one RPC.
type callC24 struct {
	// Kind is send, routed, decode, route or subscribe.
	Kind string
	// GiveUp has the caller give up: "", "cancel", "deadline", "at once"
	// (before the call is made).
	GiveUp string `json:",omitempty"`
	// T is the type of a subscription (its number).
	T int `json:",omitempty"`
	// Again is whether it gives up only after the start was tried.
	Again bool `json:",omitempty"`
}

type planC24 struct {
	Before []callC24
	// Start is how starting goes: ok, "" (not started), or the fault.
	Start string
	Err   int
	// Starts and Stops are how many calls are made at the same time.
	Starts, Stops int
	After         []callC24
	// Death of the message stream after starting.
	Death string
	// Cancels have that many subscriptions cancelled before the stop.
	Cancels int
	// Busy has messages arriving while the server is stopped.
	Busy bool
	// Stuck payloads are sent, before the stop, to a subscriber whose
	// stream does not take the first of them.
	Stuck int `json:",omitempty"`
}

func drawC24(t *rapid.T) planC24 {
	call := func(giveUp bool) *rapid.Generator[callC24] {
		return rapid.Custom(func(t *rapid.T) callC24 {
			c := callC24{
				Kind: rapid.SampledFrom([]string{"send", "routed",
					"decode", "route", "subscribe", "subscribe"}).
					Draw(t, "kind"),
				T: rapid.IntRange(0, len(subTypes)-1).Draw(t, "t"),
			}
			if giveUp {
				c.GiveUp = rapid.SampledFrom([]string{"", "", "",
					"cancel", "deadline", "at once"}).Draw(
					t, "give-up")
				c.Again = rapid.Bool().Draw(t, "again")
			}
			return c
		})
	}
	least, most := 0, 6
	if rapid.IntRange(0, 39).Draw(t, "crowd") == 0 {
		least = rapid.SampledFrom([]int{20, 70, 140, 300}).
			Draw(t, "least")
		most = least + 20
	}
	return planC24{
		Before: rapid.SliceOfN(call(true), least, most).Draw(t, "before"),
		Start: rapid.SampledFrom([]string{"ok", "ok", "ok", "ok",
			"info fails", "bad key", ""}).Draw(t, "start"),
		Err:     rapid.IntRange(0, 20).Draw(t, "err"),
		Starts:  rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "starts"),
		Stops:   rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "stops"),
		After:   rapid.SliceOfN(call(false), 0, 4).Draw(t, "after"),
		Cancels: rapid.IntRange(0, 2).Draw(t, "cancels"),
		Death: rapid.SampledFrom([]string{"", "", "", "err",
			"msgs closed", "errs closed"}).Draw(t, "death"),
		Busy:  rapid.Bool().Draw(t, "busy"),
		Stuck: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 8}).Draw(t, "stuck"),
	}
}

func init() {
	s := Add("C24", "lives", 1500, 40000,
		"Random lives of a server: calls (at times hundreds) of every method before it is "+
			"started, some of whose callers give up before or after, "+
			"one to four concurrent starts that succeed or fail, calls "+
			"afterwards, a message stream that dies, concurrent stops "+
			"with subscriptions open, one of whose streams may be stuck, "+
			"and messages arriving, and second "+
			"starts and stops. Checked: nothing reaches lnd before "+
			"the start, every call ends with what it asked for or as "+
			"unavailable, results of start and stop, what is left "+
			"running. Non-trivial: a call was pending at the start, or "+
			"a subscription was open at the stop.",
		drawC24, runC24)
	s.Procs = 4
}

// pendingCall is an RPC in progress.
type pendingCall struct {
	callC24
	i      int
	cancel func()
	done   chan struct{}
	err    error
	offer  *offersrpc.Offer
	sub    *subscriber
}

func (p *pendingCall) String() string {
	return fmt.Sprintf("%s call %d", p.Kind, p.i)
}

func (p *pendingCall) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

const c24Offer = "a plain offer"

var (
	c24OfferOnce   sync.Once
	c24OfferString string
)

// plainOffer is the string of a valid unsigned offer.
func plainOffer() string {
	c24OfferOnce.Do(func() {
		c24OfferString = offerString(encodeRecs([]Rec{
			{10, []byte(c24Offer)},
			{30, pub(77).SerializeCompressed()[1:]},
		}))
	})
	return c24OfferString
}

func runC24(c *C, p planC24) {
	var (
		before = boltndGoroutines()
		net    = newNet(c)
		n      = net.server()
		peer   = nodeKey(40).PubKey()
		hop    = nodeKey(41).PubKey()
		calls  []*pendingCall
		types  = map[uint64]bool{}
		fault  = nodeErrs[p.Err%len(nodeErrs)]
	)
	c.Cleanup(func() { within(20*time.Second, func() { _ = n.srv.Stop() }) })
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(peer)}}, nil
	}
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(hop, peer), nil
	}
	n.lnd.channels = func(bool, bool) ([]lndclient.ChannelInfo, error) {
		return nil, nil
	}
	switch p.Start {
	case "info fails":
		n.lnd.info = func() (*lndclient.Info, error) { return nil, fault }
	case "bad key":
		n.lnd.info = func() (*lndclient.Info, error) {
			return &lndclient.Info{
				IdentityPubkey: [33]byte{5, 1, 2, 3},
			}, nil
		}
	}

	launch := func(k callC24) *pendingCall {
		pc := &pendingCall{
			callC24: k, i: len(calls), done: make(chan struct{}),
		}
		ctx, cancel := context.WithCancel(context.Background())
		pc.cancel = cancel
		if k.GiveUp == "deadline" && !k.Again {
			ctx, cancel = context.WithTimeout(ctx, time.Millisecond)
		}
		if k.GiveUp == "at once" {
			cancel()
		}
		c.Cleanup(cancel)
		c.Cleanup(pc.cancel)
		if k.Kind == "subscribe" {
			t := subTypes[k.T%len(subTypes)]
			stays := k.GiveUp == "" || k.Again && k.GiveUp != "at once"
			if types[t] && stays {
				pc.Kind = "decode"
			} else {
				types[t] = types[t] || stays
				pc.sub = &subscriber{
					typ: t, ctx: ctx, cancel: pc.cancel,
					id: pc.i, blocked: make(chan struct{}),
					release: make(chan error, 1),
				}
			}
		}
		go func() {
			defer close(pc.done)
			switch pc.Kind {
			case "send", "routed":
				_, pc.err = n.srv.SendOnionMessage(ctx,
					&offersrpc.SendOnionMessageRequest{
						Pubkey:        peer.SerializeCompressed(),
						DirectConnect: pc.Kind == "send",
						FinalPayloads: map[uint64][]byte{
							64: []byte(fmt.Sprint(pc.i)),
						},
					})
			case "decode":
				var r *offersrpc.DecodeOfferResponse
				r, pc.err = n.srv.DecodeOffer(ctx,
					&offersrpc.DecodeOfferRequest{
						Offer: plainOffer(),
					})
				if pc.err == nil {
					pc.offer = r.Offer
				}
			case "route":
				_, pc.err = n.srv.GenerateBlindedRoute(ctx,
					&offersrpc.GenerateBlindedRouteRequest{})
			case "subscribe":
				pc.err = n.srv.SubscribeOnionPayload(
					&offersrpc.SubscribeOnionPayloadRequest{
						TlvType: pc.sub.typ,
					}, pc.sub)
			}
		}()
		calls = append(calls, pc)
		return pc
	}
	givenUp := func(pc *pendingCall) {
		c.awaitDone(pc.String()+", whose caller gave up,", pc.done)
		if status.Code(pc.err) != codes.Unavailable {
			c.Failf("%s, whose caller gave up (%s) before the server "+
				"was ready, ended with %v", pc, pc.GiveUp, pc.err)
		}
		c.Class("gave up")
	}
	quiet := func(when string) {
		if got := n.lnd.lookups(); len(got) > 0 {
			c.Failf("lnd got a %s call %s", got[0].Op, when)
		}
	}

	// Before the start.
	for _, k := range p.Before {
		launch(k)
	}
	for _, pc := range calls {
		if pc.GiveUp == "" || pc.Again && pc.GiveUp != "at once" {
			continue
		}
		if pc.GiveUp == "cancel" {
			time.Sleep(100 * time.Microsecond)
			pc.cancel()
		}
		givenUp(pc)
	}
	waiting := func() (out []*pendingCall) {
		for _, pc := range calls {
			if pc.GiveUp == "" || pc.Again && pc.GiveUp != "at once" {
				out = append(out, pc)
			}
		}
		return
	}
	if len(waiting()) > 0 {
		time.Sleep(500 * time.Microsecond)
	}
	if len(waiting()) > 16 {
		c.Class("more than 16 calls wait for the start")
		time.Sleep(50 * time.Millisecond)
	}
	for _, pc := range waiting() {
		if pc.ended() {
			c.Failf("%s ended before the server was started: %v", pc,
				pc.err)
		}
	}
	quiet("before the server was started")

	// Start.
	ready := p.Start == "ok"
	if p.Start != "" {
		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			errs []error
			ok   int
		)
		for i := 0; i < p.Starts; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := n.srv.Start(n.services())
				mu.Lock()
				defer mu.Unlock()
				if err == nil {
					ok++
				} else {
					errs = append(errs, err)
				}
			}()
		}
		c.mustEnd("starting", wg.Wait)
		switch {
		case ready && ok != 1:
			c.Failf("%d of %d starts succeeded: %v", ok, p.Starts, errs)
		case !ready && ok > 0:
			c.Failf("a start succeeded although %s", p.Start)
		}
		if p.Start == "info fails" {
			any := false
			for _, err := range errs {
				any = any || carries(err, fault)
			}
			if !any {
				c.Failf("lnd failed with %v, starting failed with %v",
					fault, errs)
			}
		}
		n.lnd.info = nil
		var err error
		c.mustEnd("starting again", func() {
			err = n.srv.Start(n.services())
		})
		if err == nil {
			c.Failf("starting again succeeded (first start: %s)", p.Start)
		}
	}

	w := &subWorld{c: c, n: n, log: map[uint64][]logged{}}
	hear := func(pc *pendingCall) {
		// A subscription is open once it gets payloads.
		for d := 50 * time.Microsecond; ; {
			w.serial++
			v := []byte(fmt.Sprintf("%d:%d", w.serial, pc.sub.typ))
			n.push(vertex(peer), onionType, clearMessage(
				priv(2*w.serial), priv(2*w.serial+1),
				[]*btcec.PublicKey{n.pub}, nil,
				[]finalPlan{{T: pc.sub.typ, V: lit(v)}}))
			n.barrier()
			for i := 0; i < 20; i++ {
				if len(pc.sub.received()) > 0 {
					return
				}
				if pc.ended() {
					c.Failf("%s ended: %v", pc, pc.err)
				}
				time.Sleep(d / 2)
			}
			if d *= 2; d > stuckAfter/4 {
				c.stuck(pc.String()+" being served", pc.done)
			}
		}
	}
	completes := func(pc *pendingCall) {
		if pc.Kind == "subscribe" {
			hear(pc)
			return
		}
		c.awaitDone(pc.String(), pc.done)
		switch pc.Kind {
		case "send", "routed":
			to, sent := vertex(peer), 0
			if pc.Kind == "routed" {
				to = vertex(hop)
			}
			for _, m := range net.wireLog() {
				if m.To == to {
					sent++
				}
			}
			if pc.err != nil || sent == 0 {
				c.Failf("%s: %v, %d messages sent", pc, pc.err, sent)
			}
		case "decode":
			if pc.err != nil || pc.offer.Description != c24Offer {
				c.Failf("%s: %v, offer %v", pc, pc.err, pc.offer)
			}
		case "route":
			// This node has no channels.
			if status.Code(pc.err) != codes.Internal {
				c.Failf("%s of a node without channels: %v", pc,
					pc.err)
			}
		}
	}

	if ready {
		for _, pc := range waiting() {
			pc.GiveUp = ""
			completes(pc)
			c.NonTrivial()
			c.Class("pending %s completed", pc.Kind)
		}
		for _, k := range p.After {
			completes(launch(k))
			c.Class("%s completed", k.Kind)
		}
		want := map[route.Vertex]int{}
		for _, pc := range calls {
			if pc.GiveUp == "" && pc.Kind == "send" {
				want[vertex(peer)]++
			}
			if pc.GiveUp == "" && pc.Kind == "routed" {
				want[vertex(hop)]++
			}
		}
		for _, m := range net.wireLog() {
			want[m.To]--
		}
		for to, d := range want {
			if d != 0 {
				c.Failf("%d messages too few were sent to %x (or too "+
					"many, if negative)", d, to[:])
			}
		}
	} else {
		for _, pc := range waiting() {
			if pc.ended() {
				c.Failf("%s ended (%v) although the server never "+
					"became ready", pc, pc.err)
			}
			if pc.Again {
				pc.GiveUp = "after a failed start"
				pc.cancel()
				givenUp(pc)
			}
		}
		quiet("although the server never became ready")
	}

	// The stream may die.
	died := p.Death != "" && ready
	cause := nodeErrs[p.Err%len(nodeErrs)]
	if died {
		switch p.Death {
		case "err":
			select {
			case n.lnd.errs <- cause:
			case <-time.After(stuckAfter):
				c.Failf("the server does not take errors of its stream")
			}
		case "errs closed":
			close(n.lnd.errs)
			cause = nil
		case "msgs closed":
			close(n.lnd.msgs)
			cause = nil
		}
		awaitShutdown(c, n, "the stream died ("+p.Death+")")
		c.Class("stream died")
	}

	// Some subscribers leave.
	var open []*pendingCall
	cancels := p.Cancels
	for _, pc := range calls {
		if pc.Kind != "subscribe" || !ready || pc.GiveUp != "" {
			continue
		}
		if pc.ended() {
			c.Failf("%s ended: %v", pc, pc.err)
		}
		if cancels > 0 {
			cancels--
			pc.cancel()
			c.awaitDone(pc.String()+", cancelled,", pc.done)
			if status.Code(pc.err) != codes.Canceled {
				c.Failf("%s, cancelled, ended with %v", pc, pc.err)
			}
			continue
		}
		open = append(open, pc)
	}

	// Stop, possibly with messages arriving and a stream that is stuck.
	quit := make(chan struct{})
	var (
		feeders sync.WaitGroup
		msgs    [][]byte
		stuck   *subscriber
	)
	if p.Stuck > 0 && len(open) > 0 && !died {
		stuck = open[0].sub
		stuck.mu.Lock()
		stuck.stall = true
		stuck.mu.Unlock()
		for i := 0; i < p.Stuck; i++ {
			w.serial++
			msgs = append(msgs, clearMessage(priv(2*w.serial),
				priv(2*w.serial+1), []*btcec.PublicKey{n.pub}, nil,
				[]finalPlan{{T: stuck.typ, V: lit([]byte("y"))}}))
		}
		c.Class("stopped with a stuck stream")
	}
	if p.Busy && ready && p.Death != "msgs closed" {
		for i := 0; i < 3; i++ {
			for _, t := range subTypes {
				w.serial++
				msgs = append(msgs, clearMessage(priv(2*w.serial),
					priv(2*w.serial+1), []*btcec.PublicKey{n.pub},
					nil, []finalPlan{{T: t, V: lit([]byte("x"))}}))
			}
		}
		c.Class("messages arriving at stop")
	}
	if len(msgs) > 0 {
		feeders.Add(1)
		go func() {
			defer feeders.Done()
			for _, m := range msgs {
				select {
				case n.lnd.msgs <- lndclient.CustomMessage{
					Peer: vertex(peer), MsgType: onionType, Data: m,
				}:
				case <-quit:
					return
				}
			}
		}()
	}
	if stuck != nil {
		c.awaitDone("streaming of a payload", stuck.blocked)
		time.Sleep(time.Duration(p.Stuck) * 100 * time.Microsecond)
	}
	var (
		wg   sync.WaitGroup
		mu   sync.Mutex
		ok   int
		errs []error
	)
	for i := 0; i < p.Stops; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := n.srv.Stop()
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				ok++
			} else {
				errs = append(errs, err)
			}
		}()
	}
	c.mustEnd("stopping", wg.Wait)
	close(quit)
	feeders.Wait()
	if stuck != nil {
		stuck.release <- nil
	}
	if ok != 1 && p.Start != "" {
		c.Failf("%d of %d stops succeeded (start: %s): %v", ok, p.Stops,
			p.Start, errs)
	}
	var err error
	c.mustEnd("stopping again", func() { err = n.srv.Stop() })
	if err == nil {
		c.Failf("stopping again succeeded")
	}
	for _, pc := range open {
		c.awaitDone(pc.String()+", open when the server was stopped,",
			pc.done)
		if status.Code(pc.err) != codes.Aborted {
			c.Failf("%s, open when the server was stopped, ended with %v",
				pc, pc.err)
		}
		c.Class("subscription aborted")
		c.NonTrivial()
	}
	if !ready {
		// Calls still waiting end at the latest when their callers
		// give up.
		for _, pc := range waiting() {
			pc.cancel()
			c.awaitDone(pc.String()+", whose caller gave up,", pc.done)
			if pc.err == nil {
				c.Failf("%s succeeded although the server never "+
					"became ready", pc)
			}
		}
		quiet("although the server never became ready")
	} else {
		streamReleased(c, n)
	}
	noServerLeft(c, before)
	if ready && p.Death != "msgs closed" {
		select {
		case n.lnd.msgs <- lndclient.CustomMessage{MsgType: otherType}:
			c.Failf("a stopped server takes messages")
		case <-time.After(time.Millisecond):
		}
	}
	down := n.shutdownErrs()
	switch {
	case !died && len(down) > 0:
		c.Failf("shutdown was asked for without reason: %v", down)
	case died && len(down) != 1:
		c.Failf("shutdown was asked for %d times: %v", len(down), down)
	case died && cause != nil && !carries(down[0], cause):
		c.Failf("shutdown was asked for with %v, the cause is %v", down[0],
			cause)
	}
	c.Class("start: %s", p.Start)
}

// noServerLeft checks that nothing the server started is still running.
func noServerLeft(c *C, before map[string]string) {
	var left string
	for i := 0; i < 200; i++ {
		left = ""
		for id, g := range boltndGoroutines() {
			if _, ok := before[id]; !ok &&
				!strings.Contains(g, "main.runC24") {

				left = g
			}
		}
		if left == "" {
			return
		}
		time.Sleep(time.Duration(i+1) * time.Millisecond / 2)
	}
	c.Failf("after the server was stopped there is still work going on:\n"+
		"%.1500s", left)
}
