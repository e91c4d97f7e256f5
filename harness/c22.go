package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// subTypes are the payload types that subscriptions are made for.
var subTypes = []uint64{64, 65, 300, 1 << 32, math.MaxUint64}

type subStep struct {
	// Op is one of open, msg, cancel, fail, stall, release, reject, settle.
	Op string
	// T is an index into subTypes.
	T int
	// Also are further types a message has payloads for.
	Also []int `json:",omitempty"`
	// Reply gives a message a reply path; Pad pads its payloads.
	Reply *pathPlan `json:",omitempty"`
	Pad   int       `json:",omitempty"`
	// Quick opens or cancels without waiting for messages on their way.
	Quick bool `json:",omitempty"`
	// Err numbers the error a stream fails with.
	Err int `json:",omitempty"`
	// Bad is an invalid type.
	Bad uint64 `json:",omitempty"`
}

type planC22 struct {
	Steps []subStep
	// Slow makes every send on a stream take this many units of 50us.
	Slow int
	// Stops is how the history ends: with the server stopped, or not.
	Stops bool
	// Unsettled stops without waiting for what is under way.
	Unsettled bool
}

func drawC22(t *rapid.T) planC22 {
	n := rapid.IntRange(1, 3).Draw(t, "types")
	typ := rapid.IntRange(0, n-1)
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		typ = rapid.IntRange(0, len(subTypes)-1)
	}
	step := rapid.Custom(func(t *rapid.T) subStep {
		s := subStep{
			Op: rapid.SampledFrom([]string{"open", "open", "open",
				"msg", "msg", "msg", "msg", "msg", "msg", "cancel",
				"fail", "stall", "stall", "release", "settle",
				"invalid"}).Draw(t, "op"),
			T: typ.Draw(t, "t"),
		}
		switch s.Op {
		case "msg":
			s.Also = rapid.SliceOfNDistinct(typ, 0, 2,
				rapid.ID[int]).Draw(t, "also")
			if rapid.IntRange(0, 2).Draw(t, "reply?") == 0 {
				s.Reply = drawPath(t, false)
			}
			s.Pad = rapid.SampledFrom([]int{0, 0, 1, 30, 150}).Draw(
				t, "pad")
		case "open", "cancel":
			s.Quick = rapid.Bool().Draw(t, "quick")
		case "fail", "release":
			s.Err = rapid.IntRange(0, len(subErrs)-1).Draw(t, "err")
		case "invalid":
			s.Bad = rapid.OneOf(rapid.Uint64Range(0, 63),
				rapid.SampledFrom([]uint64{0, 1, 62, 63})).Draw(
				t, "bad")
		}
		return s
	})
	return planC22{
		Steps: append([]subStep{{Op: "open", T: 0}},
			rapid.SliceOfN(step, 2, 24).Draw(t, "steps")...),
		Slow:      rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "slow"),
		Stops:     rapid.IntRange(0, 3).Draw(t, "stops") > 0,
		Unsettled: rapid.IntRange(0, 2).Draw(t, "unsettled") == 0,
	}
}

// subErrs are errors of a stream; the first means none for a release.
var subErrs = []error{
	nil,
	errors.New("transport is closing"),
	status.Error(codes.Unavailable, "connection reset"),
	status.Error(codes.ResourceExhausted, "message too large"),
	status.Error(codes.Canceled, "stream canceled"),
	context.DeadlineExceeded,
}

func init() {
	s := Add("C22", "histories", 2400, 60000,
		"Histories of subscriptions on a running server: opening, "+
			"messages with payloads of one to three types and reply "+
			"paths, client cancels, streams that fail, streams that "+
			"get stuck with messages queued behind them and are then "+
			"released, failed or cancelled, second subscriptions to "+
			"the same type, invalid types, and stopping the server in "+
			"the middle of all that. Each subscriber must get a gapless "+
			"run of the payloads of its type. Non-trivial: a "+
			"subscription ended with payloads queued, or two were "+
			"open at once and got payloads.",
		drawC22, runC22)
	s.Procs = 3
	s.Assume = []string{"while one subscriber's stream is stuck, opening " +
		"and ending other subscriptions may wait for it"}

	s = Add("C22", "contention", 900, 20000,
		"Several clients open and cancel subscriptions to the same one "+
			"or two types at the same time while messages arrive. At "+
			"most one is served at any time, each gets a gapless run "+
			"of payloads, a refused one is refused because of another, "+
			"and afterwards the types are available. Non-trivial: two "+
			"clients got payloads and one was refused.",
		drawC22Contention, runC22Contention)
	s.Procs = 4
}

// subscriber is one call of the subscribe method.
type subscriber struct {
	grpc.ServerStream

	id     int
	typ    uint64
	ctx    context.Context
	cancel func()
	slow   time.Duration

	mu      sync.Mutex
	got     []*offersrpc.SubscribeOnionPayloadResponse
	fail    error
	stall   bool
	ended   bool
	late    bool
	overlap int32
	// ending is set when the subscription is about to be ended from
	// outside, cut is what it had got by then.
	ending bool
	cut    int

	blocked chan struct{}
	release chan error
	done    chan struct{}
	err     error
}

func (s *subscriber) Context() context.Context { return s.ctx }

func (s *subscriber) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	// Streams may not be written to by two goroutines at a time.
	defer atomic.AddInt32(&s.overlap, -1)
	if atomic.AddInt32(&s.overlap, 1) > 1 {
		s.mu.Lock()
		s.late = true
		s.mu.Unlock()
	}
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.stall {
		s.stall = false
		s.mu.Unlock()
		close(s.blocked)
		var err error
		select {
		case err = <-s.release:
		case <-s.ctx.Done():
			err = status.FromContextError(s.ctx.Err()).Err()
		}
		s.mu.Lock()
		if err != nil {
			return err
		}
	}
	if s.fail != nil {
		return s.fail
	}
	if s.ended {
		s.late = true
	}
	s.got = append(s.got,
		proto.Clone(r).(*offersrpc.SubscribeOnionPayloadResponse))
	return nil
}

// leave marks that the client or the server is about to end the subscription.
// Payloads that arrive from then on may or may not be streamed.
func (s *subscriber) leave() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.ending {
		s.ending, s.cut = true, len(s.got)
	}
}

func (s *subscriber) received() []*offersrpc.SubscribeOnionPayloadResponse {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*offersrpc.SubscribeOnionPayloadResponse{}, s.got...)
}

func newSubscriber(n *simNode, id int, typ uint64,
	slow time.Duration) *subscriber {

	ctx, cancel := context.WithCancel(context.Background())
	s := &subscriber{
		id: id, typ: typ, ctx: ctx, cancel: cancel, slow: slow,
		blocked: make(chan struct{}), release: make(chan error, 1),
		done: make(chan struct{}),
	}
	n.net.c.Cleanup(cancel)
	go func() {
		defer close(s.done)
		err := n.srv.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ}, s,
		)
		s.mu.Lock()
		s.err, s.ended = err, true
		s.mu.Unlock()
	}()
	return s
}

// logged is a payload that was put in front of the node.
type logged struct {
	value []byte
	reply *lnwire.ReplyPath
}

// subWorld runs a plan.
type subWorld struct {
	c      *C
	n      *simNode
	serial int
	// log has every payload per type, in order; safe is how many of them
	// the node has certainly processed.
	log  map[uint64][]logged
	safe map[uint64]int
	// active is the subscription of each type; low is the first payload
	// it can have got.
	active map[uint64]*subscriber
	low    map[*subscriber]int
	ids    int

	feed    chan lndclient.CustomMessage
	pending int64
	// patience is how long the wait for one of the payloads that show a
	// subscription to be open may get, if not 0.
	patience time.Duration
}

func newSubWorld(c *C) *subWorld {
	net := newNet(c)
	w := &subWorld{
		c: c, n: net.runServer(), log: map[uint64][]logged{},
		safe: map[uint64]int{}, active: map[uint64]*subscriber{},
		low:  map[*subscriber]int{},
		feed: make(chan lndclient.CustomMessage, 1000),
	}
	quit := make(chan struct{})
	c.Cleanup(func() { close(quit) })
	go func() {
		for {
			select {
			case m := <-w.feed:
				select {
				case w.n.lnd.msgs <- m:
					atomic.AddInt64(&w.pending, -1)
				case <-quit:
					return
				}
			case <-quit:
				return
			}
		}
	}()
	return w
}

func (w *subWorld) put(m lndclient.CustomMessage) {
	atomic.AddInt64(&w.pending, 1)
	w.feed <- m
}

// send puts a message with a payload for each type in front of the node.
func (w *subWorld) send(reply *lnwire.ReplyPath, pad int, types ...uint64) {
	w.serial++
	var (
		finals []finalPlan
		values [][]byte
	)
	for _, t := range types {
		v := []byte(fmt.Sprintf("%d:%d/%s", w.serial, t,
			strings.Repeat("x", pad)))
		values = append(values, v)
		finals = append(finals, finalPlan{T: t, V: lit(v)})
	}
	if !fits(1, nil, reply, finals) {
		reply = nil
	}
	m := clearMessage(priv(3_000_000+2*w.serial), priv(3_000_001+2*w.serial),
		[]*btcec.PublicKey{w.n.pub}, reply, finals)
	for i, t := range types {
		w.log[t] = append(w.log[t], logged{values[i], reply})
	}
	w.put(lndclient.CustomMessage{
		Peer: vertex(pub(1)), MsgType: onionType, Data: m,
	})
}

// flush waits until the node has processed all messages.
func (w *subWorld) flush(why string) {
	w.put(lndclient.CustomMessage{MsgType: otherType})
	done := make(chan struct{})
	quit := make(chan struct{})
	defer close(quit)
	go func() {
		for d := 10 * time.Microsecond; ; {
			if atomic.LoadInt64(&w.pending) == 0 {
				close(done)
				return
			}
			select {
			case <-quit:
				return
			case <-time.After(d):
			}
			if d < time.Millisecond {
				d *= 2
			}
		}
	}()
	w.c.awaitDone("processing of messages "+why, done)
	for t, l := range w.log {
		w.safe[t] = len(l)
	}
}

// verify checks what a subscriber got so far. complete demands that it has
// got everything since it was opened.
func (w *subWorld) verify(s *subscriber) (complete bool) {
	got, log := s.received(), w.log[s.typ]
	if len(got) == 0 {
		return false
	}
	start := -1
	for i := range log {
		if bytes.Equal(log[i].value, got[0].Value) {
			start = i
		}
	}
	if start < w.low[s] {
		w.c.Failf("subscription %d to type %d got the payload %.60q, "+
			"which is not one of those that arrived since it was opened",
			s.id, s.typ, got[0].Value)
	}
	s.mu.Lock()
	ending, cut := s.ending, s.cut
	s.mu.Unlock()
	at := start - 1
	for i, g := range got {
		at++
		for ending && i >= cut && at < len(log) &&
			!bytes.Equal(log[at].value, g.Value) {

			at++
		}
		if at >= len(log) || !bytes.Equal(log[at].value, g.Value) {
			want := "nothing"
			if at < len(log) {
				want = fmt.Sprintf("%.60q", log[at].value)
			}
			w.c.Failf("subscription %d to type %d got %.60q as payload "+
				"number %d, expected %s", s.id, s.typ, g.Value, i, want)
		}
		if r := fromRPC(w.c, g.ReplyPath); !samePath(r, log[at].reply) {
			w.c.Failf("payload %.60q came with reply path %s, expected %s",
				g.Value, pathString(r), pathString(log[at].reply))
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.late {
		w.c.Failf("the stream of subscription %d was written to after "+
			"the call ended, or by two at once", s.id)
	}
	return at+1 == len(log)
}

// until waits for cond, which needs nothing but time.
func (w *subWorld) until(what string, cond func() bool) {
	done := make(chan struct{})
	quit := make(chan struct{})
	defer close(quit)
	var fail interface{}
	go func() {
		defer func() {
			if fail = caught(recover()); fail != nil {
				close(done)
			}
		}()
		for d := 10 * time.Microsecond; ; {
			if cond() {
				close(done)
				return
			}
			select {
			case <-quit:
				return
			case <-time.After(d):
			}
			if d < 5*time.Millisecond {
				d *= 2
			}
		}
	}()
	w.c.awaitDone(what, done)
	if fail != nil {
		panic(fail)
	}
}

// settle waits until every subscriber has everything.
func (w *subWorld) settle() {
	w.flush("with no stream stuck")
	for _, t := range subTypes {
		if s := w.active[t]; s != nil {
			w.until(fmt.Sprintf("subscription %d to type %d getting all "+
				"payloads", s.id, t), func() bool {

				w.mustBeOpen(s)
				return w.verify(s)
			})
		}
	}
}

func (w *subWorld) mustBeOpen(s *subscriber) {
	select {
	case <-s.done:
		w.c.Failf("subscription %d to type %d ended by itself: %v", s.id,
			s.typ, s.err)
	default:
	}
}

// open opens a subscription and waits until it is served.
func (w *subWorld) open(typ uint64, slow int) *subscriber {
	w.ids++
	s := newSubscriber(w.n, w.ids, typ, time.Duration(slow)*50*time.Microsecond)
	w.low[s] = w.safe[typ]
	w.active[typ] = s
	for d := 50 * time.Microsecond; ; {
		// The only way to see that it is open is that payloads come.
		time.Sleep(d)
		w.mustBeOpen(s)
		w.send(nil, 0, typ)
		w.flush("after opening a subscription")
		for i := 0; i < 20; i++ {
			if len(s.received()) > 0 {
				return s
			}
			time.Sleep(d / 2)
		}
		d *= 2
		if w.patience > 0 && d > w.patience {
			w.c.Failf("a subscription to the free type %d is not "+
				"served", typ)
		}
		if d > stuckAfter/4 {
			w.c.stuck(fmt.Sprintf("a subscription to the free type %d "+
				"being served", typ), s.done)
		}
	}
}

// end waits for the end of a subscription and checks what it got.
func (w *subWorld) end(s *subscriber, why string, ok func(error) bool) {
	w.c.awaitDone(fmt.Sprintf("a subscription (%s)", why), s.done)
	if !ok(s.err) {
		w.c.Failf("subscription %d ended with %v (%s)", s.id, s.err, why)
	}
	w.verify(s)
	if w.active[s.typ] == s {
		delete(w.active, s.typ)
	}
	w.c.Class("%s", why)
}

func isCode(cs ...codes.Code) func(error) bool {
	return func(err error) bool {
		for _, c := range cs {
			if status.Code(err) == c {
				return true
			}
		}
		return false
	}
}

func withCause(want error) func(error) bool {
	return func(err error) bool {
		return err != nil && carries(err, want)
	}
}

func runC22(c *C, p planC22) {
	var (
		w       = newSubWorld(c)
		stuck   *subscriber
		queued  int
		ending  []*subscriber
		stopped bool
	)
	for _, st := range p.Steps {
		typ := subTypes[st.T%len(subTypes)]
		s := w.active[typ]
		switch st.Op {
		case "open":
			if stuck != nil {
				continue
			}
			if s == nil {
				w.open(typ, p.Slow)
				continue
			}
			w.ids++
			d := newSubscriber(w.n, w.ids, typ, 0)
			if st.Quick {
				// With messages on their way.
				w.send(nil, 0, typ)
			}
			w.end(d, "second subscription", isCode(codes.Unavailable))
			if len(d.received()) > 0 {
				c.Failf("a refused subscription got payloads")
			}
			w.mustBeOpen(s)

		case "invalid":
			w.ids++
			d := newSubscriber(w.n, w.ids, st.Bad, 0)
			w.end(d, "invalid type", isCode(codes.InvalidArgument))

		case "msg":
			types := []uint64{typ}
			if stuck == nil {
				for _, a := range st.Also {
					if t := subTypes[a%len(subTypes)]; t != typ {
						types = append(types, t)
					}
				}
			} else if queued++; queued > 8 {
				continue
			}
			var reply *lnwire.ReplyPath
			if st.Reply != nil {
				reply = st.Reply.build()
			}
			w.send(reply, st.Pad, types...)
			if len(w.active) > 1 && stuck == nil {
				c.NonTrivial()
			}

		case "cancel":
			switch {
			case s == nil:
			case s == stuck:
				s.leave()
				s.cancel()
				w.end(s, "stuck stream cancelled", isCode(codes.Canceled))
				stuck = nil
				if queued > 0 {
					c.NonTrivial()
				}
				if !st.Quick {
					w.flush("after a stuck subscription was cancelled")
				}
			case stuck != nil:
				// Its end may have to wait.
				s.leave()
				s.cancel()
				ending = append(ending, s)
				delete(w.active, typ)
			default:
				if !st.Quick {
					w.settle()
				} else {
					c.NonTrivial()
				}
				s.leave()
				s.cancel()
				w.end(s, "cancelled", isCode(codes.Canceled))
			}

		case "fail":
			if s == nil || stuck != nil || subErrs[st.Err] == nil {
				continue
			}
			w.settle()
			s.mu.Lock()
			s.fail = subErrs[st.Err]
			s.mu.Unlock()
			w.send(nil, 0, typ)
			w.end(s, "stream failed", withCause(subErrs[st.Err]))
			w.flush("after a stream failed")

		case "stall":
			if s == nil || stuck != nil {
				continue
			}
			w.settle()
			s.mu.Lock()
			s.stall = true
			s.mu.Unlock()
			w.send(nil, 0, typ)
			c.awaitDone("streaming of a payload", s.blocked)
			stuck, queued = s, 0
			c.Class("stream stuck")

		case "release":
			if stuck == nil {
				continue
			}
			err := subErrs[st.Err]
			stuck.release <- err
			if err != nil {
				if queued > 0 {
					c.NonTrivial()
				}
				w.end(stuck, "stuck stream failed", withCause(err))
			}
			stuck.blocked = make(chan struct{})
			stuck = nil
			w.flush("after a stuck stream came unstuck")

		case "settle":
			if stuck == nil {
				w.settle()
			}
		}
		if stuck == nil {
			for _, s := range ending {
				w.end(s, "cancelled behind a stuck one",
					isCode(codes.Canceled))
			}
			ending = nil
		}
		if errs := w.n.shutdownErrs(); len(errs) > 0 {
			c.Failf("the server asked for shutdown: %v", errs)
		}
	}

	if !p.Unsettled || !p.Stops {
		if stuck != nil {
			stuck.release <- nil
			stuck = nil
		}
		for _, s := range ending {
			w.end(s, "cancelled behind a stuck one",
				isCode(codes.Canceled))
		}
		ending = nil
		w.settle()
	}
	if !p.Stops {
		return
	}
	for _, s := range w.active {
		s.leave()
	}
	var err error
	c.mustEnd("stopping the server", func() { err = w.n.srv.Stop() })
	if err != nil {
		c.Failf("stop: %v", err)
	}
	stopped = true
	c.ClassIf(stuck != nil, "stopped with a stuck stream")
	if stuck != nil && queued > 0 {
		c.NonTrivial()
	}
	for _, t := range subTypes {
		if s := w.active[t]; s != nil && s != stuck {
			w.end(s, "server shutdown", isCode(codes.Aborted))
		}
	}
	for _, s := range ending {
		w.end(s, "cancelled at shutdown", isCode(codes.Canceled,
			codes.Aborted))
	}
	if stuck != nil {
		stuck.release <- nil
		w.end(stuck, "shutdown of a stuck stream", isCode(codes.Aborted))
	}
	if stopped {
		w.ids++
		d := newSubscriber(w.n, w.ids, subTypes[0], 0)
		c.awaitDone("a subscription to a stopped server", d.done)
		if d.err == nil {
			c.Failf("a subscription to a stopped server succeeded")
		}
	}
}

// ---------------------------------------------------------------------------

type planC22Contention struct {
	Types int
	// Clients open a subscription again and again, each held for a number
	// of units; Pauses are between them.
	Clients []clientPlan
	// Msgs are indices of types.
	Msgs []int
	Gaps []int
}

type clientPlan struct {
	T      int
	Holds  []int
	Pauses []int
	Slow   int
}

func drawC22Contention(t *rapid.T) planC22Contention {
	p := planC22Contention{Types: rapid.IntRange(1, 2).Draw(t, "types")}
	typ := rapid.IntRange(0, p.Types-1)
	unit := rapid.IntRange(0, 6)
	client := rapid.Custom(func(t *rapid.T) clientPlan {
		return clientPlan{
			T:      typ.Draw(t, "t"),
			Holds:  rapid.SliceOfN(unit, 1, 8).Draw(t, "holds"),
			Pauses: rapid.SliceOfN(unit, 1, 4).Draw(t, "pauses"),
			Slow:   rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "slow"),
		}
	})
	p.Clients = rapid.SliceOfN(client, 2, 5).Draw(t, "clients")
	p.Msgs = rapid.SliceOfN(typ, 4, 30).Draw(t, "msgs")
	p.Gaps = rapid.SliceOfN(unit, 1, 6).Draw(t, "gaps")
	return p
}

func runC22Contention(c *C, p planC22Contention) {
	type life struct {
		s          *subscriber
		start, end int64
		cancelled  bool
	}
	var (
		w     = newSubWorld(c)
		clock int64
		mu    sync.Mutex
		lives []*life
		wg    sync.WaitGroup
	)
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	for i, cl := range p.Clients {
		i, cl := i, cl
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, h := range cl.Holds {
				l := &life{start: tick()}
				l.s = newSubscriber(w.n, 100*i+k,
					subTypes[cl.T%p.Types],
					time.Duration(cl.Slow)*50*time.Microsecond)
				mu.Lock()
				lives = append(lives, l)
				mu.Unlock()
				timer := time.NewTimer(time.Duration(h*h) * 50 *
					time.Microsecond)
				select {
				case <-l.s.done:
				case <-timer.C:
					l.cancelled = true
					l.s.leave()
					l.s.cancel()
					<-l.s.done
				}
				timer.Stop()
				l.end = tick()
				g := cl.Pauses[k%len(cl.Pauses)]
				time.Sleep(time.Duration(g*g) * 20 * time.Microsecond)
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	for i, m := range p.Msgs {
		g := p.Gaps[i%len(p.Gaps)]
		time.Sleep(time.Duration(g*g) * 20 * time.Microsecond)
		w.send(nil, 0, subTypes[m%p.Types])
	}
	c.awaitDone("a cancelled subscription", done)
	w.flush("with all subscriptions cancelled")

	type run struct{ from, to, id int }
	runs := map[uint64][]run{}
	var served, refused int
	for _, l := range lives {
		w.verify(l.s)
		got := l.s.received()
		switch code := status.Code(l.s.err); {
		case l.cancelled && code == codes.Canceled:
		case l.cancelled && code == codes.Unavailable && len(got) == 0:
			// It gave up before it was served.
		case code == codes.Unavailable:
			refused++
			if len(got) > 0 {
				c.Failf("subscription %d was refused (%v) after "+
					"payloads were streamed to it", l.s.id, l.s.err)
			}
			other := false
			for _, o := range lives {
				other = other || o != l && o.s.typ == l.s.typ &&
					o.start < l.end && o.end > l.start
			}
			if !other {
				c.Failf("subscription %d to a type nobody else is "+
					"subscribed to was refused: %v", l.s.id, l.s.err)
			}
		default:
			c.Failf("subscription %d (cancelled: %v) ended with %v",
				l.s.id, l.cancelled, l.s.err)
		}
		if len(got) == 0 {
			continue
		}
		served++
		for i, e := range w.log[l.s.typ] {
			if bytes.Equal(e.value, got[0].Value) {
				r := run{i, i + 1, l.s.id}
				last := got[len(got)-1].Value
				for !bytes.Equal(w.log[l.s.typ][r.to-1].value, last) {
					r.to++
				}
				for _, o := range runs[l.s.typ] {
					if r.from < o.to && o.from < r.to {
						c.Failf("subscriptions %d and %d were "+
							"both served at once", r.id, o.id)
					}
				}
				runs[l.s.typ] = append(runs[l.s.typ], r)
			}
		}
	}
	c.ClassIf(served > 1, "several served")
	c.ClassIf(refused > 0, "refused")
	if served > 1 && refused > 0 {
		c.NonTrivial()
	}
	for _, t := range subTypes[:p.Types] {
		w.open(t, 0)
	}
	w.settle()
}
