package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightningnetwork/lnd/tlv"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C15, sequential: against a map.

// regOp is one step: "reg", "dereg" or "msg".
type regOp struct {
	Op string
	T  uint64
	// Fail makes the handler fail.
	Fail bool
	// Types of the payloads of a message.
	Types []uint64
	// Hop makes the message one to be relayed on instead.
	Hop bool
}

type planC15 struct {
	Before []regOp
	Ops    []regOp
	After  []regOp
}

func drawRegType(t *rapid.T, label string) uint64 {
	return rapid.SampledFrom([]uint64{64, 64, 64, 65, 65, 66, 66, 255, 256,
		320, 65535, 65600, 1<<32 + 64, 1<<64 - 1, 0, 2, 4, 62, 63}).
		Draw(t, label)
}

func drawRegOp(t *rapid.T, pool []uint64) regOp {
	typ := rapid.OneOf(rapid.SampledFrom(pool), rapid.SampledFrom(pool),
		rapid.SampledFrom(pool), rapid.Custom(func(t *rapid.T) uint64 {
			return drawRegType(t, "t")
		}))
	o := regOp{Op: rapid.SampledFrom([]string{
		"reg", "reg", "dereg", "dereg", "msg", "msg", "msg",
	}).Draw(t, "op")}
	if o.Op != "msg" {
		o.T = typ.Draw(t, "t")
		o.Fail = rapid.IntRange(0, 5).Draw(t, "fail") == 0
		return o
	}
	o.Hop = rapid.IntRange(0, 9).Draw(t, "hop") == 0
	seen := map[uint64]bool{}
	for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
		if f := typ.Draw(t, "t"); f >= 64 && !seen[f] {
			seen[f] = true
			o.Types = append(o.Types, f)
		}
	}
	return o
}

func drawC15(t *rapid.T) planC15 {
	reg := rapid.Custom(func(t *rapid.T) regOp {
		return regOp{
			Op: rapid.SampledFrom([]string{"reg", "dereg"}).
				Draw(t, "op"),
			T: drawRegType(t, "t"),
		}
	})
	pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint64 {
		return drawRegType(t, "t")
	}), 1, 3).Draw(t, "pool")
	op := rapid.Custom(func(t *rapid.T) regOp { return drawRegOp(t, pool) })
	return planC15{
		Before: rapid.SliceOfN(reg, 0, 2).Draw(t, "before"),
		Ops:    rapid.SliceOfN(op, 1, 40).Draw(t, "ops"),
		After:  rapid.SliceOfN(reg, 0, 3).Draw(t, "after"),
	}
}

func init() {
	Add("C15", "histories", 8000, 60000,
		"Random sequences of registrations, deregistrations and onion "+
			"messages with several payloads over a few types in and "+
			"out of the final range, before start, while running and "+
			"after stop; compared step by step with a map from type "+
			"to handler. Non-trivial: a payload was delivered, and a "+
			"type was registered again after having been "+
			"deregistered, or a registration was refused as taken.",
		drawC15, runC15)
	s := Add("C15", "concurrent", 800, 20000,
		"Several goroutines register and deregister handlers for one to "+
			"three types while messages arrive. The calls' results and "+
			"the handler each payload went to must be explained by "+
			"some order of the calls that respects which ended before "+
			"which began (linearizability of a map, decided "+
			"exhaustively per type). Non-trivial: calls overlapped and "+
			"at least one payload was delivered and one was not.",
		drawC15Concurrent, runC15Concurrent)
	s.Procs = 4
}

func (s *simNode) register(o regOp, tag int) error {
	var fail func([]byte) error
	if o.Fail {
		fail = func([]byte) error { return errors.New("handler trouble") }
	}
	if o.Op == "dereg" {
		return s.m.DeregisterHandler(tlv.Type(o.T))
	}
	return s.m.RegisterHandler(tlv.Type(o.T), s.handler(o.T, tag, fail))
}

// wantCause fails unless err has the cause and no other one.
func wantCause(c *C, what string, err error, want ...error) {
	all := []error{
		onionmsg.ErrNotStarted, onionmsg.ErrHandlerNotFound,
		onionmsg.ErrHandlerRegistered, onionmsg.ErrShuttingDown,
		lnwire.ErrNotFinalPayload,
	}
	if len(want) == 0 {
		if err != nil {
			c.Failf("%s failed: %v", what, err)
		}
		return
	}
	if err == nil {
		c.Failf("%s succeeded, should fail with: %v", what, want)
	}
	for _, w := range want {
		if !errors.Is(err, w) {
			continue
		}
		for _, o := range all {
			if o != w && errors.Is(err, o) {
				c.Failf("%s failed with the cause %q, which does "+
					"not apply, besides %q", what, o, w)
			}
		}
		return
	}
	c.Failf("%s failed with %q instead of %v", what, err, want)
}

func runC15(c *C, p planC15) {
	var (
		net     = newNet(c)
		n       = net.messenger()
		next    = net.bare()
		table   = map[uint64]int{}
		fails   = map[int]bool{}
		was     = map[uint64]bool{}
		tag     = 0
		again   bool
		refused bool
		sent    bool
	)
	what := func(i int, o regOp) string {
		return fmt.Sprintf("step %d (%s %d)", i, o.Op, o.T)
	}
	for i, o := range p.Before {
		causes := []error{onionmsg.ErrNotStarted}
		if o.T < 64 {
			causes = append(causes, lnwire.ErrNotFinalPayload)
		}
		var err error
		c.mustEnd("registering before start", func() {
			err = n.register(o, 1000)
		})
		wantCause(c, "before start: "+what(i, o), err, causes...)
	}
	if err := n.m.Start(); err != nil {
		c.Failf("start: %v", err)
	}
	c.Cleanup(func() { within(20*time.Second, func() { _ = n.m.Stop() }) })

	for i, o := range p.Ops {
		switch o.Op {
		case "reg", "dereg":
			tag++
			var err error
			c.mustEnd(what(i, o), func() { err = n.register(o, tag) })
			_, taken := table[o.T]
			switch {
			case o.T < 64:
				wantCause(c, what(i, o), err,
					lnwire.ErrNotFinalPayload)
				c.Class("type out of range")

			case o.Op == "reg" && taken:
				wantCause(c, what(i, o), err,
					onionmsg.ErrHandlerRegistered)
				c.Class("taken")
				refused = true

			case o.Op == "reg":
				wantCause(c, what(i, o), err)
				table[o.T] = tag
				fails[tag] = o.Fail
				again = again || was[o.T]
				was[o.T] = true

			case taken:
				wantCause(c, what(i, o), err)
				delete(table, o.T)
				c.Class("deregistered")

			default:
				wantCause(c, what(i, o), err,
					onionmsg.ErrHandlerNotFound)
				c.Class("nothing to deregister")
			}

		case "msg":
			types := o.Types
			for _, t := range types {
				if h, ok := table[t]; ok && fails[h] {
					c.Class("failing handler")
				}
			}
			var (
				finals []finalPlan
				want   []delivery
			)
			for j, t := range types {
				f := finalPlan{T: t, V: lit([]byte(
					fmt.Sprintf("%d/%d", i, j),
				))}
				finals = append(finals, f)
				if h, ok := table[t]; ok && !o.Hop {
					want = append(want, delivery{
						Type: t, Value: f.V.Bytes(), Tag: h,
					})
				}
			}
			path := []*btcec.PublicKey{n.pub}
			if o.Hop {
				path = append(path, next.pub)
			}
			msg := clearMessage(priv(2*i), priv(2*i+1), path, nil,
				finals)
			n.push(vertex(pub(1)), onionType, msg)
			n.barrier()
			got := n.takeDeliveries()
			if d := diffTagged(got, want); d != "" {
				c.Failf("step %d (message with payloads %v), "+
					"handlers %v: %s", i, types, table, d)
			}
			sent = sent || len(want) > 0
			c.ClassIf(len(want) > 1, "several deliveries")
			c.ClassIf(len(want) < len(types), "payload nobody wants")
		}
	}
	c.ClassIf(again, "registered again")
	if sent && (again || refused) {
		c.NonTrivial()
	}

	c.mustEnd("stop", func() {
		if err := n.m.Stop(); err != nil {
			c.Class("stop error")
		}
	})
	for i, o := range p.After {
		causes := []error{onionmsg.ErrShuttingDown}
		if o.T < 64 {
			causes = append(causes, lnwire.ErrNotFinalPayload)
		}
		var err error
		c.mustEnd("registering after stop", func() {
			err = n.register(o, 2000)
		})
		wantCause(c, "after stop: "+what(i, o), err, causes...)
	}
	if got := n.takeDeliveries(); len(got) != 0 {
		c.Failf("a handler ran without a message: %s", got[0])
	}
	if got := n.shutdownErrs(); len(got) != 0 {
		c.Failf("shutdown requested: %v", got)
	}
}

// diffTagged compares deliveries including which handler got them.
func diffTagged(got, want []delivery) string {
	if d := diffDeliveries(got, want); d != "" {
		return d
	}
	key := func(ds []delivery) string {
		var out []string
		for _, d := range ds {
			out = append(out, fmt.Sprintf("%s to handler %d", d, d.Tag))
		}
		sort.Strings(out)
		return strings.Join(out, "; ")
	}
	if g, w := key(got), key(want); g != w {
		return fmt.Sprintf("delivered %s, expected %s", g, w)
	}
	return ""
}

// ---------------------------------------------------------------------------
// C15, concurrent.

type planC15Concurrent struct {
	Types   int
	Callers [][]regOp
	// Msgs are the types of the messages in order.
	Msgs []uint64
	// Gaps are pauses, in units of a scheduling step.
	Gaps []int
}

func drawC15Concurrent(t *rapid.T) planC15Concurrent {
	p := planC15Concurrent{Types: rapid.IntRange(1, 3).Draw(t, "types")}
	types := rapid.SampledFrom([]uint64{64, 65, 66}[:p.Types])
	op := rapid.Custom(func(t *rapid.T) regOp {
		return regOp{
			Op: rapid.SampledFrom([]string{"reg", "dereg"}).Draw(t, "op"),
			T:  types.Draw(t, "t"),
		}
	})
	for i := rapid.IntRange(2, 5).Draw(t, "callers"); i > 0; i-- {
		p.Callers = append(p.Callers,
			rapid.SliceOfN(op, 1, 8).Draw(t, "calls"))
	}
	p.Msgs = rapid.SliceOfN(types, 2, 14).Draw(t, "msgs")
	p.Gaps = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 12).Draw(t, "gaps")
	return p
}

// event is one operation of a concurrent history of one type's entry.
type event struct {
	desc       string
	start, end int64
	// need says which state the result implies; the state is the tag of
	// the handler, 0 for none. anyTag stands for every tag.
	need, then int
}

const (
	anyTag = -1
	same   = -2
)

// linearizable decides whether some order of the events explains them.
func linearizable(evs []event) bool {
	if len(evs) > 62 {
		return true
	}
	type key struct {
		done  uint64
		state int
	}
	seen := map[key]bool{}
	var try func(done uint64, state int) bool
	try = func(done uint64, state int) bool {
		if done == 1<<uint(len(evs))-1 {
			return true
		}
		k := key{done, state}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62
		for i, e := range evs {
			if done&(1<<uint(i)) == 0 && e.end < first {
				first = e.end
			}
		}
		for i, e := range evs {
			if done&(1<<uint(i)) != 0 || e.start > first {
				continue
			}
			if e.need == anyTag && state == 0 ||
				e.need != anyTag && state != e.need {

				continue
			}
			next := state
			if e.then != same {
				next = e.then
			}
			if try(done|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	return try(0, 0)
}

func runC15Concurrent(c *C, p planC15Concurrent) {
	var (
		net   = newNet(c)
		n     = net.run()
		clock int64
		mu    sync.Mutex
		hist  = map[uint64][]event{}
		tags  int64
		wg    sync.WaitGroup
		bad   error
		gap   int64
	)
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	pause := func() {
		g := p.Gaps[int(atomic.AddInt64(&gap, 1))%len(p.Gaps)]
		if g > 0 {
			time.Sleep(time.Duration(g*g*g) * 20 * time.Microsecond)
		}
	}
	type sentMsg struct {
		t          uint64
		start, end int64
	}
	var (
		sent []sentMsg
		msgs [][]byte
	)
	for i, t := range p.Msgs {
		msgs = append(msgs, clearMessage(
			priv(2*i), priv(2*i+1), []*btcec.PublicKey{n.pub}, nil,
			[]finalPlan{{T: t, V: lit([]byte(fmt.Sprint(i)))}},
		))
	}
	for _, ops := range p.Callers {
		ops := ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				pause()
				tag := int(atomic.AddInt64(&tags, 1))
				e := event{start: tick()}
				err := n.register(o, tag)
				e.end = tick()
				e.desc = fmt.Sprintf("%s (handler %d) -> %v", o.Op,
					tag, err)
				switch {
				case o.Op == "reg" && err == nil:
					e.need, e.then = 0, tag
				case o.Op == "reg" && errors.Is(err,
					onionmsg.ErrHandlerRegistered):

					e.need, e.then = anyTag, same
				case o.Op == "dereg" && err == nil:
					e.need, e.then = anyTag, 0
				case o.Op == "dereg" && errors.Is(err,
					onionmsg.ErrHandlerNotFound):

					e.need, e.then = 0, same
				default:
					mu.Lock()
					bad = fmt.Errorf("%s of type %d on a "+
						"running messenger: %v", o.Op, o.T,
						err)
					mu.Unlock()
				}
				mu.Lock()
				hist[o.T] = append(hist[o.T], e)
				mu.Unlock()
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	for i, t := range p.Msgs {
		pause()
		m := sentMsg{t: t, start: tick()}
		n.push(vertex(pub(1)), onionType, msgs[i])
		// The next message is only taken once this one is dealt with.
		n.barrier()
		m.end = tick()
		sent = append(sent, m)
	}
	c.awaitDone("a registration on a running messenger", done)
	if bad != nil {
		c.Failf("%v", bad)
	}

	to := map[string]delivery{}
	for _, d := range n.takeDeliveries() {
		if o, ok := to[string(d.Value)]; ok {
			c.Failf("message %s was delivered to handler %d and to "+
				"handler %d", d.Value, o.Tag, d.Tag)
		}
		to[string(d.Value)] = d
	}
	var hit, miss, overlap bool
	for i, m := range sent {
		e := event{start: m.start, end: m.end, need: 0, then: same}
		e.desc = fmt.Sprintf("message %d -> nobody", i)
		if d, ok := to[fmt.Sprint(i)]; ok {
			delete(to, fmt.Sprint(i))
			if d.Type != m.t {
				c.Failf("payload of type %d was given to the "+
					"handler for type %d", m.t, d.Type)
			}
			e.need = d.Tag
			e.desc = fmt.Sprintf("message %d -> handler %d", i, d.Tag)
			hit = true
		} else {
			miss = true
		}
		hist[m.t] = append(hist[m.t], e)
	}
	if len(to) != 0 {
		c.Failf("deliveries of messages nobody sent: %v", to)
	}
	for t, evs := range hist {
		sort.Slice(evs, func(i, j int) bool {
			return evs[i].start < evs[j].start
		})
		for i := range evs {
			if i > 0 && evs[i].start < evs[i-1].end {
				overlap = true
			}
		}
		if !linearizable(evs) {
			var out []string
			for _, e := range evs {
				out = append(out, fmt.Sprintf("[%d,%d] %s", e.start,
					e.end, e.desc))
			}
			c.Failf("no order of the calls explains what happened to "+
				"type %d:\n%s", t, strings.Join(out, "\n"))
		}
	}
	c.ClassIf(overlap, "overlapping calls")
	c.ClassIf(hit, "delivered")
	c.ClassIf(miss, "not delivered")
	if overlap && hit && miss {
		c.NonTrivial()
	}
}
