package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// lndErrs are errors that lnd's calls come back with.
var lndErrs = []error{
	errors.New("plain trouble"), context.Canceled, context.DeadlineExceeded,
	io.EOF, status.Error(codes.Unavailable, "lnd is gone"),
	status.Error(codes.NotFound, "unable to find node"),
	status.Error(codes.Unknown, "already connected to peer"),
	status.Error(codes.PermissionDenied, "permission denied"),
	status.Error(codes.Unknown, "peer is not connected"),
	fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF),
}

func lndErr(i int) error { return lndErrs[i%len(lndErrs)] }

// carries says whether err passes on the cause.
func carries(err, cause error) bool {
	if err == nil || cause == nil {
		return false
	}
	return errors.Is(err, cause) || strings.Contains(err.Error(), cause.Error())
}

// ---------------------------------------------------------------------------
// C17

// directPlan is one direct send.
type directPlan struct {
	// Blind is the blinded destination's path, none for a clear one. The
	// target is the first node.
	Blind  []int
	Target int
	// Others are further peers; Twin has one with the same x coordinate.
	Others []int
	// Crowd is the number of further peers that are nobody of interest.
	Crowd int
	Twin  bool
	// Peer: connected to begin with.
	Peer bool
	// Node: "ok" or "nil" (no announcement).
	Node  string
	Addrs []string
	// Appear is the check, counted from 1 after connecting, at which the
	// peer shows up (0: never).
	Appear int
	// FailAt is the number, from 1, of the call to lnd that fails (0: none)
	// with error Err.
	FailAt, Err int
	// CancelAt is the call to lnd during which the caller gives up (0:
	// none); WaitMs: that long after the call was made.
	CancelAt, WaitMs int
	Deadline         bool
	// Noise chooses what else lnd's answers say.
	Noise  int
	Reply  *pathPlan
	Finals []finalPlan
}

type planC17 struct {
	Sends []directPlan
}

const peerChecks = 5

func drawDirect(t *rapid.T, patient bool) directPlan {
	p := directPlan{
		Target: rapid.IntRange(1, 4).Draw(t, "target"),
		Peer:   rapid.IntRange(0, 2).Draw(t, "peer") == 0,
		Node:   rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "nil"}).Draw(t, "node"),
		Others: rapid.SliceOfN(rapid.IntRange(5, 9), 0, 4).Draw(t, "others"),
		Twin:   rapid.IntRange(0, 3).Draw(t, "twin") == 0,
		Err:    rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
		Appear: 1,
		Noise:  rapid.IntRange(0, 9999).Draw(t, "noise"),
		Finals: drawNetFinals(t, 400),
	}
	addr := rapid.SampledFrom([]string{"127.0.0.1:9735", "10.0.0.1:9735",
		"[2001:db8::1]:9735", "abcdefghij234567.onion:9735", "host:1"})
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "addrs")
	for i := 0; i < n; i++ {
		p.Addrs = append(p.Addrs, addr.Draw(t, "addr"))
	}
	if rapid.IntRange(0, 9).Draw(t, "crowd") == 0 {
		p.Crowd = rapid.SampledFrom([]int{20, 101, 300, 1000}).
			Draw(t, "crowd-n")
	}
	if rapid.IntRange(0, 29).Draw(t, "addr-crowd") == 0 {
		for i := 0; i < 20; i++ {
			p.Addrs = append(p.Addrs, fmt.Sprintf("host:%d", i))
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "blind") == 0 {
		p.Blind = []int{p.Target}
		for i := rapid.IntRange(0, 2).Draw(t, "blinded"); i > 0; i-- {
			p.Blind = append(p.Blind, 10+i)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "reply?") == 0 {
		p.Reply = drawPath(t, false)
		if len(p.Reply.Hops) > 2 {
			p.Reply.Hops = p.Reply.Hops[:2]
		}
		for i := range p.Reply.Hops {
			p.Reply.Hops[i].Data = lit([]byte{1, 2, 3})
		}
	}
	calls := 5
	if patient {
		p.Peer, p.Node = false, "ok"
		if len(p.Addrs) == 0 {
			p.Addrs = []string{"host:9735"}
		}
		p.Appear = rapid.IntRange(0, peerChecks).Draw(t, "appear")
		calls = 4 + peerChecks
	}
	switch rapid.IntRange(0, 5).Draw(t, "fault") {
	case 0, 1:
		p.FailAt = rapid.IntRange(1, calls).Draw(t, "fail-at")
	case 2:
		p.CancelAt = rapid.IntRange(1, calls).Draw(t, "cancel-at")
		p.Deadline = rapid.Bool().Draw(t, "deadline")
		if patient {
			p.WaitMs = rapid.SampledFrom([]int{0, 0, 20, 300}).
				Draw(t, "cancel-ms")
		}
	}
	return p
}

func init() {
	const rule = "Direct sends to clear and blinded destinations with " +
		"generated initial peers (some with a key that differs only in " +
		"parity), announcements, addresses, errors of any call to lnd and " +
		"callers giving up during any call, compared with a model of the " +
		"documented sequence of calls; a message that goes out is peeled " +
		"by an independent implementation. "
	Add("C17", "immediate", 6000, 60000, rule+
		"Here the peer shows up at the first check. Non-trivial: a "+
		"connection was attempted.",
		func(t *rapid.T) planC17 {
			return planC17{[]directPlan{drawDirect(t, false)}}
		}, runC17)
	Add("C17", "waiting", 16, 200, rule+
		"Here the peer shows up at any of the five checks (a second apart) "+
		"or never; each case runs 60 such sends at once. Non-trivial: a "+
		"send needed more than one check.",
		func(t *rapid.T) planC17 {
			send := rapid.Custom(func(t *rapid.T) directPlan {
				return drawDirect(t, true)
			})
			return planC17{rapid.SliceOfN(send, 60, 60).Draw(t, "s")}
		}, runC17)
}

func runC17(c *C, p planC17) {
	var (
		wg   sync.WaitGroup
		errs = make([]string, len(p.Sends))
		took = make([]time.Duration, len(p.Sends))
		lag  = newLagMeter()
	)
	defer close(lag.quit)
	for i := range p.Sends {
		i := i
		net := newNet(c)
		n := net.messenger()
		wg.Add(1)
		go func() {
			defer wg.Done()
			start := time.Now()
			errs[i] = runDirect(c, net, n, p.Sends[i])
			took[i] = time.Since(start)
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * stuckAfter):
		c.awaitDone("a direct send", done)
	}
	max := lag.allow((2*peerChecks + 3) * time.Second)
	for i, e := range errs {
		if e == "" && took[i] > max {
			e = fmt.Sprintf("took %v, more than %v, for at most %d "+
				"checks", took[i], max, peerChecks)
		}
		if e != "" {
			c.Narrow(planC17{p.Sends[i : i+1]})
			c.Failf("send %d (%s): %s", i, mustJSON(p.Sends[i]), e)
		}
	}
}

// directModel predicts what a direct send does: the calls to lnd, whether the
// message goes out and with what error the send fails.
func directModel(p directPlan) (calls []string, sent bool, cause error) {
	dead := false
	// step makes a call and says whether the send goes on.
	step := func(op string) bool {
		calls = append(calls, op)
		n := len(calls)
		over := context.Canceled
		if p.Deadline {
			over = context.DeadlineExceeded
		}
		if dead {
			cause = over
			return false
		}
		if n == p.FailAt {
			cause = lndErr(p.Err)
			return false
		}
		if n == p.CancelAt {
			dead = true
		}
		return true
	}
	send := func() ([]string, bool, error) {
		if !step("send") {
			return calls, false, cause
		}
		return calls, true, nil
	}
	if !step("peers") {
		return calls, false, cause
	}
	if p.Peer {
		return send()
	}
	if !step("nodeinfo") {
		return calls, false, cause
	}
	if p.Node == "nil" || len(p.Addrs) == 0 {
		return calls, false, onionmsg.ErrNoAddresses
	}
	if !step("connect") {
		return calls, false, cause
	}
	for i := 1; i <= peerChecks; i++ {
		if !step("peers") {
			return calls, false, cause
		}
		if i == p.Appear {
			return send()
		}
		if dead {
			if p.Deadline {
				return calls, false, context.DeadlineExceeded
			}
			return calls, false, context.Canceled
		}
	}
	return calls, false, onionmsg.ErrNoConnection
}

func runDirect(c *C, net *simNet, n *simNode, p directPlan) string {
	target := nodeKey(p.Target).PubKey()
	var (
		mu       sync.Mutex
		count    int
		checks   int
		connects int
	)
	ctx, cancel := context.WithCancel(context.Background())
	if p.Deadline {
		// A deadline that passes when the plan says so.
		ctx = &settableCtx{Context: ctx, err: context.DeadlineExceeded}
	}
	defer cancel()
	// hook runs at every call; it returns the call's error.
	hook := func() error {
		mu.Lock()
		defer mu.Unlock()
		count++
		if count == p.CancelAt {
			if p.WaitMs > 0 {
				time.AfterFunc(time.Duration(p.WaitMs)*
					time.Millisecond, cancel)
			} else {
				cancel()
			}
		}
		if count == p.FailAt {
			return lndErr(p.Err)
		}
		return nil
	}
	n.lnd.noise = p.Noise
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		if err := hook(); err != nil {
			return nil, err
		}
		var out []lndclient.Peer
		add := func(v route.Vertex) {
			out = append(out, lndclient.Peer{Pubkey: v})
		}
		for _, o := range p.Others {
			add(vertex(nodeKey(o).PubKey()))
		}
		if p.Twin {
			v := vertex(target)
			v[0] ^= 1
			add(v)
		}
		mu.Lock()
		defer mu.Unlock()
		checks++
		if p.Peer || connects > 0 && p.Appear > 0 &&
			checks-1 >= p.Appear {

			add(vertex(target))
		}
		for i := 0; i < p.Crowd; i++ {
			add(route.Vertex{2, byte(i), byte(i >> 8), 1})
		}
		if k := len(out); k > 0 {
			k = p.Noise % k
			out = append(out[k:len(out):len(out)], out[:k]...)
		}
		return out, nil
	}
	n.lnd.nodeInfo = func(v route.Vertex, _ bool) (*lndclient.NodeInfo,
		error) {

		if err := hook(); err != nil {
			return nil, err
		}
		if p.Node == "nil" {
			return &lndclient.NodeInfo{}, nil
		}
		return &lndclient.NodeInfo{Node: &lndclient.Node{
			PubKey: v, Addresses: append([]string{}, p.Addrs...),
		}}, nil
	}
	n.lnd.connect = func(context.Context, route.Vertex, string) error {
		if err := hook(); err != nil {
			return err
		}
		mu.Lock()
		connects++
		mu.Unlock()
		return nil
	}
	n.lnd.send = func(context.Context, lndclient.CustomMessage) error {
		return hook()
	}

	reply := p.Reply.build()
	var (
		dest *btcec.PublicKey
		path = []int{p.Target}
		blnd *lnwire.ReplyPath
	)
	if len(p.Blind) > 0 {
		var keys []*btcec.PublicKey
		for _, id := range p.Blind {
			keys = append(keys, nodeKey(id).PubKey())
		}
		blnd = refRoute(priv(300_000), keys, nil)
		path = p.Blind
	} else {
		dest = target
	}
	base, baseWire := len(n.lnd.calls()), len(net.wireLog())
	err := n.m.SendMessage(ctx, onionmsg.NewSendMessageRequest(
		dest, blnd, reply, buildFinals(p.Finals), true,
	))

	calls, sent, cause := directModel(p)
	got := n.lnd.calls()[base:]
	if p.WaitMs == 0 && !sent && len(got) > 0 &&
		got[len(got)-1].Op == "send" && calls[len(calls)-1] != "send" {

		return fmt.Sprintf("tried to send after %v", cause)
	}
	var ops []string
	for _, g := range got {
		ops = append(ops, g.Op)
		switch g.Op {
		case "queryroutes":
			return "a direct send asked for a route"
		case "nodeinfo", "connect", "send":
			if g.Key != vertex(target) {
				return fmt.Sprintf("%s names %s, not the target %s",
					g.Op, g.Key, pubHex(target))
			}
		}
		if g.Op == "connect" {
			if !g.Flag {
				return "the connection is not permanent"
			}
			if g.Host != p.Addrs[0] {
				return fmt.Sprintf("connected to %q, the first "+
					"address is %q", g.Host, p.Addrs[0])
			}
		}
	}
	// With a dead context, whether further calls are attempted is up to the
	// code, as long as they are of no effect.
	if p.CancelAt == 0 && strings.Join(ops, " ") != strings.Join(calls, " ") {
		return fmt.Sprintf("calls to lnd were %v, expected %v", ops, calls)
	}
	n1, n2 := 0, 0
	for _, o := range ops {
		if o == "connect" {
			n1++
		}
		if o == "nodeinfo" {
			n2++
		}
	}
	if n1 > 1 || n2 > 1 {
		return fmt.Sprintf("looked up %d times, connected %d times", n2, n1)
	}
	if p.Peer && n1+n2 > 0 {
		return "a current peer was looked up or connected to"
	}
	wire := net.wireLog()[baseWire:]
	if p.CancelAt != 0 && p.WaitMs > 0 {
		// The caller gave up at a time that is not exactly known. The
		// message may or may not have made it.
		if (err == nil) != (len(wire) == 1) {
			return fmt.Sprintf("result %v with %d messages sent", err,
				len(wire))
		}
		kept := p
		kept.CancelAt = 0
		_, _, other := directModel(kept)
		if err != nil && !carries(err, ctx.Err()) &&
			!carries(err, cause) && !carries(err, other) {

			return fmt.Sprintf("failed with %v", err)
		}
		c.Class("gave up while waiting")
		return ""
	}
	c.ClassIf(checks > 2, "several checks")
	if connects > 0 {
		c.Class("connected")
		if p.Appear == 1 || checks > 2 {
			c.NonTrivial()
		}
	}
	if !sent {
		if err == nil {
			return fmt.Sprintf("succeeded, should fail with %v", cause)
		}
		if !carries(err, cause) {
			return fmt.Sprintf("failed with %q, the cause is %q", err,
				cause)
		}
		if len(wire) != 0 {
			return "failed, but a message was sent"
		}
		switch {
		case p.CancelAt != 0 && p.FailAt == 0:
			c.Class("gave up")
		case len(calls) == p.FailAt:
			c.Class("%s failed", calls[len(calls)-1])
		default:
			c.Class("%v", cause)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("failed with %v", err)
	}
	if len(wire) != 1 || wire[0].To != vertex(target) ||
		wire[0].Type != onionType {

		return fmt.Sprintf("%d messages were sent", len(wire))
	}
	c.ClassIf(blnd != nil, "sent to a blinded destination")
	c.ClassIf(blnd == nil, "sent to a clear destination")
	return followWire(wire[0].Data, path, reply, p.Finals)
}

// settableCtx is a context whose end reads as a deadline that passed.
type settableCtx struct {
	context.Context
	err error
}

func (s *settableCtx) Err() error {
	if s.Context.Err() != nil {
		return s.err
	}
	return nil
}

// ---------------------------------------------------------------------------
// C18

// routedPlan is one routed send.
type routedPlan struct {
	// Blind is the blinded destination's path; otherwise the destination is
	// the last node of the route.
	Blind []int
	Dest  int
	// Kind of lnd's answer: "route", "astray" (a route that does not end at
	// the introduction node), "nil key", "bad key", "empty", "none",
	// "lnd none", "error".
	Kind string
	// Lead are the hops before the target.
	Lead []int
	// At is the hop that is unusable; Err the error.
	At, Err int
	// SendErr makes handing over the message fail.
	SendErr bool
	// Cancel: "", "before", "query".
	Cancel string
	Reply  *pathPlan
	Finals []finalPlan
	Noise  int
}

type planC18 struct {
	Sends []routedPlan
}

var lndNoRoute = []error{
	lndclient.ErrNoRouteFound,
	status.Error(codes.Unknown, "unable to find a path to destination"),
	status.Error(codes.Unknown, "insufficient local balance"),
}

func drawRouted(t *rapid.T) routedPlan {
	p := routedPlan{
		Dest: rapid.IntRange(1, 6).Draw(t, "dest"),
		Kind: rapid.SampledFrom([]string{"route", "route", "route", "route",
			"astray", "nil key", "bad key", "empty", "none", "none",
			"error"}).Draw(t, "kind"),
		At:      rapid.IntRange(0, 5).Draw(t, "at"),
		Err:     rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
		SendErr: rapid.IntRange(0, 5).Draw(t, "send-err") == 0,
		Noise:   rapid.IntRange(0, 9999).Draw(t, "noise"),
	}
	max := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 14, 30}).Draw(t, "max")
	p.Lead = rapid.SliceOfN(rapid.IntRange(1, 12), max/2, max).
		Draw(t, "lead")
	if rapid.IntRange(0, 2).Draw(t, "blind") == 0 {
		p.Blind = []int{p.Dest}
		for i := rapid.IntRange(0, 3).Draw(t, "blinded"); i > 0; i-- {
			p.Blind = append(p.Blind, 20+i)
		}
	} else if p.Kind == "astray" {
		p.Kind = "route"
	}
	if rapid.IntRange(0, 9).Draw(t, "cancel") == 0 {
		p.Cancel = rapid.SampledFrom([]string{"before", "query"}).
			Draw(t, "cancel-when")
	}
	if rapid.IntRange(0, 2).Draw(t, "reply?") == 0 {
		p.Reply = drawPath(t, false)
	}
	p.Finals = drawNetFinals(t, 1150-90*(len(p.Lead)+len(p.Blind)))
	return p
}

func init() {
	Add("C18", "sends", 9000, 80000,
		"1 to 3 routed sends in a row to clear and blinded destinations; "+
			"lnd answers with routes of 1 to 31 hops, routes with a "+
			"missing or invalid key at any hop, routes that end elsewhere "+
			"than at the introduction node, no hops, each of the ways in "+
			"which it reports that there is no route, other errors, and "+
			"callers giving up before or during the query, and errors on "+
			"handing over. Messages are peeled hop by hop by an "+
			"independent implementation. Non-trivial: the route has at "+
			"least two hops or the answer is not a usable route.",
		func(t *rapid.T) planC18 {
			return planC18{rapid.SliceOfN(rapid.Custom(drawRouted), 1, 3).
				Draw(t, "sends")}
		}, runC18)
}

func runC18(c *C, p planC18) {
	net := newNet(c)
	n := net.messenger()
	for i, s := range p.Sends {
		if bad := runRouted(c, net, n, s); bad != "" {
			c.Failf("send %d (%s): %s", i, mustJSON(s), bad)
		}
	}
}

func runRouted(c *C, net *simNet, n *simNode, p routedPlan) string {
	target := nodeKey(p.Dest).PubKey()
	lead := append(append([]int{}, p.Lead...), p.Dest)
	if p.Kind == "astray" {
		lead = append(lead, 13)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if p.Cancel == "before" {
		cancel()
	}
	var cause error
	n.lnd.noise = p.Noise
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		if p.Cancel == "query" {
			cancel()
		}
		switch p.Kind {
		case "empty":
			return &lndclient.QueryRoutesResponse{}, nil
		case "none":
			return nil, lndNoRoute[p.At%len(lndNoRoute)]
		case "error":
			return nil, lndErr(p.Err)
		}
		var keys []*btcec.PublicKey
		for _, id := range lead {
			keys = append(keys, nodeKey(id).PubKey())
		}
		r := hopsOf(keys...)
		at := p.At % len(lead)
		switch p.Kind {
		case "nil key":
			r.Hops[at].PubKey = nil
		case "bad key":
			// No point has this x coordinate, or no such prefix.
			v := *r.Hops[at].PubKey
			if p.Err%2 == 0 {
				v[0] = 5
			} else {
				for j := range v[1:] {
					v[1+j] = 0xff
				}
			}
			r.Hops[at].PubKey = &v
		}
		return r, nil
	}
	sendErr := lndErr(p.Err)
	n.lnd.send = nil
	if p.SendErr {
		n.lnd.send = func(context.Context, lndclient.CustomMessage) error {
			return sendErr
		}
	}

	reply := p.Reply.build()
	var (
		dest *btcec.PublicKey
		blnd *lnwire.ReplyPath
		path = append([]int{}, lead...)
	)
	if len(p.Blind) > 0 {
		var keys []*btcec.PublicKey
		for _, id := range p.Blind {
			keys = append(keys, nodeKey(id).PubKey())
		}
		blnd = refRoute(priv(300_000), keys, nil)
		path = append(path, p.Blind[1:]...)
	} else {
		dest = target
	}
	baseCalls, baseWire := len(n.lnd.calls()), len(net.wireLog())
	err := n.m.SendMessage(ctx, onionmsg.NewSendMessageRequest(
		dest, blnd, reply, buildFinals(p.Finals), false,
	))
	calls, wire := n.lnd.calls()[baseCalls:], net.wireLog()[baseWire:]

	// What it asked for.
	queries, sends := 0, 0
	for _, g := range calls {
		switch g.Op {
		case "queryroutes":
			queries++
			q := g.QR
			switch {
			case q.PubKey != vertex(target):
				return fmt.Sprintf("asked for a route to %s, target is "+
					"%s", q.PubKey, pubHex(target))
			case q.AmtMsat == 0 || q.AmtMsat > 1000:
				return fmt.Sprintf("asked for a route for %v",
					q.AmtMsat)
			case uint64(q.FeeLimitMsat) < 21e6*1e8*1000:
				return fmt.Sprintf("asked for a route with fee limit "+
					"%v", q.FeeLimitMsat)
			case q.Source != nil || q.LastHop != nil ||
				q.MaxCltv != nil || len(q.RouteHints) > 0:

				return fmt.Sprintf("asked for a restricted route: %v",
					q)
			}
		case "send":
			sends++
		default:
			return fmt.Sprintf("a routed send made the call %s", g.Op)
		}
	}
	if queries > 1 || queries == 0 && p.Cancel != "before" {
		return fmt.Sprintf("asked for a route %d times", queries)
	}
	if len(lead) > 1 || p.Kind != "route" {
		c.NonTrivial()
	}
	c.Class("%s", p.Kind)

	// What came of it.
	noPath := false
	switch {
	case p.Cancel == "before":
		cause = context.Canceled
	case p.Kind == "none", p.Kind == "empty":
		cause, noPath = onionmsg.ErrNoPath, true
	case p.Kind == "error":
		cause = lndErr(p.Err)
	case p.Kind == "nil key":
		cause = onionmsg.ErrNilPubkeyInRoute
	case p.Kind == "bad key", p.Kind == "astray":
		cause = errAny
	case !fits(len(lead), blnd, reply, p.Finals):
		cause = errAny
		c.Class("does not fit")
	case p.Cancel == "query":
		cause = context.Canceled
	case p.SendErr:
		cause = sendErr
		c.Class("send failed")
	}
	if cause != nil {
		if err == nil {
			return fmt.Sprintf("succeeded, should fail with %v", cause)
		}
		if len(wire) != 0 {
			return "failed, but a message was sent"
		}
		if cause != errAny && !carries(err, cause) {
			return fmt.Sprintf("failed with %q, the cause is %q", err,
				cause)
		}
		if noPath != errors.Is(err, onionmsg.ErrNoPath) {
			return fmt.Sprintf("failed with %q; no path: %v", err,
				noPath)
		}
		if cause != sendErr && p.Cancel != "query" && sends > 0 {
			return "tried to send although there is nothing to send"
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("failed with %v", err)
	}
	if len(wire) != 1 || wire[0].Type != onionType ||
		wire[0].To != vertex(nodeKey(lead[0]).PubKey()) {

		return fmt.Sprintf("%d messages were sent", len(wire))
	}
	c.ClassIf(blnd != nil, "sent to a blinded destination")
	c.ClassIf(len(lead) > 5, "route of more than 5 hops")
	return followWire(wire[0].Data, path, reply, p.Finals)
}

// errAny stands for any cause.
var errAny = errors.New("some error")
