package main

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C09

type regPlan struct {
	Node int
	T    uint64
}

type sendPlan struct {
	From   int
	Route  []int
	Finals []finalPlan
	Reply  *pathPlan
	Direct bool
}

type planC09 struct {
	Nodes    int
	Handlers []regPlan
	Msgs     []sendPlan
	// Steps: -1 sends the next message, n delivers the n-th message in
	// flight (modulo their number).
	Steps []int
}

// smallTypes keeps collisions between messages and handlers likely.
func drawSmallType(t *rapid.T, label string) uint64 {
	return rapid.SampledFrom([]uint64{64, 65, 66, 67, 69, 255, 65536,
		1<<64 - 1}).Draw(t, label)
}

func drawNetFinals(t *rapid.T, room int) []finalPlan {
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 5}).Draw(t, "finals-n")
	var out []finalPlan
	if room > 60 && rapid.IntRange(0, 15).Draw(t, "crowd") == 0 {
		// As many as there is room for, or fewer.
		var (
			most  = min(room/6, 120)
			from  = drawSmallType(t, "crowd-from") % 65536
			step  = rapid.SampledFrom([]uint64{1, 2, 7}).Draw(t, "step")
			empty = rapid.Bool().Draw(t, "crowd-empty")
		)
		for i := rapid.IntRange(6, most).Draw(t, "crowd-n"); i > 0; i-- {
			f := finalPlan{T: max(from, 64) + uint64(i)*step}
			if !empty {
				f.V = lit([]byte{byte(i)})
			}
			out = append(out, f)
		}
		return out
	}
	for i := 0; i < n; i++ {
		f := finalPlan{T: drawSmallType(t, "ftype")}
		if rapid.IntRange(0, 5).Draw(t, "anytype") == 0 {
			f.T = drawFinalType(t)
		}
		max := room / n
		if max > 300 && rapid.IntRange(0, 3).Draw(t, "large") > 0 {
			max = 300
		}
		if max < 0 {
			max = 0
		}
		f.V = drawBlob(t, 0, max, "fval")
		out = append(out, f)
	}
	return distinctFinals(out)
}

// drawSimplePath draws a path over other nodes, mostly without repetition.
func drawSimplePath(t *rapid.T, nodes, from, maxLen int) []int {
	max := nodes - 1
	if max > maxLen {
		max = maxLen
	}
	n := rapid.IntRange(1, max).Draw(t, "len")
	if rapid.IntRange(0, 3).Draw(t, "longest") == 0 {
		n = max
	}
	var all []int
	for i := 0; i < nodes; i++ {
		if i != from {
			all = append(all, i)
		}
	}
	perm := rapid.Permutation(all).Draw(t, "path")
	path := append([]int{}, perm[:n]...)
	if n >= 2 && rapid.IntRange(0, 7).Draw(t, "loop") == 0 {
		// Come by a node again.
		again := path[rapid.IntRange(0, n-2).Draw(t, "again")]
		path = append(path, again)
	}
	return path
}

func drawC09(t *rapid.T, concurrent bool) planC09 {
	p := planC09{Nodes: rapid.IntRange(2, 7).Draw(t, "nodes")}
	if rapid.IntRange(0, 7).Draw(t, "big") == 0 {
		p.Nodes = rapid.IntRange(8, 17).Draw(t, "nodes")
	}
	msgs := 4
	if concurrent {
		msgs = 12
	}
	n := rapid.IntRange(1, msgs).Draw(t, "msgs")
	for i := 0; i < n; i++ {
		m := sendPlan{From: rapid.IntRange(0, p.Nodes-1).Draw(t, "from")}
		m.Route = drawSimplePath(t, p.Nodes, m.From, 15)
		if rapid.IntRange(0, 2).Draw(t, "reply?") == 0 {
			m.Reply = drawPath(t, false)
		}
		m.Finals = drawNetFinals(t, 1150-86*len(m.Route))
		if len(m.Route) == 1 {
			m.Direct = rapid.Bool().Draw(t, "direct")
		}
		p.Msgs = append(p.Msgs, m)
		// Handlers for what is sent, here and elsewhere.
		for _, f := range m.Finals {
			dst := m.Route[len(m.Route)-1]
			if len(m.Finals) > 5 {
				// Most are handled.
				if f.T%16 != 3 {
					p.Handlers = append(p.Handlers,
						regPlan{dst, f.T})
				}
				continue
			}
			if rapid.IntRange(0, 5).Draw(t, "handled") > 0 {
				p.Handlers = append(p.Handlers, regPlan{dst, f.T})
			}
			if rapid.IntRange(0, 1).Draw(t, "elsewhere") == 0 {
				p.Handlers = append(p.Handlers, regPlan{
					rapid.IntRange(0, p.Nodes-1).Draw(t, "node"),
					f.T,
				})
			}
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "more"); i > 0; i-- {
		p.Handlers = append(p.Handlers, regPlan{
			rapid.IntRange(0, p.Nodes-1).Draw(t, "node"),
			drawSmallType(t, "type"),
		})
	}
	if !concurrent {
		p.Steps = rapid.SliceOfN(rapid.IntRange(-1, 5), 0, 14).
			Draw(t, "steps")
	}
	return p
}

// c09net builds the network of a plan and registers its handlers.
func (p planC09) net(c *C) (*simNet, map[regPlan]bool) {
	n := newNet(c)
	for i := 0; i < p.Nodes; i++ {
		n.run()
	}
	has := map[regPlan]bool{}
	for _, h := range p.Handlers {
		if h.Node >= p.Nodes || has[h] {
			continue
		}
		has[h] = true
		n.nodes[h.Node].listen(h.T)
	}
	return n, has
}

func (p planC09) valid() bool {
	for _, m := range p.Msgs {
		last := m.From
		if m.From >= p.Nodes || len(m.Route) == 0 {
			return false
		}
		for _, r := range m.Route {
			if r == last || r >= p.Nodes {
				return false
			}
			last = r
		}
	}
	return true
}

func (n *simNet) keys(ids []int) []*btcec.PublicKey {
	var out []*btcec.PublicKey
	for _, i := range ids {
		out = append(out, n.nodes[i].pub)
	}
	return out
}

// request makes the send request of a plan's message and points the sender's
// lnd at its route.
func (n *simNet) request(m sendPlan) *onionmsg.SendMessageRequest {
	keys := n.keys(m.Route)
	n.nodes[m.From].lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(keys...), nil
	}
	return onionmsg.NewSendMessageRequest(
		keys[len(keys)-1], nil, m.Reply.build(), buildFinals(m.Finals),
		m.Direct,
	)
}

// expect lists the deliveries a message must cause at its destination.
func expect(has map[regPlan]bool, dst int, finals []finalPlan,
	reply *lnwire.ReplyPath) []delivery {

	var out []delivery
	for _, f := range finals {
		if has[regPlan{dst, f.T}] {
			out = append(out, delivery{
				Type: f.T, Value: f.V.Bytes(), Reply: reply,
			})
		}
	}
	return out
}

// judge compares what every node got with what it should have got.
func (n *simNet) judge(want map[int][]delivery) string {
	for _, s := range n.nodes {
		if d := diffDeliveries(s.deliveries(), want[s.id]); d != "" {
			return fmt.Sprintf("node %d: %s", s.id, d)
		}
		if e := s.shutdownErrs(); len(e) > 0 {
			return fmt.Sprintf("node %d asked for shutdown: %v", s.id, e)
		}
	}
	return ""
}

// fits decides whether a message fits in a packet.
func fits(lead int, dest, reply *lnwire.ReplyPath, finals []finalPlan) bool {
	size, hops := refSize(lead, dest, reply, finals)
	return size <= routingMax && hops <= maxHops
}

func init() {
	Add("C09", "histories", 5000, 40000,
		"networks of 2 to 17 real messengers over simulated lnds; 1 to 4 "+
			"messages over clear paths of up to 16 hops (some coming by "+
			"a node twice), with and without reply path and with 0 to 5 "+
			"payloads of up to about 1100 bytes; generated handler sets; "+
			"sends and deliveries interleaved in generated order; "+
			"non-trivial: a message over at least one relay was handled, "+
			"or two messages were in flight",
		func(t *rapid.T) planC09 { return drawC09(t, false) },
		func(c *C, p planC09) {
			if !p.valid() {
				return
			}
			n, has := p.net(c)
			want := map[int][]delivery{}
			next := 0
			send := func() {
				m := p.Msgs[next]
				next++
				n.sendPlanned(c, m, has, want)
			}
			for _, s := range p.Steps {
				if s < 0 {
					if next < len(p.Msgs) {
						send()
					}
				} else {
					n.mu.Lock()
					flight := len(n.queue)
					n.mu.Unlock()
					if flight > 1 {
						c.NonTrivial()
						c.Class("several in flight")
					}
					n.deliver(s)
				}
			}
			for next < len(p.Msgs) {
				send()
			}
			n.settle(func() bool { return n.judge(want) == "" })
			if bad := n.judge(want); bad != "" {
				c.Failf("%s", bad)
			}
			if len(n.strays) > 0 {
				c.Failf("a message was sent to %v, which is no node",
					n.strays[0].To)
			}
		}).Assume = []string{
		"an lnd delivers every custom message it accepts, once and unaltered",
	}

	s := Add("C09", "concurrent", 300, 6000,
		"as histories, with up to 12 messages sent from concurrent "+
			"goroutines and carried by a delivery goroutine per node; "+
			"non-trivial: two or more messages were handled",
		func(t *rapid.T) planC09 { return drawC09(t, true) },
		runC09Concurrent)
	s.Procs = 4
}

// sendPlanned sends a message and notes the deliveries it must cause.
func (n *simNet) sendPlanned(c *C, m sendPlan, has map[regPlan]bool,
	want map[int][]delivery) {

	reply := m.Reply.build()
	dst := m.Route[len(m.Route)-1]
	before := len(n.wireLog())
	err := n.nodes[m.From].m.SendMessage(
		context.Background(), n.request(m),
	)
	sent := n.wireLog()[before:]
	if !fits(len(m.Route), nil, reply, m.Finals) {
		c.Class("does not fit")
		if err == nil {
			c.Failf("a message that does not fit in a packet was " +
				"sent without an error")
		}
		if len(sent) > 0 {
			c.Failf("a failed send put a message on the wire")
		}
		return
	}
	if err != nil {
		c.Failf("sending over %d hops failed: %v", len(m.Route), err)
	}
	if len(sent) != 1 || sent[0].To != vertex(n.nodes[m.Route[0]].pub) ||
		sent[0].Type != onionType {

		c.Failf("a send put %d messages on the wire, first hop %d",
			len(sent), m.Route[0])
	}
	e := expect(has, dst, m.Finals, reply)
	want[dst] = append(want[dst], e...)
	switch l := len(m.Route); {
	case l == 1:
		c.Class("no relay")
	case l <= 3:
		c.Class("1 or 2 relays")
	case l <= 8:
		c.Class("3 to 7 relays")
	default:
		c.Class("8 or more relays")
	}
	c.ClassIf(len(e) > 1, "several payloads handled")
	c.ClassIf(reply != nil, "reply path")
	if len(m.Route) > 1 && len(e) > 0 {
		c.NonTrivial()
	}
}

func runC09Concurrent(c *C, p planC09) {
	if !p.valid() {
		return
	}
	n, has := p.net(c)

	// One carrier per node, so that nodes work at the same time.
	var (
		wg     sync.WaitGroup
		stop   = make(chan struct{})
		moving int64
		boxes  = make([]chan wireMsg, p.Nodes)
		index  = map[route.Vertex]int{}
	)
	for i, s := range n.nodes {
		boxes[i] = make(chan wireMsg, 4096)
		index[vertex(s.pub)] = i
	}
	n.onSend = func(w wireMsg) {
		if i, ok := index[w.To]; ok {
			atomic.AddInt64(&moving, 1)
			boxes[i] <- w
		}
	}
	for i := range n.nodes {
		s, box := n.nodes[i], boxes[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case w := <-box:
					m := lndclient.CustomMessage{
						Peer:    vertex(n.nodes[w.From].pub),
						MsgType: w.Type, Data: w.Data,
					}
					select {
					case s.lnd.msgs <- m:
						atomic.AddInt64(&moving, -1)
					case <-stop:
						return
					}
				case <-stop:
					return
				}
			}
		}()
	}
	defer func() {
		close(stop)
		wg.Wait()
	}()

	type outcome struct {
		m   sendPlan
		err error
	}
	results := make(chan outcome, len(p.Msgs))
	// Sends of one node share its lnd's routing answer: look the route up by
	// destination instead.
	byDst := map[[2]int][]int{}
	for _, m := range p.Msgs {
		k := [2]int{m.From, m.Route[len(m.Route)-1]}
		if _, ok := byDst[k]; !ok {
			byDst[k] = m.Route
		}
	}
	for i := range n.nodes {
		i := i
		n.nodes[i].lnd.routes = func(r lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf(n.keys(byDst[[2]int{i, index[r.PubKey]}])...),
				nil
		}
	}
	for _, m := range p.Msgs {
		m := m
		m.Route = byDst[[2]int{m.From, m.Route[len(m.Route)-1]}]
		m.Direct = false
		req := onionmsg.NewSendMessageRequest(
			n.nodes[m.Route[len(m.Route)-1]].pub, nil,
			m.Reply.build(), buildFinals(m.Finals), false,
		)
		go func() {
			results <- outcome{m, n.nodes[m.From].m.SendMessage(
				context.Background(), req,
			)}
		}()
	}
	want := map[int][]delivery{}
	handled := 0
	for range p.Msgs {
		var o outcome
		done := make(chan struct{})
		go func() { o = <-results; close(done) }()
		c.awaitDone("a concurrent send", done)
		reply := o.m.Reply.build()
		if !fits(len(o.m.Route), nil, reply, o.m.Finals) {
			if o.err == nil {
				c.Failf("a message that does not fit was sent")
			}
			continue
		}
		if o.err != nil {
			c.Failf("concurrent send over %d hops failed: %v",
				len(o.m.Route), o.err)
		}
		dst := o.m.Route[len(o.m.Route)-1]
		e := expect(has, dst, o.m.Finals, reply)
		want[dst] = append(want[dst], e...)
		if len(e) > 0 {
			handled++
		}
	}
	if handled > 1 {
		c.NonTrivial()
	}
	c.Class("%d handled", handled)

	// Everything has been handed over or is on its way: wait until nothing
	// moves any more.
	deadline := time.Now().Add(60 * time.Second)
	for quiet := 0; quiet < 40 && n.judge(want) != ""; {
		if time.Now().After(deadline) {
			c.Inconclusive("messages still moving after a minute")
		}
		before := len(n.wireLog())
		for _, s := range n.nodes {
			s.barrier()
		}
		if atomic.LoadInt64(&moving) == 0 && len(n.wireLog()) == before {
			quiet++
			time.Sleep(time.Duration(quiet) * time.Millisecond)
		} else {
			quiet = 0
			time.Sleep(time.Millisecond)
		}
	}
	if bad := n.judge(want); bad != "" {
		c.Failf("concurrently: %s", bad)
	}
}

// ---------------------------------------------------------------------------
// C10

// blindPlan describes a blinded route: the nodes on it, the last of which
// created it.
type blindPlan struct {
	Path []int
	Pads []int
	// Gen: made by the repository's generator (introduction node and
	// creator); otherwise built by the reference.
	Gen     bool
	Session int
}

type legPlan struct {
	// Lead leads from the sender to the introduction node, without the
	// sender and with the introduction node.
	Lead []int
	// Direct uses a direct connection (only for a lead of one).
	Direct bool
	Finals []finalPlan
	// Reply is the route back to this leg's sender, if any.
	Reply *blindPlan
}

type planC10 struct {
	Nodes int
	A, B  int
	// To is the first route, to B.
	To   blindPlan
	Legs []legPlan
}

// blinded makes the blinded route of a plan.
func (n *simNet) blinded(p blindPlan) *lnwire.ReplyPath {
	if !p.Gen {
		return refRoute(priv(200_000+p.Session), n.keys(p.Path), p.Pads)
	}
	intro, home := n.nodes[p.Path[0]], n.nodes[p.Path[1]]
	home.lnd.channels = func(_, _ bool) ([]lndclient.ChannelInfo, error) {
		return []lndclient.ChannelInfo{{
			Active: true, PubKeyBytes: vertex(intro.pub),
		}}, nil
	}
	home.lnd.nodeInfo = func(v route.Vertex, _ bool) (*lndclient.NodeInfo,
		error) {

		return &lndclient.NodeInfo{
			Node:     &lndclient.Node{PubKey: v},
			Channels: []lndclient.ChannelEdge{{}},
		}, nil
	}
	bp, err := routes.NewBlindedRouteGenerator(home.lnd, home.pub).ReplyPath(
		context.Background(), []lndwire.FeatureBit{},
	)
	if err != nil {
		n.c.Failf("generating a route through an eligible peer: %v", err)
	}
	return fromSphinx(bp)
}

func drawBlindPlan(t *rapid.T, nodes, creator int) blindPlan {
	p := blindPlan{
		Gen:     rapid.Bool().Draw(t, "gen"),
		Session: rapid.IntRange(0, 1<<20).Draw(t, "session"),
	}
	max := 4
	if p.Gen {
		max = 1
	}
	var others []int
	for i := 0; i < nodes; i++ {
		if i != creator {
			others = append(others, i)
		}
	}
	if max > len(others) {
		max = len(others)
	}
	min := 0
	if p.Gen {
		min = 1
	}
	l := rapid.IntRange(min, max).Draw(t, "relays")
	p.Path = append(rapid.Permutation(others).Draw(t, "blind-path")[:l:l],
		creator)
	if !p.Gen {
		for i := 0; i < l; i++ {
			p.Pads = append(p.Pads, rapid.SampledFrom([]int{0, 0, 2, 20,
				60}).Draw(t, "pad"))
		}
	}
	return p
}

func drawC10(t *rapid.T) planC10 {
	p := planC10{Nodes: rapid.IntRange(3, 8).Draw(t, "nodes")}
	ab := rapid.SliceOfNDistinct(
		rapid.IntRange(0, p.Nodes-1), 2, 2,
		func(i int) int { return i },
	).Draw(t, "ab")
	p.A, p.B = ab[0], ab[1]
	from, to := p.A, p.B
	p.To = drawBlindPlan(t, p.Nodes, to)
	cur := p.To
	n := rapid.IntRange(1, 4).Draw(t, "legs")
	for i := 0; i < n; i++ {
		if cur.Path[0] == from {
			// A sender that introduces the route it answers on: lnd
			// finds no path to itself.
			break
		}
		var leg legPlan
		if rapid.Bool().Draw(t, "lead") {
			path := drawSimplePath(t, p.Nodes, from, 4)
			for _, x := range path {
				if x == cur.Path[0] {
					break
				}
				leg.Lead = append(leg.Lead, x)
			}
		}
		leg.Lead = append(leg.Lead, cur.Path[0])
		if len(leg.Lead) == 1 {
			leg.Direct = rapid.Bool().Draw(t, "direct")
		}
		leg.Finals = drawNetFinals(t, 300)
		if i+1 < n || rapid.Bool().Draw(t, "reply?") {
			r := drawBlindPlan(t, p.Nodes, from)
			leg.Reply = &r
			cur = r
			if len(leg.Finals) == 0 && i+1 < n {
				leg.Finals = []finalPlan{{T: 64, V: lit([]byte{1})}}
			}
		}
		p.Legs = append(p.Legs, leg)
		from, to = to, from
		if leg.Reply == nil {
			break
		}
	}
	return p
}

func init() {
	Add("C10", "exchanges", 7000, 40000,
		"networks of 3 to 8 real messengers; a blinded route of 1 to 5 "+
			"nodes made by the repository's generator or by a reference "+
			"(with padding); a sender reaching it directly or over up to "+
			"4 clear hops, with payloads and a reply path of its own, "+
			"answered over the received reply path up to four times; "+
			"every node listens for every type; non-trivial: a blinded "+
			"route with a relay delivered a payload",
		drawC10, runC10)
}

func runC10(c *C, p planC10) {
	if len(p.Legs) == 0 {
		return
	}
	n := newNet(c)
	for i := 0; i < p.Nodes; i++ {
		n.run()
	}
	types := map[uint64]bool{}
	for _, l := range p.Legs {
		for _, f := range l.Finals {
			if !types[f.T] {
				types[f.T] = true
				for _, s := range n.nodes {
					s.listen(f.T)
				}
			}
		}
	}
	var (
		dest = n.blinded(p.To)
		cur  = p.To
		from = n.nodes[p.A]
		to   = n.nodes[p.B]
		want = map[int][]delivery{}
	)
	for i, l := range p.Legs {
		if l.Lead[0] == from.id || len(l.Lead) == 0 ||
			l.Lead[len(l.Lead)-1] != cur.Path[0] {

			return
		}
		var reply *lnwire.ReplyPath
		if l.Reply != nil {
			reply = n.blinded(*l.Reply)
		}
		from.lnd.routes = func(lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf(n.keys(l.Lead)...), nil
		}
		before := len(n.wireLog())
		err := from.m.SendMessage(
			context.Background(), onionmsg.NewSendMessageRequest(
				nil, dest, reply, buildFinals(l.Finals),
				l.Direct,
			),
		)
		if !fits(len(l.Lead), dest, reply, l.Finals) {
			c.Class("does not fit")
			if err == nil {
				c.Failf("a message that does not fit was sent")
			}
			return
		}
		if err != nil {
			c.Failf("leg %d: sending to a blinded route of %d nodes "+
				"over %d hops failed: %v", i, len(dest.Hops),
				len(l.Lead), err)
		}
		if sent := n.wireLog()[before:]; len(sent) != 1 ||
			sent[0].To != vertex(n.nodes[l.Lead[0]].pub) {

			c.Failf("leg %d: %d messages on the wire, the first not "+
				"to the first hop", i, len(sent))
		}
		carried := n.wireLog()[before]
		for _, f := range l.Finals {
			want[to.id] = append(want[to.id], delivery{
				Type: f.T, Value: f.V.Bytes(), Reply: reply,
			})
		}
		n.settle(func() bool { return n.judge(want) == "" })
		if bad := n.judge(want); bad != "" {
			c.Failf("leg %d (from %d to %d, blinded route of %d nodes, "+
				"lead-in %d hops): %s", i, from.id, to.id,
				len(dest.Hops), len(l.Lead), bad)
		}
		// What the creator of the route put into its last hop comes
		// back to it.
		all := to.deliveries()
		for _, d := range all[len(all)-len(l.Finals):] {
			end := dest.Hops[len(dest.Hops)-1]
			if !bytes.Equal(d.Enc, end.EncryptedData) {
				c.Failf("leg %d: %s came with encrypted data %x, "+
					"the route has %x", i, d, d.Enc,
					end.EncryptedData)
			}
		}
		// Handlers see payloads only: read what arrives without any.
		if bad := followWire(
			carried.Data, append(append([]int{}, l.Lead...),
				cur.Path[1:]...), reply, l.Finals,
		); bad != "" {
			c.Failf("leg %d (lead-in %d hops, blinded route of %d "+
				"nodes): %s", i, len(l.Lead), len(dest.Hops), bad)
		}
		c.ClassIf(len(l.Finals) == 0 && reply != nil,
			"reply path without payloads")
		c.Class("leg %d", i)
		c.ClassIf(len(l.Lead) == 1, "directly to the introduction node")
		c.ClassIf(len(l.Lead) > 1, "lead-in")
		c.ClassIf(cur.Gen, "generated route")
		c.ClassIf(len(dest.Hops) == 1, "single hop route")
		if len(dest.Hops) > 1 && len(l.Finals) > 0 {
			c.NonTrivial()
		}
		if l.Reply == nil || len(l.Finals) == 0 {
			return
		}
		// The recipient answers over the path that reached its handler.
		got := to.deliveries()
		dest = got[len(got)-1].Reply
		cur = *l.Reply
		from, to = to, from
	}
}
