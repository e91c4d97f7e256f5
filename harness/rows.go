package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// The checks in this file use one messenger, generator or server for several
// things in a row, with the world changing in between, and for several things
// at the same time.

// ---------------------------------------------------------------------------
// C17 and C18: sends in a row.

type rowStep struct {
	Direct *directPlan `json:",omitempty"`
	Routed *routedPlan `json:",omitempty"`
}

type planRow struct {
	Steps []rowStep
}

// drawRow makes sends of which most are of one kind.
func drawRow(t *rapid.T, direct int) planRow {
	targets := rapid.IntRange(1, 3).Draw(t, "targets")
	step := rapid.Custom(func(t *rapid.T) rowStep {
		if rapid.IntRange(0, 9).Draw(t, "kind") < direct {
			d := drawDirect(t, false)
			d.Target = 1 + d.Target%targets
			if len(d.Blind) > 0 {
				d.Blind[0] = d.Target
			}
			return rowStep{Direct: &d}
		}
		r := drawRouted(t)
		r.Dest = 1 + r.Dest%targets
		if len(r.Blind) > 0 {
			r.Blind[0] = r.Dest
		}
		return rowStep{Routed: &r}
	})
	return planRow{rapid.SliceOfN(step, 2, 6).Draw(t, "steps")}
}

func runRow(c *C, p planRow) {
	net := newNet(c)
	n := net.messenger()
	for i, s := range p.Steps {
		var bad string
		c.mustEnd("a send", func() {
			if s.Direct != nil {
				bad = runDirect(c, net, n, *s.Direct)
			} else {
				bad = runRouted(c, net, n, *s.Routed)
			}
		})
		if bad != "" {
			c.Failf("send %d (%s): %s", i, mustJSON(s), bad)
		}
	}
}

// ---------------------------------------------------------------------------
// C17, C18 and C20: sends at the same time.

// place is what lnd knows about a node that messages are sent to.
type place struct {
	// Direct sends: the node is a peer, is not known, has no address, can
	// not be connected to, or can.
	Direct string
	// Routed ones: the nodes before it on the route, or "none" or "error".
	Routed string
	Lead   []int
	Err    int
}

// crowdSend is one of the sends.
type crowdSend struct {
	// To is the place it goes to.
	To     int
	Direct bool
	Blind  []int
	Reply  *pathPlan
	Finals []finalPlan
	// Quits: its caller gives up while lnd is busy with it.
	Quits bool
}

type planCrowd struct {
	Places []place
	Sends  []crowdSend
	// RPC sends go through the server.
	RPC bool
}

func drawCrowd(t *rapid.T, direct int, rpc bool) planCrowd {
	p := planCrowd{RPC: rpc}
	for i := rapid.IntRange(1, 4).Draw(t, "places"); i > 0; i-- {
		p.Places = append(p.Places, place{
			Direct: rapid.SampledFrom([]string{"peer", "connect",
				"connect", "connect", "unknown", "no address",
				"refused"}).Draw(t, "direct"),
			Routed: rapid.SampledFrom([]string{"route", "route",
				"route", "none", "error"}).Draw(t, "routed"),
			Lead: rapid.SliceOfN(rapid.IntRange(20, 26), 0, 4).
				Draw(t, "lead"),
			Err: rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
		})
	}
	send := rapid.Custom(func(t *rapid.T) crowdSend {
		s := crowdSend{
			To: rapid.IntRange(0, len(p.Places)-1).Draw(t, "to"),
			Direct: rapid.IntRange(0, 9).
				Draw(t, "direct?") < direct,
			Quits: rapid.IntRange(0, 4).Draw(t, "quits") == 0,
		}
		for i := rapid.IntRange(0, 3).Draw(t, "blinded"); i > 1; i-- {
			s.Blind = append(s.Blind, 10+i)
		}
		if rapid.IntRange(0, 3).Draw(t, "reply?") == 0 {
			s.Reply = drawPath(t, false)
			if len(s.Reply.Hops) > 2 {
				s.Reply.Hops = s.Reply.Hops[:2]
			}
			for i := range s.Reply.Hops {
				s.Reply.Hops[i].Data = lit([]byte{1, 2, 3})
			}
		}
		s.Finals = drawNetFinals(t, 200)
		return s
	})
	p.Sends = rapid.SliceOfN(send, 2, 8).Draw(t, "sends")
	return p
}

// quitKey marks the context of callers that give up.
type quitKey struct{}

func runCrowd(c *C, p planCrowd) {
	var (
		net = newNet(c)
		n   *simNode
		mu  sync.Mutex
		// connected are the places connected to, connects how often.
		connected = map[int]bool{}
		connects  = map[int]int{}
		quitters  int
	)
	if p.RPC {
		n = net.runServer()
	} else {
		n = net.messenger()
	}
	key := func(i int) *btcec.PublicKey { return nodeKey(1 + i).PubKey() }
	which := func(v route.Vertex) int {
		for i := range p.Places {
			if vertex(key(i)) == v {
				return i
			}
		}
		return -1
	}
	n.lnd.ctxHook = func(ctx context.Context, op string) error {
		// lnd takes its time with the calls of those who give up.
		if ctx.Value(quitKey{}) != nil && op != "send" && op != "peers" {
			<-ctx.Done()
			return ctx.Err()
		}
		return nil
	}
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		mu.Lock()
		defer mu.Unlock()
		var out []lndclient.Peer
		for i, q := range p.Places {
			if q.Direct == "peer" || connected[i] {
				out = append(out, lndclient.Peer{
					Pubkey: vertex(key(i)),
				})
			}
		}
		return out, nil
	}
	n.lnd.nodeInfo = func(v route.Vertex, _ bool) (*lndclient.NodeInfo,
		error) {

		i := which(v)
		if i < 0 || p.Places[i].Direct == "unknown" {
			return nil, status.Error(codes.NotFound,
				"unable to find node")
		}
		info := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v}}
		if p.Places[i].Direct != "no address" {
			info.Node.Addresses = []string{
				fmt.Sprintf("host-%d:1", i), "other:1",
			}
		}
		return info, nil
	}
	var wrong string
	n.lnd.connect = func(_ context.Context, v route.Vertex,
		host string) error {

		i := which(v)
		mu.Lock()
		defer mu.Unlock()
		if host != fmt.Sprintf("host-%d:1", i) {
			wrong = fmt.Sprintf("place %d connected to at %s", i, host)
		}
		if i < 0 || p.Places[i].Direct == "refused" {
			return lndErr(p.Places[max(i, 0)].Err)
		}
		connected[i] = true
		connects[i]++
		return nil
	}
	n.lnd.routes = func(q lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		i := which(q.PubKey)
		if i < 0 || p.Places[i].Routed == "none" {
			return nil, lndclient.ErrNoRouteFound
		}
		if p.Places[i].Routed == "error" {
			return nil, lndErr(p.Places[i].Err)
		}
		var keys []*btcec.PublicKey
		for _, id := range p.Places[i].Lead {
			keys = append(keys, nodeKey(id).PubKey())
		}
		return hopsOf(append(keys, key(i))...), nil
	}

	var (
		errs    = make([]error, len(p.Sends))
		paths   = make([][]int, len(p.Sends))
		replies = make([]*lnwire.ReplyPath, len(p.Sends))
		finals  = make([][]finalPlan, len(p.Sends))
		calls   = make([]func(context.Context) error, len(p.Sends))
		wg      sync.WaitGroup
		gate    = make(chan struct{})
	)
	for i, s := range p.Sends {
		if !s.Direct {
			paths[i] = append(paths[i], p.Places[s.To].Lead...)
		}
		paths[i] = append(paths[i], 1+s.To)
		var (
			dest = key(s.To)
			blnd *lnwire.ReplyPath
		)
		if len(s.Blind) > 0 {
			keys := []*btcec.PublicKey{dest}
			for _, id := range s.Blind {
				keys = append(keys, nodeKey(id).PubKey())
			}
			blnd = refRoute(priv(300_000+i), keys, nil)
			paths[i] = append(paths[i], s.Blind...)
			dest = nil
		}
		replies[i] = s.Reply.build()
		// Every message is a different one.
		finals[i] = append([]finalPlan{{
			T: 70_000, V: lit([]byte(fmt.Sprintf("send %d", i))),
		}}, s.Finals...)
		s, i := s, i
		if p.RPC {
			req := &offersrpc.SendOnionMessageRequest{
				DirectConnect: s.Direct,
				ReplyPath:     toRPC(replies[i]),
				FinalPayloads: map[uint64][]byte{},
			}
			if dest != nil {
				req.Pubkey = dest.SerializeCompressed()
			} else {
				req.BlindedDestination = toRPC(blnd)
			}
			for _, f := range finals[i] {
				req.FinalPayloads[f.T] = f.V.Bytes()
			}
			calls[i] = func(ctx context.Context) error {
				_, err := n.srv.SendOnionMessage(ctx, req)
				return err
			}
			continue
		}
		req := onionmsg.NewSendMessageRequest(
			dest, blnd, replies[i], buildFinals(finals[i]), s.Direct,
		)
		calls[i] = func(ctx context.Context) error {
			return n.m.SendMessage(ctx, req)
		}
	}
	for i, s := range p.Sends {
		i, s := i, s
		ctx := context.Background()
		if s.Quits {
			quitters++
			var cancel func()
			ctx, cancel = context.WithCancel(
				context.WithValue(ctx, quitKey{}, true),
			)
			defer cancel()
			time.AfterFunc(3*time.Millisecond, cancel)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			errs[i] = calls[i](ctx)
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	close(gate)
	c.awaitDone("sends at the same time", done)

	mu.Lock()
	defer mu.Unlock()
	if wrong != "" {
		c.Failf("%s", wrong)
	}
	wire := net.wireLog()
	taken := make([]bool, len(wire))
	good, direct := 0, map[int]int{}
	for i, s := range p.Sends {
		q := p.Places[s.To]
		if s.Direct {
			direct[s.To]++
		}
		// What it has to come to.
		var (
			cause error
			code  = codes.Internal
		)
		switch {
		case s.Direct && q.Direct == "unknown":
			cause = status.Error(codes.NotFound,
				"unable to find node")
		case s.Direct && q.Direct == "no address":
			cause = onionmsg.ErrNoAddresses
		case s.Direct && q.Direct == "refused":
			cause = lndErr(q.Err)
		case !s.Direct && q.Routed == "none":
			cause, code = onionmsg.ErrNoPath, codes.NotFound
		case !s.Direct && q.Routed == "error":
			cause = lndErr(q.Err)
		}
		err := errs[i]
		sent := -1
		for k, w := range wire {
			if taken[k] || w.Type != onionType ||
				w.To != vertex(nodeKey(paths[i][0]).PubKey()) {

				continue
			}
			if followWire(w.Data, paths[i], replies[i],
				finals[i]) == "" {

				sent = k
				break
			}
		}
		if (sent >= 0) != (err == nil) {
			c.Failf("send %d (%s) to %s: result %v, its message went "+
				"out: %v", i, mustJSON(s), mustJSON(q), err, sent >= 0)
		}
		if sent >= 0 {
			taken[sent] = true
			good++
		}
		// Those who give up fail for that reason unless they were
		// through by then.
		if s.Quits {
			if err != nil && !p.RPC && !carries(err, context.Canceled) &&
				!carries(err, cause) {

				c.Failf("send %d was given up and failed with %v",
					i, err)
			}
			continue
		}
		if (err == nil) != (cause == nil) {
			c.Failf("send %d (%s) to %s: result %v, want %v", i,
				mustJSON(s), mustJSON(q), err, cause)
		}
		if cause == nil {
			continue
		}
		if p.RPC && status.Code(err) != code {
			c.Failf("send %d (%s) to %s: result %v, want %v", i,
				mustJSON(s), mustJSON(q), err, code)
		}
		if !p.RPC && !carries(err, cause) {
			c.Failf("send %d (%s) to %s: failed with %v, the cause is "+
				"%v", i, mustJSON(s), mustJSON(q), err, cause)
		}
	}
	for k, ok := range taken {
		if !ok {
			c.Failf("message %d to %v was sent for nobody", k, wire[k].To)
		}
	}
	for i, k := range connects {
		if k > direct[i] || p.Places[i].Direct == "peer" {
			c.Failf("%d connections for %d direct sends to %s", k,
				direct[i], mustJSON(p.Places[i]))
		}
	}
	c.ClassIf(quitters > 0, "some gave up")
	c.ClassIf(len(connects) > 0, "connected")
	c.ClassIf(good > 0 && good < len(p.Sends), "some failed")
	if good > 1 {
		c.NonTrivial()
	}
}

func init() {
	const world = "Nodes that are peers, can be connected to or not, are " +
		"unknown or have no address, and with or without a route; "
	Add("C17", "rows", 2500, 20000,
		"2 to 6 sends in a row by one messenger, mostly direct ones, to up "+
			"to three destinations; peers, announcements, addresses and "+
			"failures are different each time. Each is judged as in "+
			"\"immediate\". Non-trivial: as there.",
		func(t *rapid.T) planRow { return drawRow(t, 8) }, runRow)
	Add("C18", "rows", 1500, 12000,
		"2 to 6 sends in a row by one messenger, mostly routed ones, to up "+
			"to three destinations with a different answer by lnd each "+
			"time. Each is judged as in \"sends\". Non-trivial: as there.",
		func(t *rapid.T) planRow { return drawRow(t, 2) }, runRow)
	const crowd = world + "2 to 8 sends at the same time, some to the same " +
		"node, some of whose callers give up while lnd is busy. Every send " +
		"must come to what it would alone, and every message on the wire " +
		"belong to one that succeeded. Non-trivial: at least two succeeded."
	s := Add("C17", "concurrent", 800, 12000, "Mostly direct sends. "+crowd,
		func(t *rapid.T) planCrowd { return drawCrowd(t, 9, false) },
		runCrowd)
	s.Procs = 3
	s = Add("C18", "concurrent", 800, 12000, "Mostly routed sends. "+crowd,
		func(t *rapid.T) planCrowd { return drawCrowd(t, 1, false) },
		runCrowd)
	s.Procs = 3
	s = Add("C20", "concurrent", 800, 12000, "Through the RPC. "+crowd,
		func(t *rapid.T) planCrowd { return drawCrowd(t, 4, true) },
		runCrowd)
	s.Procs = 3
}

// ---------------------------------------------------------------------------
// C19 and C23: routes in a row and at the same time.

type planGenRow struct {
	// Worlds follow each other.
	Worlds []routeGenPlan
	// Askers ask for these features at the same time, in each world.
	Askers [][]uint64
	RPC    bool
}

func drawGenRow(t *rapid.T, rpc bool) planGenRow {
	p := planGenRow{RPC: rpc}
	n := rapid.IntRange(1, 4).Draw(t, "worlds")
	for i := 0; i < n; i++ {
		w := drawRouteGen(t)
		w.Cancel = false
		if i > 0 && rapid.Bool().Draw(t, "alike") {
			// Like the one before, but for one thing.
			v := p.Worlds[i-1]
			switch rapid.IntRange(0, 2).Draw(t, "change") {
			case 0:
				v.Chans = nil
				for _, ch := range w.Chans {
					ch.Peer = 1 + ch.Peer%len(v.Peers)
					v.Chans = append(v.Chans, ch)
				}
			case 1:
				v.Peers = append([]peerPlan{}, v.Peers...)
				for j := range v.Peers {
					v.Peers[j].Channels = w.Peers[j%
						len(w.Peers)].Channels
				}
			case 2:
				v.Peers = append([]peerPlan{}, v.Peers...)
				for j := range v.Peers {
					v.Peers[j].Features = w.Peers[j%
						len(w.Peers)].Features
				}
			}
			w = v
		}
		p.Worlds = append(p.Worlds, w)
	}
	p.Askers = [][]uint64{p.Worlds[0].Features}
	odd := map[uint64]bool{}
	for _, w := range p.Worlds {
		for _, q := range w.Peers {
			for _, f := range q.Features {
				odd[uint64(f)&^1] = odd[uint64(f)&^1] || f%2 == 1
			}
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "askers"); i > 0; i-- {
		fs := []uint64{}
		for j := rapid.IntRange(0, 2).Draw(t, "features"); j > 0; j-- {
			fs = append(fs, rapid.SampledFrom(featurePairs).
				Draw(t, "feature"))
		}
		p.Askers = append(p.Askers, fs)
	}
	// Nobody asks for a required feature that some peer has as optional.
	for i, fs := range p.Askers {
		out := []uint64{}
		for _, f := range fs {
			if odd[f&^1] {
				f |= 1
			}
			out = append(out, f)
		}
		p.Askers[i] = out
	}
	return p
}

func runGenRow(c *C, p planGenRow) {
	net := newNet(c)
	var n *simNode
	if p.RPC {
		n = net.runServer()
	} else {
		n = net.bare()
	}
	gen := routes.NewBlindedRouteGenerator(n.lnd, n.pub)
	ask := func(fs []uint64) (*lnwire.ReplyPath, error) {
		if p.RPC {
			resp, err := n.srv.GenerateBlindedRoute(
				context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{
					Features: append([]uint64{}, fs...),
				},
			)
			if err != nil {
				return nil, err
			}
			if resp == nil || resp.Route == nil {
				return nil, errors.New("no error and no route")
			}
			return fromRPC(c, resp.Route), nil
		}
		var bits []lndwire.FeatureBit
		for _, f := range fs {
			bits = append(bits, lndwire.FeatureBit(f))
		}
		var (
			bp  *sphinx.BlindedPath
			err error
		)
		bp, err = gen.ReplyPath(context.Background(), bits)
		if err != nil {
			return nil, err
		}
		return fromSphinx(bp), nil
	}
	keys := map[string]bool{}
	fine := 0
	for i := range p.Worlds {
		w := p.Worlds[i]
		w.install(n)
		var (
			got  = make([]*lnwire.ReplyPath, len(p.Askers))
			errs = make([]error, len(p.Askers))
			bad  = make([]interface{}, len(p.Askers))
			wg   sync.WaitGroup
			done = make(chan struct{})
		)
		for j := range p.Askers {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { bad[j] = caught(recover()) }()
				got[j], errs[j] = ask(p.Askers[j])
			}()
		}
		go func() {
			wg.Wait()
			close(done)
		}()
		c.awaitDone("generating routes", done)
		for j, fs := range p.Askers {
			if bad[j] != nil {
				panic(bad[j])
			}
			w.Features = fs
			peers, causes := w.best()
			if len(causes) > 0 {
				if errs[j] == nil {
					c.Failf("world %d, features %v: generated a "+
						"route, should fail with %v", i, fs,
						causes)
				}
				if p.RPC && status.Code(errs[j]) != codes.Internal ||
					!p.RPC && !causedBy(errs[j], causes) {

					c.Failf("world %d, features %v: failed with "+
						"%v, the cause is %v", i, fs,
						errs[j], causes)
				}
				c.Class("fails")
				continue
			}
			if errs[j] != nil {
				c.Failf("world %d, features %v: no route although "+
					"peers %v are eligible: %v", i, fs, peers,
					errs[j])
			}
			fine++
			c.ClassIf(i > 0, "route in a changed world")
			fp := []finalPlan{{T: 64, V: lit([]byte("hello"))}}
			if b := usable(got[j], peers, n.id, fp); b != "" {
				c.Failf("world %d, features %v: %s", i, fs, b)
			}
			ks := []string{pubHex(got[j].BlindingPoint)}
			for _, h := range got[j].Hops {
				ks = append(ks, pubHex(h.BlindedNodeID))
			}
			for _, k := range ks {
				if keys[k] {
					c.Failf("key %s is used in two routes", k)
				}
				keys[k] = true
			}
		}
	}
	if fine > 1 {
		c.NonTrivial()
	}
}

func init() {
	const rule = "One generator asked for up to four sets of features at the " +
		"same time, in one to four worlds that follow each other and often " +
		"differ in one respect only (channels, their number, features of " +
		"peers). Every answer is judged by the predicate of C19 for the " +
		"world it was given in; no key occurs twice. Non-trivial: at " +
		"least two routes were generated."
	s := Add("C19", "rows", 3000, 25000, rule,
		func(t *rapid.T) planGenRow { return drawGenRow(t, false) },
		runGenRow)
	s.Procs = 3
	s = Add("C23", "rows", 2000, 20000, rule+" Through the RPC.",
		func(t *rapid.T) planGenRow { return drawGenRow(t, true) },
		runGenRow)
	s.Procs = 3
}

// ---------------------------------------------------------------------------
// C06 and C21: many strings, one after the other and at the same time.

type planStrings struct {
	Texts []HB
}

func runStrings(c *C, p planStrings) {
	net := newNet(c)
	n := net.runServer()
	type answer struct {
		o   *offersrpc.Offer
		err error
	}
	decode := func(s HB) answer {
		r, err := n.srv.DecodeOffer(context.Background(),
			&offersrpc.DecodeOfferRequest{Offer: string(s)})
		if err != nil {
			return answer{nil, err}
		}
		return answer{r.GetOffer(), nil}
	}
	same := func(a, b answer) bool {
		return (a.err == nil) == (b.err == nil) &&
			status.Code(a.err) == status.Code(b.err) &&
			proto.Equal(a.o, b.o)
	}
	// A server of its own for each, as the first thing it is asked.
	want := make([]answer, len(p.Texts))
	valid := 0
	var readings []*reading
	for i, s := range p.Texts {
		readings = append(readings, readString(string(s)))
		other := newNet(c).runServer()
		r, err := other.srv.DecodeOffer(context.Background(),
			&offersrpc.DecodeOfferRequest{Offer: string(s)})
		want[i] = answer{r.GetOffer(), err}
		if err != nil {
			want[i].o = nil
		} else {
			valid++
		}
	}
	check := func(how string, i int, a answer) {
		if len(p.Texts[i]) > 0 {
			bad := readings[i].judgeRPC(a.o, a.err)
			if bad != "" {
				c.Failf("decoded %s: %s", how, bad)
			}
		}
		if !same(a, want[i]) {
			c.Failf("%q decoded %s: %v (%v), as the first: %v (%v)",
				string(p.Texts[i]), how, a.o, a.err, want[i].o,
				want[i].err)
		}
	}
	for i, s := range p.Texts {
		check("after others", i, decode(s))
	}
	var (
		wg   sync.WaitGroup
		got  = make([][]answer, len(p.Texts))
		done = make(chan struct{})
	)
	for i := range p.Texts {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4; k++ {
				got[i] = append(got[i], decode(p.Texts[i]))
			}
		}()
	}
	go func() {
		wg.Wait()
		close(done)
	}()
	c.awaitDone("decoding", done)
	for i := range got {
		for _, a := range got[i] {
			check("with others", i, a)
		}
	}
	if calls := n.lnd.lookups(); len(calls) > 0 {
		c.Failf("decoding offers made the call %s", calls[0].Op)
	}
	if valid > 1 {
		c.NonTrivial()
	}
	c.ClassIf(valid < len(p.Texts), "some are no offers")
}

func init() {
	s := Add("C21", "rows", 1500, 15000,
		"2 to 6 strings, some of which are spellings or near misses of "+
			"the same offer or the same records with another signature, "+
			"decoded by one server one after the other and at the same "+
			"time. Each answer is judged as in \"strings\" and must be "+
			"the one a server gives that is asked nothing else. "+
			"Non-trivial: at least two are valid.",
		func(t *rapid.T) planStrings {
			var p planStrings
			if rapid.Bool().Draw(t, "near offers") {
				return planStrings{drawNearOffers(t)}
			}
			for i := rapid.IntRange(2, 6).Draw(t, "n"); i > 0; i-- {
				var s HB
				if len(p.Texts) > 0 && rapid.IntRange(0, 2).
					Draw(t, "near") == 0 {

					// One with the same offer but for a
					// character or its case.
					s = append(HB{}, p.Texts[len(p.Texts)-1]...)
					switch at := rapid.IntRange(0,
						max(len(s)-1, 0)).Draw(t, "at"); {
					case len(s) == 0:
					case rapid.Bool().Draw(t, "case"):
						s = bytes.ToUpper(s)
					default:
						s[at] = bech32Chars[rapid.IntRange(0,
							31).Draw(t, "ch")]
					}
				} else if rapid.IntRange(0, 2).Draw(t, "any") == 0 {
					s = drawC06(t).Text
				} else {
					s = HB(offerString(encodeRecs(drawOffer(t))))
				}
				p.Texts = append(p.Texts, s)
			}
			return p
		}, runStrings)
	s.Procs = 3
}
