package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C19 and C23: blinded routes to the node itself.

// chanPlan is one of the node's channels.
type chanPlan struct {
	Peer            int
	Active, Private bool
}

// peerPlan is what the graph knows about a peer.
type peerPlan struct {
	// Graph: "known", "no announcement", "not found", "error".
	Graph    string
	Channels int
	Features []uint16
	Err      int
}

type routeGenPlan struct {
	Chans []chanPlan
	// Peers by number; nodes 1 to len(Peers).
	Peers    []peerPlan
	Features []uint64
	// ListErr makes listing the channels fail.
	ListErr bool
	Err     int
	Cancel  bool
	Noise   int
}

type planC19 struct {
	Gen    routeGenPlan
	Finals []finalPlan
	Times  int
}

// featurePairs are feature bits without the parity bit.
var featurePairs = []uint64{0, 2, 8, 14, 38, 100, 1000, 65534}

func drawRouteGen(t *rapid.T) routeGenPlan {
	p := routeGenPlan{
		ListErr: rapid.IntRange(0, 19).Draw(t, "list-err") == 0,
		Err:     rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
		Cancel:  rapid.IntRange(0, 29).Draw(t, "cancel") == 0,
		Noise:   rapid.IntRange(0, 9999).Draw(t, "noise"),
	}
	// Which bits of a pair peers advertise. Whether the optional bit
	// satisfies a request for the required one is not specified, so peers
	// only advertise it where the required one is not asked for.
	odd := map[uint64]bool{}
	var bits []uint16
	pairs := append([]uint64{}, featurePairs...)
	for i := rapid.IntRange(0, 2).Draw(t, "alike"); i > 0; i-- {
		// One that differs from another in one bit of its number.
		f := rapid.SampledFrom(featurePairs).Draw(t, "like") ^
			1<<rapid.IntRange(1, 15).Draw(t, "like-bit")
		if !slices.Contains(pairs, f) {
			pairs = append(pairs, f)
		}
	}
	for _, f := range pairs {
		odd[f] = rapid.IntRange(0, 3).Draw(t, "odd") == 0
		b := uint16(f)
		if odd[f] {
			b++
		}
		bits = append(bits, b)
	}
	for i := rapid.IntRange(0, 3).Draw(t, "features"); i > 0; i-- {
		f := rapid.SampledFrom(pairs).Draw(t, "feature")
		if odd[f] || rapid.IntRange(0, 3).Draw(t, "optional") == 0 {
			f++
		}
		p.Features = append(p.Features, f)
	}
	nerr := 0
	if rapid.IntRange(0, 4).Draw(t, "errors?") == 0 {
		nerr = 1
	}
	for i := rapid.IntRange(1, 7).Draw(t, "peers"); i > 0; i-- {
		q := peerPlan{
			Graph: rapid.SampledFrom([]string{"known", "known", "known",
				"known", "no announcement", "not found"}).
				Draw(t, "graph"),
			Channels: rapid.SampledFrom([]int{0, 1, 2, 2, 3, 5, 8}).
				Draw(t, "channels"),
			Err: rapid.IntRange(0, len(lndErrs)-1).Draw(t, "perr"),
		}
		if nerr > 0 && rapid.IntRange(0, 2).Draw(t, "error") == 0 {
			q.Graph = "error"
		}
		for _, b := range bits {
			if rapid.IntRange(0, 3).Draw(t, "has") > 0 {
				q.Features = append(q.Features, b)
			}
		}
		p.Peers = append(p.Peers, q)
	}
	// Numbers of channels around the limits of integer types matter too.
	if rapid.IntRange(0, 19).Draw(t, "large") == 0 {
		for i := range p.Peers {
			p.Peers[i].Channels = rapid.SampledFrom([]int{1, 2, 126, 127,
				128, 129, 254, 255, 256, 257, 258, 511, 512, 513,
				1000}).Draw(t, "large-n")
		}
		if rapid.IntRange(0, 19).Draw(t, "larger") == 0 {
			p.Peers[0].Channels = rapid.SampledFrom([]int{32767, 32768,
				65535, 65536, 65537}).Draw(t, "larger-n")
		}
	}
	most := 9
	if rapid.IntRange(0, 49).Draw(t, "crowd") == 0 {
		n := rapid.SampledFrom([]int{20, 60, 120}).Draw(t, "crowd-n")
		step := rapid.IntRange(1, 9).Draw(t, "crowd-step")
		for i := 0; i < n; i++ {
			p.Peers = append(p.Peers, peerPlan{
				Graph:    "known",
				Channels: 1 + i*step%(n/2),
				Features: bits[:i*step%(len(bits)+1)],
			})
		}
		most = 3 * n
	}
	p.Chans = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) chanPlan {
		return chanPlan{
			Peer:    rapid.IntRange(1, len(p.Peers)).Draw(t, "peer"),
			Active:  rapid.IntRange(0, 3).Draw(t, "active") > 0,
			Private: rapid.IntRange(0, 3).Draw(t, "private") == 0,
		}
	}), most/4, most).Draw(t, "chans")
	if most == 9 && rapid.IntRange(0, 9).Draw(t, "few") == 0 {
		p.Chans = p.Chans[:rapid.IntRange(0, 2).Draw(t, "few-n")]
	}
	return p
}

// install makes a node's lnd behave according to the plan.
func (p *routeGenPlan) install(n *simNode) {
	n.lnd.noise = p.Noise
	keys := make([]route.Vertex, len(p.Peers))
	byKey := make(map[route.Vertex]peerPlan, len(p.Peers))
	for i, q := range p.Peers {
		keys[i] = vertex(nodeKey(i + 1).PubKey())
		byKey[keys[i]] = q
	}
	n.lnd.channels = func(active, public bool) ([]lndclient.ChannelInfo,
		error) {

		if p.ListErr {
			return nil, lndErr(p.Err)
		}
		var out []lndclient.ChannelInfo
		for i, ch := range p.Chans {
			if active && !ch.Active || public && ch.Private {
				continue
			}
			out = append(out, lndclient.ChannelInfo{
				Active: ch.Active, Private: ch.Private,
				ChannelID:   uint64(i + 1),
				PubKeyBytes: keys[ch.Peer-1],
			})
		}
		return out, nil
	}
	n.lnd.nodeInfo = func(v route.Vertex, withChannels bool) (
		*lndclient.NodeInfo, error) {

		q, ok := byKey[v]
		if !ok {
			return nil, status.Error(codes.NotFound,
				"unable to find node")
		}
		switch q.Graph {
		case "not found":
			return nil, status.Error(codes.NotFound,
				"unable to find node")
		case "error":
			return nil, lookupErr(q.Err)
		}
		info := &lndclient.NodeInfo{ChannelCount: q.Channels}
		if withChannels {
			info.Channels = make([]lndclient.ChannelEdge,
				q.Channels)
		}
		if q.Graph == "known" {
			info.Node = &lndclient.Node{
				PubKey:   v,
				Features: featureBits(q.Features),
			}
		}
		return info, nil
	}
}

// lookupErr is an error other than that a node is unknown.
func lookupErr(i int) error {
	if e := lndErr(i); status.Code(e) != codes.NotFound {
		return e
	}
	return status.Error(codes.Internal, "not found: database closed")
}

// best lists the peers that may introduce a route, or the reason why there
// is none.
func (p *routeGenPlan) best() (peers []int, causes []error) {
	if p.Cancel {
		return nil, []error{context.Canceled}
	}
	if p.ListErr {
		return nil, []error{lndErr(p.Err)}
	}
	var (
		most int
		any  bool
	)
	seen := map[int]bool{}
	for _, ch := range p.Chans {
		if !ch.Active || seen[ch.Peer] {
			continue
		}
		any = true
		seen[ch.Peer] = true
		q := p.Peers[ch.Peer-1]
		if q.Graph == "error" {
			causes = append(causes, lookupErr(q.Err))
		}
		if q.Graph != "known" || q.Channels == 0 {
			continue
		}
		has := bitSet(q.Features)
		ok := true
		for _, f := range p.Features {
			ok = ok && (f%2 == 1 || has[uint16(f)])
		}
		if !ok || q.Channels < most {
			continue
		}
		if q.Channels > most {
			peers, most = nil, q.Channels
		}
		peers = append(peers, ch.Peer)
	}
	switch {
	case !any:
		return nil, []error{routes.ErrNoChannels}
	case len(causes) > 0:
		return nil, causes
	case len(peers) == 0:
		return nil, []error{routes.ErrNoRelayingPeers}
	}
	return peers, nil
}

func (p *routeGenPlan) classify(c *C) {
	peers, causes := p.best()
	seen := map[int]bool{}
	for _, ch := range p.Chans {
		if ch.Active {
			seen[ch.Peer] = true
		}
	}
	c.ClassIf(len(peers) > 1, "several best peers")
	c.ClassIf(len(seen) > 1 && len(peers) == 1, "one best of several peers")
	c.ClassIf(len(peers) > 0, "route")
	for _, e := range causes {
		c.Class("fails: %v", e)
	}
	if len(seen) > 1 {
		c.NonTrivial()
	}
}

func init() {
	Add("C19", "routes", 20000, 100000,
		"Generated channels (active or not, private or not, several with "+
			"a peer), peers (known, unknown or without announcement, any "+
			"number of public channels, generated features), requested "+
			"required and optional features and lookup failures. The "+
			"introduction node must be one of those an independent "+
			"predicate selects, the route must be usable by an "+
			"independent sender, and routes generated in a row must "+
			"share no key. Non-trivial: active channels with at least "+
			"two peers.",
		func(t *rapid.T) planC19 {
			return planC19{
				drawRouteGen(t), drawNetFinals(t, 300),
				rapid.IntRange(1, 3).Draw(t, "times"),
			}
		}, runC19)
	Add("C23", "requests", 12000, 60000,
		"As for C19, through the RPC of a running server, with requested "+
			"features in and beyond the feature range; the returned route "+
			"is copied into a send request of another server and the "+
			"message it puts on the wire is followed home by an "+
			"independent implementation. Non-trivial: active channels "+
			"with at least two peers, or a feature beyond the range.",
		func(t *rapid.T) planC23 {
			p := planC23{
				Gen: drawRouteGen(t), Finals: drawNetFinals(t, 300),
				Direct: rapid.Bool().Draw(t, "direct"),
			}
			p.Gen.Cancel = false
			if rapid.IntRange(0, 4).Draw(t, "beyond") == 0 {
				at := rapid.IntRange(0, len(p.Gen.Features)).
					Draw(t, "beyond-at")
				f := rapid.SampledFrom([]uint64{65536, 65537, 65544,
					1<<16 + 8, 1 << 17, 1<<32 + 8, 1 << 63,
					1<<64 - 1, 1<<64 - 8}).Draw(t, "beyond-f")
				fs := append([]uint64{}, p.Gen.Features[:at]...)
				fs = append(fs, f)
				p.Gen.Features = append(fs, p.Gen.Features[at:]...)
			}
			return p
		}, runC23)
}

func causedBy(err error, causes []error) bool {
	for _, e := range causes {
		if carries(err, e) {
			return true
		}
	}
	return false
}

// usable follows a message to a route from one of the peers to the node.
func usable(r *lnwire.ReplyPath, peers []int, home int,
	finals []finalPlan) string {

	intro := -1
	for _, q := range peers {
		if pubHex(r.FirstNodeID) == pubHex(nodeKey(q).PubKey()) {
			intro = q
		}
	}
	if intro < 0 {
		return fmt.Sprintf("the route is introduced by %s, which is not "+
			"one of the best peers %v", pubHex(r.FirstNodeID), peers)
	}
	wire := blindedMessage(priv(400_000), r, nil, finals)
	return followWire(wire, []int{intro, home}, nil, finals)
}

func runC19(c *C, p planC19) {
	net := newNet(c)
	n := net.bare()
	p.Gen.install(n)
	p.Gen.classify(c)
	var bits []lndwire.FeatureBit
	for _, f := range p.Gen.Features {
		bits = append(bits, lndwire.FeatureBit(f))
	}
	gen := routes.NewBlindedRouteGenerator(n.lnd, n.pub)
	peers, causes := p.Gen.best()
	keys := map[string]bool{}
	for i := 0; i < p.Times; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if p.Gen.Cancel {
			cancel()
		}
		var (
			bp  *sphinx.BlindedPath
			err error
		)
		c.mustEnd("generating a route", func() {
			bp, err = gen.ReplyPath(ctx, bits)
		})
		cancel()
		if len(causes) > 0 {
			if err == nil {
				c.Failf("generated a route, should fail with %v",
					causes)
			}
			if !causedBy(err, causes) {
				c.Failf("failed with %q, the cause is %v", err,
					causes)
			}
			continue
		}
		if err != nil {
			c.Failf("no route although peers %v are eligible: %v",
				peers, err)
		}
		r := fromSphinx(bp)
		if bad := usable(r, peers, n.id, p.Finals); bad != "" {
			c.Failf("route %d: %s", i, bad)
		}
		ks := []string{pubHex(r.BlindingPoint)}
		for _, h := range r.Hops {
			ks = append(ks, pubHex(h.BlindedNodeID))
		}
		for _, k := range ks {
			if keys[k] {
				c.Failf("key %s is used in two routes", k)
			}
			keys[k] = true
		}
	}
	for _, call := range n.lnd.calls() {
		switch call.Op {
		case "channels", "nodeinfo", "info":
		default:
			c.Failf("generating a route made the call %s", call.Op)
		}
	}
}

// ---------------------------------------------------------------------------
// C23

type planC23 struct {
	Gen    routeGenPlan
	Finals []finalPlan
	Direct bool
}

func runC23(c *C, p planC23) {
	net := newNet(c)
	home := net.runServer()
	p.Gen.install(home)
	base := len(home.lnd.lookups())

	beyond := false
	for _, f := range p.Gen.Features {
		beyond = beyond || f > 65535
	}
	var (
		resp *offersrpc.GenerateBlindedRouteResponse
		err  error
	)
	c.mustEnd("GenerateBlindedRoute", func() {
		resp, err = home.srv.GenerateBlindedRoute(
			context.Background(),
			&offersrpc.GenerateBlindedRouteRequest{
				Features: append([]uint64{}, p.Gen.Features...),
			},
		)
	})
	calls := home.lnd.lookups()[base:]
	if beyond {
		c.NonTrivial()
		c.Class("feature beyond the range")
		if status.Code(err) != codes.InvalidArgument {
			c.Failf("features %v: %v, want an invalid argument",
				p.Gen.Features, err)
		}
		if len(calls) > 0 {
			c.Failf("looked up %s for invalid features", calls[0].Op)
		}
		return
	}
	p.Gen.classify(c)
	peers, causes := p.Gen.best()
	if len(causes) > 0 {
		if status.Code(err) != codes.Internal {
			c.Failf("result %v, want an internal error because of %v",
				err, causes)
		}
		return
	}
	if err != nil {
		c.Failf("no route although peers %v are eligible: %v", peers, err)
	}
	if resp == nil || resp.Route == nil {
		c.Failf("no error and no route")
	}
	r := fromRPC(c, resp.Route)
	if bad := usable(r, peers, home.id, p.Finals); bad != "" {
		c.Failf("%s", bad)
	}

	// Copy it into a request of somebody else.
	intro := -1
	for _, q := range peers {
		if pubHex(r.FirstNodeID) == pubHex(nodeKey(q).PubKey()) {
			intro = q
		}
	}
	for len(net.nodes) <= len(p.Gen.Peers) {
		net.bare()
	}
	sender := net.runServer()
	sender.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(nodeKey(intro).PubKey()), nil
	}
	req := &offersrpc.SendOnionMessageRequest{
		BlindedDestination: resp.Route, DirectConnect: p.Direct,
		FinalPayloads: map[uint64][]byte{},
	}
	for _, f := range p.Finals {
		req.FinalPayloads[f.T] = f.V.Bytes()
	}
	c.mustEnd("SendOnionMessage", func() {
		_, err = sender.srv.SendOnionMessage(context.Background(), req)
	})
	if err != nil {
		c.Failf("sending to the returned route: %v", err)
	}
	wire := net.wireLog()
	if len(wire) != 1 || wire[0].To != vertex(nodeKey(intro).PubKey()) {
		c.Failf("%d messages on the wire", len(wire))
	}
	if bad := followWire(wire[0].Data, []int{intro, home.id}, nil,
		p.Finals); bad != "" {

		c.Failf("a message sent to the returned route: %s", bad)
	}
}

// fromRPC reads a blinded path the way a client would.
func fromRPC(c *C, b *offersrpc.BlindedPath) *lnwire.ReplyPath {
	if b == nil {
		return nil
	}
	key := func(what string, k []byte) *btcec.PublicKey {
		p, err := btcec.ParsePubKey(k)
		if err != nil || len(k) != 33 {
			c.Failf("the %s of a returned path is %x", what, k)
		}
		return p
	}
	r := &lnwire.ReplyPath{
		FirstNodeID:   key("introduction node", b.IntroductionNode),
		BlindingPoint: key("blinding point", b.BlindingPoint),
	}
	for _, h := range b.Hops {
		r.Hops = append(r.Hops, &lnwire.BlindedHop{
			BlindedNodeID: key("hop", h.BlindedNodeId),
			EncryptedData: h.EncryptedData,
		})
	}
	return r
}

// toRPC is the other direction.
func toRPC(r *lnwire.ReplyPath) *offersrpc.BlindedPath {
	if r == nil {
		return nil
	}
	b := &offersrpc.BlindedPath{
		IntroductionNode: r.FirstNodeID.SerializeCompressed(),
		BlindingPoint:    r.BlindingPoint.SerializeCompressed(),
	}
	for _, h := range r.Hops {
		b.Hops = append(b.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: h.BlindedNodeID.SerializeCompressed(),
			EncryptedData: h.EncryptedData,
		})
	}
	return b
}

// ---------------------------------------------------------------------------
// C20

type rpcSendPlan struct {
	// Dest: "clear", "blinded", "both", "none".
	Dest   string
	Lead   []int
	Target int
	Blind  []int
	// Bad is a flaw of the request: "", "pubkey", "intro", "blinding",
	// "hop", "no hops", "reply intro", "reply blinding", "reply hop",
	// "reply no hops", "type".
	Bad     string
	BadKey  HB
	BadType uint64
	Reply   *pathPlan
	Finals  []finalPlan
	Direct  bool
	// Fault: "", "no route", "query", "send", "peers", "no address",
	// "connect".
	Fault string
	Err   int
}

type planC20 struct {
	Sends []rpcSendPlan
}

// badKeys are byte strings that are no compressed public key.
func drawBadKey(t *rapid.T) HB {
	k := pub(rapid.IntRange(0, 20).Draw(t, "key")).SerializeCompressed()
	switch rapid.IntRange(0, 6).Draw(t, "bad-key") {
	case 0:
		return k[:32]
	case 1:
		return append(k, 0)
	case 2:
		k[0] = byte(rapid.SampledFrom([]int{0, 1, 4, 5, 6, 255}).
			Draw(t, "prefix"))
		return k
	case 3:
		return append([]byte{2}, bytes.Repeat([]byte{0xff}, 32)...)
	case 4:
		// x = 5 is on no point.
		return append([]byte{3}, append(make([]byte, 31), 5)...)
	case 5:
		return k[1:2]
	}
	return xonly(pub(1))
}

func drawRPCSend(t *rapid.T) rpcSendPlan {
	p := rpcSendPlan{
		Dest: rapid.SampledFrom([]string{"clear", "clear", "clear",
			"blinded", "blinded", "blinded", "both", "none"}).
			Draw(t, "dest"),
		Target: rapid.IntRange(1, 5).Draw(t, "target"),
		Direct: rapid.IntRange(0, 2).Draw(t, "direct") == 0,
		Err:    rapid.IntRange(0, len(lndErrs)-1).Draw(t, "err"),
		Lead: rapid.SliceOfN(rapid.IntRange(1, 8), 0, 3).
			Draw(t, "lead"),
		BadKey:  drawBadKey(t),
		BadType: rapid.Uint64Range(0, 63).Draw(t, "bad-type"),
	}
	p.Blind = []int{p.Target}
	for i := rapid.IntRange(0, 3).Draw(t, "blinded"); i > 0; i-- {
		p.Blind = append(p.Blind, 20+i)
	}
	if rapid.IntRange(0, 1).Draw(t, "reply?") == 0 {
		p.Reply = drawPath(t, false)
	}
	if rapid.IntRange(0, 2).Draw(t, "flawed") == 0 {
		p.Bad = rapid.SampledFrom([]string{"pubkey", "intro", "blinding",
			"hop", "no hops", "reply intro", "reply blinding",
			"reply hop", "reply no hops", "type", "type"}).
			Draw(t, "bad")
	}
	if rapid.IntRange(0, 2).Draw(t, "faulty") == 0 {
		p.Fault = rapid.SampledFrom([]string{"no route", "query", "send",
			"peers", "no address", "connect"}).Draw(t, "fault")
	}
	p.Finals = drawNetFinals(t, 1150-90*(len(p.Lead)+len(p.Blind)))
	if rapid.IntRange(0, 19).Draw(t, "large") == 0 && p.Fault == "" {
		// More than there is room for, or nearly.
		p.Finals = append(p.Finals, finalPlan{T: 7000 +
			rapid.Uint64Range(0, 9).Draw(t, "large-t"), V: Blob{
			N: rapid.SampledFrom([]int{600, 1000, 1200, 1240, 1280,
				1300, 1301, 1366, 1400, 2000, 65535, 65536,
				100000}).Draw(t, "large-n")}})
		p.Finals = distinctFinals(p.Finals)
	}
	return p
}

func init() {
	Add("C20", "sends", 10000, 80000,
		"1 to 3 requests in a row to a running server: clear and blinded "+
			"destinations, both or none, keys of the wrong length, "+
			"prefix or off the curve at every place where one is given, "+
			"missing hops, payload types in and out of the final range, "+
			"reply paths, and failures of each call to lnd. The message "+
			"on the wire is followed to its recipient by an independent "+
			"implementation. Non-trivial: the request is flawed, a call "+
			"fails, or it carries payloads or a reply path.",
		func(t *rapid.T) planC20 {
			return planC20{rapid.SliceOfN(rapid.Custom(drawRPCSend),
				1, 3).Draw(t, "sends")}
		},
		func(c *C, p planC20) {
			net := newNet(c)
			n := net.runServer()
			for i, s := range p.Sends {
				if bad := runRPCSend(c, net, n, s); bad != "" {
					c.Failf("request %d (%s): %s", i, mustJSON(s),
						bad)
				}
			}
		})
	Add("C21", "strings", 32000, 200000,
		"The offer strings of C06 (valid ones in any spelling, and corrupted "+
			"ones), read by an independent parser; every field of the "+
			"response is compared with the records on the wire, and a "+
			"second call must give the same answer. Non-trivial: the "+
			"string is a valid offer with an optional field, or is not "+
			"a valid offer.",
		func(t *rapid.T) planC06 {
			if rapid.IntRange(0, 60).Draw(t, "empty") == 0 {
				return planC06{HB{}, "empty"}
			}
			return drawC06(t)
		}, runC21)
}

func runRPCSend(c *C, net *simNet, n *simNode, p rpcSendPlan) string {
	var (
		target = nodeKey(p.Target).PubKey()
		reply  = p.Reply.build()
		req    = &offersrpc.SendOnionMessageRequest{
			DirectConnect: p.Direct,
			ReplyPath:     toRPC(reply),
		}
		blnd  *lnwire.ReplyPath
		path  = append(append([]int{}, p.Lead...), p.Target)
		lead  int
		flaw  bool
		unfit bool
	)
	if p.Direct {
		path = []int{p.Target}
	}
	lead = len(path)
	for _, f := range p.Finals {
		if req.FinalPayloads == nil {
			req.FinalPayloads = map[uint64][]byte{}
		}
		req.FinalPayloads[f.T] = f.V.Bytes()
	}
	if p.Dest == "clear" || p.Dest == "both" {
		req.Pubkey = target.SerializeCompressed()
	}
	if p.Dest == "blinded" || p.Dest == "both" {
		var keys []*btcec.PublicKey
		for _, id := range p.Blind {
			keys = append(keys, nodeKey(id).PubKey())
		}
		blnd = refRoute(priv(300_000), keys, nil)
		req.BlindedDestination = toRPC(blnd)
		path = append(path, p.Blind[1:]...)
	}
	flaw = p.Dest == "both" || p.Dest == "none"
	bd := req.BlindedDestination
	at := int(p.BadType)
	switch {
	case p.Bad == "pubkey" && len(req.Pubkey) > 0:
		req.Pubkey, flaw = p.BadKey, true
	case p.Bad == "intro" && bd != nil:
		bd.IntroductionNode, flaw = p.BadKey, true
	case p.Bad == "blinding" && bd != nil:
		bd.BlindingPoint, flaw = p.BadKey, true
	case p.Bad == "hop" && bd != nil:
		bd.Hops[at%len(bd.Hops)].BlindedNodeId, flaw = p.BadKey, true
	case p.Bad == "no hops" && bd != nil:
		bd.Hops, flaw = nil, true
	case p.Bad == "reply intro" && reply != nil:
		req.ReplyPath.IntroductionNode, flaw = p.BadKey, true
	case p.Bad == "reply blinding" && reply != nil:
		req.ReplyPath.BlindingPoint, flaw = p.BadKey, true
	case p.Bad == "reply hop" && reply != nil && len(reply.Hops) > 0:
		hs := req.ReplyPath.Hops
		hs[at%len(hs)].BlindedNodeId, flaw = p.BadKey, true
	case p.Bad == "reply no hops" && reply != nil:
		// Refused, but as what is not specified.
		req.ReplyPath.Hops, unfit = nil, true
	case p.Bad == "type":
		if req.FinalPayloads == nil {
			req.FinalPayloads = map[uint64][]byte{}
		}
		req.FinalPayloads[p.BadType], flaw = []byte{1}, true
	}

	// lnd below.
	ferr := lndErr(p.Err)
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		switch p.Fault {
		case "no route":
			return nil, lndNoRoute[p.Err%len(lndNoRoute)]
		case "query":
			return nil, ferr
		}
		var keys []*btcec.PublicKey
		for _, id := range path[:lead] {
			keys = append(keys, nodeKey(id).PubKey())
		}
		return hopsOf(keys...), nil
	}
	n.lnd.send = nil
	if p.Fault == "send" {
		n.lnd.send = func(context.Context, lndclient.CustomMessage) error {
			return ferr
		}
	}
	connected := p.Fault != "no address" && p.Fault != "connect"
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		if p.Fault == "peers" {
			return nil, ferr
		}
		if !connected {
			return nil, nil
		}
		return []lndclient.Peer{{Pubkey: vertex(target)}}, nil
	}
	n.lnd.nodeInfo = func(v route.Vertex, _ bool) (*lndclient.NodeInfo,
		error) {

		info := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: v}}
		if p.Fault != "no address" {
			info.Node.Addresses = []string{"host:1"}
		}
		return info, nil
	}
	n.lnd.connect = func(context.Context, route.Vertex, string) error {
		return ferr
	}

	before := proto.Clone(req)
	baseCalls, baseWire := len(n.lnd.lookups()), len(net.wireLog())
	var (
		resp *offersrpc.SendOnionMessageResponse
		err  error
	)
	c.mustEnd("SendOnionMessage", func() {
		resp, err = n.srv.SendOnionMessage(context.Background(), req)
	})
	calls, wire := n.lnd.lookups()[baseCalls:], net.wireLog()[baseWire:]
	code := status.Code(err)
	if !proto.Equal(before, req) {
		return "the request was changed"
	}
	if flaw || p.Fault != "" || len(p.Finals) > 0 || reply != nil {
		c.NonTrivial()
	}
	if flaw {
		c.Class("flawed: %s %s", p.Dest, p.Bad)
		if code != codes.InvalidArgument {
			return fmt.Sprintf("result %v, want an invalid argument", err)
		}
		if len(calls) > 0 || len(wire) > 0 {
			return fmt.Sprintf("an invalid request led to the call %s",
				calls[0].Op)
		}
		return ""
	}
	ops := map[string]int{}
	for _, g := range calls {
		ops[g.Op]++
	}
	if p.Direct && ops["queryroutes"] > 0 {
		return "a direct send asked for a route"
	}
	if !p.Direct && ops["peers"]+ops["connect"]+ops["nodeinfo"] > 0 {
		return "a routed send looked for a connection"
	}

	fails := codes.OK
	switch {
	case !p.Direct && p.Fault == "no route":
		fails = codes.NotFound
	case !p.Direct && p.Fault == "query":
		fails = codes.Internal
	case p.Direct && (p.Fault == "peers" || !connected):
		fails = codes.Internal
	case unfit:
		if err == nil {
			return "a reply path without hops was accepted"
		}
		fails = code
	case !fits(lead, blnd, reply, p.Finals):
		fails = codes.Internal
		c.Class("does not fit")
	case p.Fault == "send":
		fails = codes.Internal
	}
	if unfit && fails == codes.Internal || unfit && fails == codes.NotFound {
		// It may be refused before the fault happens.
		fails = code
		if err == nil {
			return "a reply path without hops was accepted"
		}
	}
	if fails != codes.OK {
		c.Class("fails: %v %s", fails, p.Fault)
		if code != fails {
			return fmt.Sprintf("result %v, want %v", err, fails)
		}
		if len(wire) > 0 {
			return "the request failed, but a message was sent"
		}
		return ""
	}
	c.Class("sent: %s", p.Dest)
	if err != nil || resp == nil {
		return fmt.Sprintf("result %v, %v", resp, err)
	}
	if len(wire) != 1 || wire[0].Type != onionType ||
		wire[0].To != vertex(nodeKey(path[0]).PubKey()) {

		return fmt.Sprintf("reported success with %d messages sent",
			len(wire))
	}
	return followWire(wire[0].Data, path, reply, p.Finals)
}

// ---------------------------------------------------------------------------
// C21

func runC21(c *C, p planC06) {
	net := newNet(c)
	n := net.runServer()
	s := string(p.Text)
	decode := func() (*offersrpc.Offer, error) {
		r, err := n.srv.DecodeOffer(context.Background(),
			&offersrpc.DecodeOfferRequest{Offer: s})
		if err != nil {
			return nil, err
		}
		if r == nil || r.Offer == nil {
			return nil, errors.New("no error and no offer")
		}
		return r.Offer, nil
	}
	o, err := decode()
	again, err2 := decode()
	if (err == nil) != (err2 == nil) || err == nil && !proto.Equal(o, again) {
		c.Failf("decoding %q twice: %v (%v) and %v (%v)", s, o, err, again,
			err2)
	}
	if got := n.lnd.lookups(); len(got) > 0 {
		c.Failf("decoding an offer made the call %s", got[0].Op)
	}
	if s == "" {
		c.Class("empty")
		c.NonTrivial()
		if status.Code(err) != codes.InvalidArgument {
			c.Failf("empty string: %v", err)
		}
		return
	}
	r := readString(s)
	if len(r.rs) > 2 || r.v == mustReject {
		c.NonTrivial()
	}
	switch r.v {
	case mustReject:
		c.Class("not an offer")
	case mustAccept:
		c.Class("offer")
		for _, f := range offerSchema.Fields {
			c.ClassIf(findRec(r.rs, f.T) != nil, "has "+f.Name)
		}
	default:
		c.Class("not judged")
	}
	if bad := r.judgeRPC(o, err); bad != "" {
		c.Failf("%s", bad)
	}
}

// judgeRPC compares what the RPC makes of the string with what it is.
func (r *reading) judgeRPC(o *offersrpc.Offer, err error) string {
	switch {
	case r.v == mustReject && err == nil:
		return fmt.Sprintf("%q is not a valid offer but decodes to %v",
			r.text, o)
	case r.v == mustAccept && err != nil:
		return fmt.Sprintf("%q spells the valid offer %x but decoding "+
			"fails: %v", r.text, r.b, err)
	case err != nil:
		return ""
	}
	val := func(n string) []byte {
		r := findRec(r.rs, offerSchema.byName(n).T)
		if r == nil {
			return nil
		}
		return r.V
	}
	num := func(n string) (x uint64) {
		for _, b := range val(n) {
			x = x<<8 | uint64(b)
		}
		return
	}
	var bad []string
	diff := func(what string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			bad = append(bad, fmt.Sprintf("%s is %v, want %v", what, got,
				want))
		}
	}
	diff("amount", o.MinAmountMsat, num("amount"))
	diff("description", []byte(o.Description), val("description"))
	diff("expiry", o.ExpiryUnixSeconds, num("expiry"))
	diff("issuer", []byte(o.Issuer), val("issuer"))
	diff("minimum quantity", o.MinQuantity, num("qmin"))
	diff("maximum quantity", o.MaxQuantity, num("qmax"))
	diff("node id", strings.ToLower(o.NodeId), hex.EncodeToString(val("node")))
	diff("signature", strings.ToLower(o.Signature),
		hex.EncodeToString(val("sig")))
	// The bit vector, with or without its length in front.
	feat := val("features")
	if !bytes.Equal(o.Features, feat) && !bytes.Equal(
		o.Features, append(u16(len(feat)), feat...)) {

		bad = append(bad, fmt.Sprintf("features are %x, want %x",
			o.Features, feat))
	}
	if len(bad) > 0 {
		return fmt.Sprintf("%q: %s", r.text, strings.Join(bad, "; "))
	}
	return ""
}
