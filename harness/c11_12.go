package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/tlv"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C11

type destPlan struct {
	Path    []int
	Pads    []int
	Session int
	// Bare leaves the last hop without encrypted data.
	Bare bool `json:",omitempty"`
}

type planC11 struct {
	Hops   []int
	Dest   *destPlan
	Reply  *pathPlan
	Finals []finalPlan
	// Break makes the request one that must be refused.
	Break string
	At    int
}

var breaksC11 = []string{
	"no session key", "no blinding key", "missing hop key", "no hops",
	"low final type", "repeated final type",
}

var breaksC11Reply = []string{
	"no reply first node", "no reply blinding point", "missing reply hop",
	"missing reply hop key",
}

var breaksC11Dest = []string{
	"wrong introduction node", "no introduction node", "no blinding point",
	"missing blinded hop", "missing blinded key", "no blinded hops",
}

func drawC11(t *rapid.T) planC11 {
	var p planC11
	count := rapid.OneOf(
		rapid.IntRange(1, 4), rapid.IntRange(1, 4), rapid.IntRange(2, 6),
		rapid.IntRange(1, 4), rapid.IntRange(2, 6), rapid.IntRange(1, 16),
		rapid.SampledFrom([]int{12, 13, 14, 15, 16, 17, 25, 26, 27, 28, 29,
			40}),
	)
	key := rapid.IntRange(0, 30)
	n := count.Draw(t, "hops")
	p.Hops = rapid.SliceOfN(key, n, n).Draw(t, "hop-keys")
	for i := 1; i < n; i++ {
		if p.Hops[i] == p.Hops[i-1] {
			p.Hops[i] = p.Hops[i-1] + 1
		}
	}
	if rapid.Bool().Draw(t, "blinded") {
		if rapid.IntRange(0, 2).Draw(t, "straight") == 0 {
			n, p.Hops = 1, p.Hops[:1]
		}
		d := &destPlan{Session: rapid.IntRange(0, 1000).Draw(t, "ses")}
		m := count.Draw(t, "blinded-hops")
		d.Path = rapid.SliceOfN(key, m, m).Draw(t, "blinded-keys")
		d.Path[0] = p.Hops[n-1]
		if rapid.Bool().Draw(t, "padded") {
			for range d.Path {
				d.Pads = append(d.Pads, rapid.SampledFrom([]int{0, 0,
					0, 0, 2, 3, 10, 50, 200, 1200}).Draw(t, "pad"))
			}
		}
		d.Bare = rapid.IntRange(0, 5).Draw(t, "bare") == 0
		p.Dest = d
	}
	if rapid.IntRange(0, 2).Draw(t, "reply?") == 0 {
		p.Reply = drawPath(t, rapid.IntRange(0, 3).Draw(t, "wild") == 0)
	}
	max := rapid.SampledFrom([]int{20, 20, 100, 100, 400, 1260, 1400}).
		Draw(t, "max")
	p.Finals = distinctFinals(drawFinals(t, 4, max))
	if rapid.IntRange(0, 4).Draw(t, "exact") == 0 && len(p.Finals) > 0 {
		// Sit at the edge of what fits.
		size, _ := p.size()
		f := &p.Finals[len(p.Finals)-1]
		room := routingMax - size + len(f.V.Bytes()) +
			rapid.IntRange(-4, 4).Draw(t, "edge")
		if room >= 0 {
			f.V = Blob{N: room, Seed: 3}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "break?") == 0 {
		bs := breaksC11
		if p.Dest != nil {
			bs = append(append([]string{}, bs...), breaksC11Dest...)
		}
		if p.Reply != nil && len(p.Reply.build().Hops) > 0 {
			bs = append(append([]string{}, bs...), breaksC11Reply...)
		}
		p.Break = rapid.SampledFrom(bs).Draw(t, "break")
		p.At = rapid.IntRange(0, 40).Draw(t, "at")
	}
	return p
}

// bare takes the encrypted data of the last hop away, if that is planned. A
// hop that gets nothing at all cannot be told from one with a payload of the
// format that came before TLV, so there must be something else for it.
func (p planC11) bare(r *lnwire.ReplyPath) {
	if p.Dest.Bare && (len(p.Finals) > 0 || p.Reply != nil) {
		r.Hops[len(r.Hops)-1].EncryptedData = nil
	}
}

func (p planC11) size() (int, int) {
	var dest *lnwire.ReplyPath
	if p.Dest != nil {
		dest = &lnwire.ReplyPath{}
		for i := range p.Dest.Path {
			pad := 0
			if i < len(p.Dest.Pads) {
				pad = p.Dest.Pads[i]
			}
			k := pub(0)
			if i == len(p.Dest.Path)-1 {
				k = nil
			}
			dest.Hops = append(dest.Hops, &lnwire.BlindedHop{
				EncryptedData: make([]byte,
					16+len(refRouteData(pad, k, nil))),
			})
		}
		p.bare(dest)
	}
	return refSize(len(p.Hops), dest, p.Reply.build(), p.Finals)
}

func init() {
	Add("C11", "requests", 7000, 80000,
		"1 to 40 clear hops (a node may come up more than once), with or "+
			"without a blinded destination of 1 to 40 hops with padded "+
			"data (sometimes none for the last hop), reply paths up to and beyond what can be encoded, "+
			"payloads up to and around the exact room left; a quarter "+
			"with a missing key, missing hops, a wrong introduction node "+
			"or payload types that cannot be sent; every packet is built "+
			"twice and peeled hop by hop by independent routers; "+
			"non-trivial: a packet for two or more hops with payloads or "+
			"reply path, or a refusal",
		drawC11, runC11)
}

func runC11(c *C, p planC11) {
	var (
		session  = priv(300_001)
		blinding = priv(300_002)
		hops     []*btcec.PublicKey
		dest     *lnwire.ReplyPath
		reply    = p.Reply.build()
		finals   = buildFinals(p.Finals)
		refuse   string
	)
	for _, h := range p.Hops {
		hops = append(hops, nodeKey(h).PubKey())
	}
	size, count := p.size()
	switch {
	case count > maxHops:
		refuse = fmt.Sprintf("%d hops", count)
	case size > routingMax:
		refuse = fmt.Sprintf("%d bytes of hop payloads", size)
	}
	if reply != nil && (len(reply.Hops) == 0 || len(reply.Hops) > 255) {
		refuse = fmt.Sprintf("a reply path of %d hops", len(reply.Hops))
	}
	path := append([]int{}, p.Hops...)
	if p.Dest != nil {
		var keys []*btcec.PublicKey
		for _, k := range p.Dest.Path {
			keys = append(keys, nodeKey(k).PubKey())
		}
		dest = refRoute(priv(310_000+p.Dest.Session), keys, p.Dest.Pads)
		p.bare(dest)
		path = append(path, p.Dest.Path[1:]...)
	}
	if p.Break != "" {
		refuse = p.Break
	}
	switch p.Break {
	case "no session key":
		session = nil
	case "no blinding key":
		blinding = nil
	case "missing hop key":
		hops[p.At%len(hops)] = nil
	case "no hops":
		hops = nil
	case "low final type":
		finals = append(finals, &lnwire.FinalHopPayload{
			TLVType: tlv.Type(63 - (p.At*p.At)%64), Value: []byte{1},
		})
	case "repeated final type":
		finals = append(finals,
			&lnwire.FinalHopPayload{TLVType: 99, Value: []byte{1}},
			&lnwire.FinalHopPayload{TLVType: 99, Value: []byte{2}},
		)
	case "wrong introduction node":
		intro := dest.FirstNodeID
		switch p.At % 4 {
		case 0:
			dest.FirstNodeID = nodeKey(77).PubKey()
		case 1:
			// The other point with this X coordinate.
			b := intro.SerializeCompressed()
			b[0] ^= 1
			dest.FirstNodeID, _ = btcec.ParsePubKey(b)
		case 2:
			// Another node on the path.
			for _, k := range path {
				o := nodeKey(k).PubKey()
				if !o.IsEqual(intro) {
					dest.FirstNodeID = o
				}
			}
			if dest.FirstNodeID.IsEqual(intro) {
				dest.FirstNodeID = dest.BlindingPoint
			}
		case 3:
			dest.FirstNodeID = dest.Hops[0].BlindedNodeID
		}
	case "no introduction node":
		dest.FirstNodeID = nil
	case "no blinding point":
		dest.BlindingPoint = nil
	case "missing blinded hop":
		dest.Hops[p.At%len(dest.Hops)] = nil
	case "missing blinded key":
		dest.Hops[p.At%len(dest.Hops)].BlindedNodeID = nil
	case "no blinded hops":
		dest.Hops = nil
	case "no reply first node":
		reply.FirstNodeID = nil
	case "no reply blinding point":
		reply.BlindingPoint = nil
	case "missing reply hop":
		reply.Hops[p.At%len(reply.Hops)] = nil
	case "missing reply hop key":
		reply.Hops[p.At%len(reply.Hops)].BlindedNodeID = nil
	}

	request := func() *routes.BlindedRouteRequest {
		return routes.NewBlindedRouteRequest(
			session, blinding, hops, reply, dest, finals,
		)
	}
	req := request()
	for build := 0; build < 3; build++ {
		if build == 2 {
			// What the caller passed in still describes the message.
			req = request()
		}
		resp, err := routes.CreateBlindedRoute(req)
		if refuse != "" {
			if err == nil {
				c.Failf("a request with %s was not refused", refuse)
			}
			c.NonTrivial()
			if p.Break != "" {
				c.Class("%s", p.Break)
			} else {
				c.Class("too large")
			}
			return
		}
		if err != nil {
			c.Failf("build %d: a message of %d bytes over %d hops was "+
				"refused: %v", build+1, size, count, err)
		}
		if count > 1 && (len(finals) > 0 || reply != nil) {
			c.NonTrivial()
		}
		c.ClassIf(size > routingMax-5, "within 4 bytes of the limit")
		c.ClassIf(dest != nil && len(hops) == 1, "straight to blinded")
		c.ClassIf(dest != nil && len(hops) > 1, "joined to blinded")
		c.ClassIf(dest != nil && p.Dest.Bare &&
			len(finals) > 0, "last hop without data")
		c.ClassIf(count > 10, "more than 10 hops")
		if bad := follow(resp, path, reply, p.Finals); bad != "" {
			c.Failf("build %d over %d hops: %s", build+1, count, bad)
		}
	}
}

// follow peels a message along a path of nodes.
func follow(resp *routes.BlindedRouteResponse, path []int,
	reply *lnwire.ReplyPath, finals []finalPlan) string {

	first := nodeKey(path[0]).PubKey()
	if resp == nil || resp.OnionMessage == nil {
		return "no error and no message"
	}
	if pubHex(resp.FirstNode) != pubHex(first) {
		return fmt.Sprintf("the first node is %s, want %s",
			pubHex(resp.FirstNode), pubHex(first))
	}
	if len(resp.OnionMessage.OnionBlob) != onionSize {
		return fmt.Sprintf("the packet has %d bytes",
			len(resp.OnionMessage.OnionBlob))
	}
	wire := joinWire(
		resp.OnionMessage.BlindingPoint, resp.OnionMessage.OnionBlob,
	)
	return followWire(wire, path, reply, finals)
}

func followWire(wire []byte, path []int, reply *lnwire.ReplyPath,
	finals []finalPlan) string {

	for i, n := range path {
		pl, err := newRefRouter(nodeKey(n)).peel(wire)
		if err != nil {
			return fmt.Sprintf("hop %d cannot process the packet: %v",
				i, err)
		}
		if i < len(path)-1 {
			want := nodeKey(path[i+1]).PubKey()
			switch {
			case pl.Final:
				return fmt.Sprintf("hop %d of %d is told it is the "+
					"last", i, len(path))
			case pl.DataErr != nil:
				return fmt.Sprintf("hop %d: %v", i, pl.DataErr)
			case pubHex(pl.Next) != pubHex(want):
				return fmt.Sprintf("hop %d is told to forward to "+
					"%s, want %s", i, pubHex(pl.Next),
					pubHex(want))
			}
			f, r, _ := finalsOf(pl.Recs)
			if len(f) > 0 || r != nil {
				return fmt.Sprintf("relay %d gets %d final records, "+
					"reply path %s", i, len(f), pathString(r))
			}
			wire = pl.NextWire
			continue
		}
		if !pl.Final {
			return "the last hop is told to forward"
		}
		got, r, bad := finalsOf(pl.Recs)
		if bad || !samePath(r, reply) {
			return fmt.Sprintf("the last hop gets reply path %s, want "+
				"%s", pathString(r), pathString(reply))
		}
		var want []Rec
		for _, f := range finals {
			want = append(want, Rec{f.T, f.V.Bytes()})
		}
		sortRecs(want)
		if !bytes.Equal(encodeRecs(got), encodeRecs(want)) {
			return fmt.Sprintf("the last hop gets final records "+
				"%.200x, want %.200x", encodeRecs(got),
				encodeRecs(want))
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// C12

type secretSend struct {
	From int
	Lead []int
	// Dest is an index into the routes, or -1.
	Dest   int
	Finals []finalPlan
	Reply  *blindPlan
	Times  int
}

type planC12 struct {
	Nodes  int
	Routes []blindPlan
	Sends  []secretSend
}

func drawC12(t *rapid.T) planC12 {
	p := planC12{Nodes: rapid.IntRange(2, 7).Draw(t, "nodes")}
	node := rapid.IntRange(0, p.Nodes-1)
	for i := rapid.IntRange(0, 2).Draw(t, "routes"); i > 0; i-- {
		r := drawBlindPlan(t, p.Nodes, node.Draw(t, "creator"))
		p.Routes = append(p.Routes, r)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "sends"); i > 0; i-- {
		s := secretSend{From: node.Draw(t, "from"), Dest: -1}
		s.Times = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "times")
		s.Lead = drawSimplePath(t, p.Nodes, s.From, 6)
		if len(p.Routes) > 0 && rapid.Bool().Draw(t, "blinded") {
			s.Dest = rapid.IntRange(0, len(p.Routes)-1).Draw(t, "dest")
			intro := p.Routes[s.Dest].Path[0]
			if intro == s.From {
				continue
			}
			var lead []int
			for _, x := range s.Lead {
				if x == intro {
					break
				}
				lead = append(lead, x)
			}
			s.Lead = append(lead, intro)
		}
		n := rapid.IntRange(0, 3).Draw(t, "finals")
		for j := 0; j < n; j++ {
			s.Finals = append(s.Finals, finalPlan{
				T: drawSmallType(t, "type"),
				V: Blob{
					N: rapid.SampledFrom([]int{0, 16, 40, 200}).
						Draw(t, "len"),
					Seed: rapid.IntRange(0, 1<<30).Draw(t, "v"),
				},
			})
		}
		s.Finals = distinctFinals(s.Finals)
		if rapid.IntRange(0, 2).Draw(t, "reply?") == 0 {
			r := drawBlindPlan(t, p.Nodes, s.From)
			s.Reply = &r
		}
		p.Sends = append(p.Sends, s)
	}
	return p
}

func init() {
	Add("C12", "wire", 4000, 25000,
		"networks of 2 to 7 real messengers; 1 to 3 requests over clear "+
			"paths and to blinded routes, each sent up to three times, "+
			"relayed to the end; every byte string handed to any lnd is "+
			"inspected; non-trivial: at least three messages on the wire "+
			"that carry payloads or a reply path",
		drawC12, runC12)
}

func runC12(c *C, p planC12) {
	n := newNet(c)
	for i := 0; i < p.Nodes; i++ {
		n.run()
	}
	dests := make([]*lnwire.ReplyPath, len(p.Routes))
	for i, r := range p.Routes {
		// No two routes share a key.
		r.Session = i
		dests[i] = n.blinded(r)
	}
	type secret struct {
		what string
		b    []byte
	}
	var secrets []secret
	for _, s := range n.nodes {
		secrets = append(secrets, secret{
			fmt.Sprintf("the identity of node %d", s.id), xonly(s.pub),
		})
	}
	hide := func(r *lnwire.ReplyPath) {
		secrets = append(secrets, secret{
			"the reply path's blinding point", xonly(r.BlindingPoint),
		})
		for _, h := range r.Hops {
			secrets = append(secrets, secret{
				"a reply path hop", xonly(h.BlindedNodeID),
			})
			if len(h.EncryptedData) >= 16 {
				secrets = append(secrets, secret{
					"reply path data", h.EncryptedData,
				})
			}
		}
	}
	var (
		ephemerals = map[string]string{}
		blindings  = map[string]string{}
		// prescribed are blinding points that blinded routes dictate.
		prescribed = map[string]string{}
		loaded     int
	)
	for i, s := range p.Sends {
		seq := append([]int{}, s.Lead...)
		var dest *lnwire.ReplyPath
		target := n.nodes[s.Lead[len(s.Lead)-1]].pub
		if s.Dest >= 0 {
			dest = dests[s.Dest]
			seq = append(seq, p.Routes[s.Dest].Path[1:]...)
			target = nil
		}
		var reply *lnwire.ReplyPath
		if s.Reply != nil {
			s.Reply.Session = 100 + i
			reply = n.blinded(*s.Reply)
			hide(reply)
		}
		for _, f := range s.Finals {
			if f.V.N >= 16 {
				secrets = append(secrets, secret{
					"a payload", f.V.Bytes(),
				})
			}
		}
		if !fits(len(s.Lead), dest, reply, s.Finals) {
			c.Class("does not fit")
			continue
		}
		n.nodes[s.From].lnd.routes = func(lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			return hopsOf(n.keys(s.Lead)...), nil
		}
		req := onionmsg.NewSendMessageRequest(
			target, dest, reply, buildFinals(s.Finals), false,
		)
		for k := 0; k < s.Times; k++ {
			before := len(n.wireLog())
			err := n.nodes[s.From].m.SendMessage(
				context.Background(), req,
			)
			if err != nil {
				c.Failf("send %d over %d hops: %v", i, len(seq), err)
			}
			n.settle(func() bool {
				return len(n.wireLog())-before >= len(seq)
			})
			log := n.wireLog()[before:]
			if len(log) != len(seq) {
				c.Failf("a message over %d hops was put on the wire "+
					"%d times", len(seq), len(log))
			}
			from := s.From
			points := map[string]bool{}
			for h, w := range log {
				where := fmt.Sprintf("send %d.%d hop %d", i, k, h)
				if w.From != from ||
					w.To != vertex(n.nodes[seq[h]].pub) {

					c.Failf("%s: from node %d to %v, want from "+
						"%d to %d", where, w.From, w.To,
						from, seq[h])
				}
				from = seq[h]
				if len(w.Data) != wireSize {
					c.Failf("%s: message of %d bytes, others "+
						"have %d", where, len(w.Data),
						wireSize)
				}
				if w.Type != onionType {
					c.Failf("%s: message type %d", where, w.Type)
				}
				for _, sec := range secrets {
					if bytes.Contains(w.Data, sec.b) {
						c.Failf("%s: %s is on the wire in "+
							"the clear", where, sec.what)
					}
				}
				blind := string(w.Data[:33])
				eph := string(w.Data[36:69])
				if blind == eph {
					c.Failf("%s: the blinding point is the "+
						"packet's ephemeral key", where)
				}
				if points[blind] {
					c.Failf("%s: the blinding point of an "+
						"earlier hop is used again", where)
				}
				points[blind] = true
				if o, ok := ephemerals[eph]; ok {
					c.Failf("%s: the ephemeral key of %s is "+
						"used again", where, o)
				}
				ephemerals[eph] = where
				if o, ok := blindings[blind]; ok {
					c.Failf("%s: the blinding point of %s is "+
						"used again", where, o)
				}
				given := s.Dest >= 0 && h >= len(s.Lead)-1
				if given {
					prescribed[blind] = where
				} else {
					blindings[blind] = where
					if o, ok := prescribed[blind]; ok {
						c.Failf("%s: the blinding point of "+
							"%s is used again", where, o)
					}
				}
				if o, ok := ephemerals[blind]; ok {
					c.Failf("%s: the ephemeral key of %s is the "+
						"blinding point", where, o)
				}
				if len(s.Finals) > 0 || reply != nil {
					loaded++
				}
				pl, err := newRefRouter(n.nodes[seq[h]].priv).
					peel(w.Data)
				if err != nil || pl.Rest == nil {
					c.Failf("%s: node %d cannot read its "+
						"message: %v", where, seq[h], err)
				}
				if at, l := constantRun(pl.Rest); l >= 12 {
					c.Failf("%s: beyond its own part, node %d "+
						"of %d finds %d times the byte %d "+
						"at %d, which tells how long the "+
						"path is", where, h+1, len(seq), l,
						pl.Rest[at], at)
				}
			}
			c.ClassIf(k > 0, "request repeated")
			c.ClassIf(s.Dest >= 0, "blinded")
			c.ClassIf(s.Dest < 0, "clear")
		}
	}
	if loaded >= 3 {
		c.NonTrivial()
	}
}

// constantRun finds the longest run of one byte. In 1300 random bytes one of
// 12 comes up once in 2^77 packets.
func constantRun(b []byte) (at, n int) {
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		if j-i > n {
			at, n = i, j-i
		}
		i = j
	}
	return at, n
}
