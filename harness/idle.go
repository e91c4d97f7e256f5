package main

import (
	"context"
	"fmt"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"
)

// The checks in this file leave a server alone for seconds to minutes. It must
// work afterwards as it did before.

type idleLife struct {
	// Idle are the times, in ms, between which the server is used.
	Idle []int
	// Uses are what comes up after each of them.
	Uses []string
}

type planIdle struct {
	Lives []idleLife
}

var idleUses = []string{"payload", "forward", "direct", "routed", "route",
	"decode", "subscribe", "key"}

func init() {
	const rule = "24 servers at a time that are used, left alone for 1 to 22 s " +
		"(up to 100 s in the thorough check) and used again, up to three " +
		"times: a payload arrives for a subscription from before, a " +
		"message is to be forwarded, calls of each method are made, a " +
		"shared secret is computed. Everything must work as at first and " +
		"the server must not ask for shutdown. Non-trivial: always."
	for _, p := range []string{"C14", "C22", "C24", "C26"} {
		Add(p, "idle", 8, 32, rule, func(t *rapid.T) planIdle {
			left := 22000
			if *fTier == "thorough" {
				left = 100_000
			}
			left = rapid.SampledFrom([]int{left / 2, left}).
				Draw(t, "time")
			one := rapid.Custom(func(t *rapid.T) idleLife {
				var (
					l idleLife
					n = left
				)
				for len(l.Idle) < 3 && n > 1000 {
					d := rapid.SampledFrom([]int{1200, 5500,
						10500, 15800, n, n, n}).Draw(t, "idle")
					if d > n {
						d = n
					}
					l.Idle = append(l.Idle, d)
					n -= d
				}
				l.Uses = rapid.Permutation(idleUses).Draw(t, "uses")
				return l
			})
			return planIdle{rapid.SliceOfN(one, 24, 24).Draw(t, "lives")}
		}, func(c *C, p planIdle) {
			parallel(c, p.Lives, func(l idleLife) interface{} {
				return planIdle{[]idleLife{l}}
			}, runIdle)
			c.cleanAtOnce()
		})
	}
}

func runIdle(c *C, l idleLife) {
	c.NonTrivial()
	var (
		w      = newSubWorld(c)
		n      = w.n
		peer   = nodeKey(40).PubKey()
		hop    = nodeKey(41).PubKey()
		gen    = routeGenPlan{Chans: []chanPlan{{Peer: 1, Active: true}}}
		serial = 0
	)
	gen.Peers = []peerPlan{{Graph: "known", Channels: 2}}
	gen.install(n)
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(peer)}}, nil
	}
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(hop, peer), nil
	}
	w.patience = time.Second
	ecdh, err := newECDH(n)
	if err != nil {
		c.Failf("creating the node's key operations: %v", err)
	}
	w.open(64, 0)
	types := []uint64{64}

	// sent awaits one message to a peer.
	sent := func(what string, to route.Vertex, path []int,
		finals []finalPlan) {

		for k := 0; k < 60 && len(n.net.wireLog()) <= serial; k++ {
			n.pause(k)
		}
		log := n.net.wireLog()
		if len(log) != serial+1 || log[serial].To != to {
			c.Failf("%s: %d messages were sent, expected one to %x",
				what, len(log)-serial, to[:])
		}
		serial++
		if path == nil {
			return
		}
		if bad := followWire(log[serial-1].Data, path, nil,
			finals); bad != "" {

			c.Failf("%s: %s", what, bad)
		}
	}
	// arrived awaits what was sent to the subscribers.
	arrived := func(what string) {
		w.flush(what)
		for _, s := range w.active {
			for k := 0; !w.verify(s); k++ {
				w.mustBeOpen(s)
				if k == 60 {
					c.Failf("%s: a payload of type %d does not "+
						"arrive", what, s.typ)
				}
				n.pause(k)
			}
		}
	}
	use := func(i int, kind, when string) {
		what := fmt.Sprintf("%s %s", kind, when)
		finals := []finalPlan{{T: 64, V: lit([]byte(what))}}
		switch kind {
		case "payload":
			w.send(nil, 0, types...)
			arrived(what)

		case "forward":
			n.push(vertex(peer), onionType, clearMessage(
				priv(2*i+5_000_000), priv(2*i+5_000_001),
				[]*btcec.PublicKey{n.pub, hop}, nil, finals))
			n.barrier()
			sent(what, vertex(hop), nil, nil)

		case "direct", "routed":
			req := &offersrpc.SendOnionMessageRequest{
				Pubkey:        peer.SerializeCompressed(),
				DirectConnect: kind == "direct",
				FinalPayloads: map[uint64][]byte{
					64: []byte(what),
				},
			}
			var err error
			c.mustEnd(what, func() {
				_, err = n.srv.SendOnionMessage(
					context.Background(), req)
			})
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			if kind == "direct" {
				sent(what, vertex(peer), []int{40}, finals)
			} else {
				sent(what, vertex(hop), []int{41, 40}, finals)
			}

		case "route":
			var (
				resp *offersrpc.GenerateBlindedRouteResponse
				err  error
			)
			c.mustEnd(what, func() {
				resp, err = n.srv.GenerateBlindedRoute(
					context.Background(),
					&offersrpc.GenerateBlindedRouteRequest{})
			})
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			if bad := usable(fromRPC(c, resp.Route), []int{1}, n.id,
				nil); bad != "" {

				c.Failf("%s: %s", what, bad)
			}

		case "decode":
			var (
				resp *offersrpc.DecodeOfferResponse
				err  error
			)
			c.mustEnd(what, func() {
				resp, err = n.srv.DecodeOffer(
					context.Background(),
					&offersrpc.DecodeOfferRequest{
						Offer: plainOffer(),
					})
			})
			if err != nil || resp.Offer.Description != c24Offer {
				c.Failf("%s: %v", what, err)
			}

		case "subscribe":
			t := uint64(100 + i)
			w.open(t, 0)
			types = append(types, t)
			w.send(nil, 0, t)
			arrived(what)

		case "key":
			p := priv(77 + i).PubKey()
			got, err := ecdh.ECDH(p)
			if err != nil || got != refECDH(n.priv, p) {
				c.Failf("%s: %x, %v", what, got, err)
			}
			if !ecdh.PubKey().IsEqual(n.pub) {
				c.Failf("%s: the key is %x", what,
					ecdh.PubKey().SerializeCompressed())
			}
		}
		for _, s := range w.active {
			w.mustBeOpen(s)
		}
		if e := n.shutdownErrs(); len(e) > 0 {
			c.Failf("%s: shutdown was asked for: %v", what, e)
		}
	}
	i := 0
	for _, u := range l.Uses {
		use(i, u, "at first")
		i++
	}
	for _, d := range l.Idle {
		time.Sleep(time.Duration(d) * time.Millisecond)
		n.lnd.mu.Lock()
		ctx := n.lnd.subCtx
		n.lnd.mu.Unlock()
		if ctx.Err() != nil {
			c.Failf("after %d ms the message stream was given up: %v", d,
				ctx.Err())
		}
		for _, u := range l.Uses {
			use(i, u, fmt.Sprintf("after %d ms of nothing", d))
			i++
		}
		c.Class("%d s", d/1000)
	}
	for _, s := range w.active {
		s.leave()
	}
	c.mustEnd("stopping the server", func() { err = n.srv.Stop() })
	if err != nil {
		c.Failf("stop: %v", err)
	}
	for _, s := range w.active {
		w.end(s, "server shutdown", isCode(codes.Aborted))
	}
}
