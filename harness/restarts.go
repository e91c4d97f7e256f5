package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/lightninglabs/lndclient"
	"pgregory.net/rapid"
)

// A life is one run of a node. Its key is the same in all of them, and so are
// the requests.
type lifePlan struct {
	// RPC says the requests are made of the server.
	RPC bool
	// Ops are "direct", "path", "blinded" and "route".
	Ops []string
}

type planRestarts struct {
	Plan lifePlan
	// Rounds are how many lives of this process run at the same time, one
	// round after the other.
	Rounds []int
	// Others are how many other processes run one life each, together.
	Others int
	// Twice says that the other processes are run again.
	Twice bool
}

// lifeOut is what a life made that may never come up again.
type lifeOut struct {
	Where string
	// Keys by what they are.
	Keys map[string]string
}

// live runs a life and says what it made.
func live(c *C, p lifePlan, name string) []lifeOut {
	var (
		net  = newNet(c)
		n    *simNode
		dest = nodeKey(1000).PubKey()
		out  []lifeOut
		ctx  = context.Background()
	)
	if p.RPC {
		n = net.runServer()
	} else {
		n = net.run()
	}
	n.lnd.peers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{{Pubkey: vertex(dest)}}, nil
	}
	n.lnd.routes = func(lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		return hopsOf(nodeKey(1001).PubKey(), dest), nil
	}
	w := routeGenPlan{
		Chans: []chanPlan{{1, true, false}, {2, true, false}},
		Peers: []peerPlan{
			{Graph: "known", Channels: 1},
			{Graph: "known", Channels: 3},
		},
	}
	w.install(n)
	for i, op := range p.Ops {
		where := fmt.Sprintf("%s, %s %d", name, op, i)
		if op == "route" {
			r := lifeRoute(c, n, p.RPC, where)
			keys := map[string]string{
				"blinding point": pubHex(r.BlindingPoint),
			}
			for j, h := range r.Hops {
				keys[fmt.Sprintf("id of hop %d", j)] =
					pubHex(h.BlindedNodeID)
				if len(h.EncryptedData) > 0 {
					keys[fmt.Sprintf("data of hop %d", j)] =
						hex.EncodeToString(
							h.EncryptedData)
				}
			}
			out = append(out, lifeOut{where, keys})
			continue
		}
		to, blind := dest, (*lnwire.ReplyPath)(nil)
		if op == "blinded" {
			to, blind = nil, refRoute(priv(700_000),
				[]*btcec.PublicKey{dest, nodeKey(1002).PubKey()},
				nil)
		}
		before := len(net.wireLog())
		err := lifeSend(ctx, n, p.RPC, to, blind, op == "direct")
		if err != nil {
			c.Failf("%s: %v", where, err)
		}
		log := net.wireLog()[before:]
		if len(log) != 1 || len(log[0].Data) != wireSize {
			c.Failf("%s put %d messages on the wire", where, len(log))
		}
		d := log[0].Data
		keys := map[string]string{
			"ephemeral key":             hex.EncodeToString(d[36:69]),
			"start of the routing data": hex.EncodeToString(d[69:101]),
			"end of the routing data": hex.EncodeToString(
				d[1337:1369]),
			"integrity tag": hex.EncodeToString(d[1369:1401]),
		}
		if op != "blinded" {
			keys["blinding point"] = hex.EncodeToString(d[:33])
		}
		out = append(out, lifeOut{where, keys})
	}
	c.mustEnd("stopping", func() {
		if p.RPC {
			_ = n.srv.Stop()
		} else {
			_ = n.m.Stop()
		}
	})
	return out
}

// lifeSend sends a message.
func lifeSend(ctx context.Context, n *simNode, rpc bool, to *btcec.PublicKey,
	blind *lnwire.ReplyPath, direct bool) error {

	if !rpc {
		return n.m.SendMessage(ctx, onionmsg.NewSendMessageRequest(to,
			blind, nil, buildFinals([]finalPlan{{T: 64,
				V: lit([]byte("hello"))}}), direct))
	}
	req := &offersrpc.SendOnionMessageRequest{
		DirectConnect:      direct,
		BlindedDestination: toRPC(blind),
		FinalPayloads:      map[uint64][]byte{64: []byte("hello")},
	}
	if to != nil {
		req.Pubkey = to.SerializeCompressed()
	}
	_, err := n.srv.SendOnionMessage(ctx, req)
	return err
}

// lifeRoute generates a route.
func lifeRoute(c *C, n *simNode, rpc bool, where string) *lnwire.ReplyPath {
	if rpc {
		r, err := n.srv.GenerateBlindedRoute(context.Background(),
			&offersrpc.GenerateBlindedRouteRequest{})
		if err != nil {
			c.Failf("%s: %v", where, err)
		}
		return fromRPC(c, r.GetRoute())
	}
	r, err := routes.NewBlindedRouteGenerator(n.lnd, n.pub).
		ReplyPath(context.Background(), nil)
	if err != nil {
		c.Failf("%s: %v", where, err)
	}
	return fromSphinx(r)
}

const lifeMark = "LIFE "

// lifeMain is a life in a process of its own.
func lifeMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	s := &Sub{Prop: "life", Name: "life"}
	s.run = func(c *C, _ interface{}) {
		var p lifePlan
		if err := json.Unmarshal(b, &p); err != nil {
			panic(harnessError{err.Error()})
		}
		fmt.Printf("%s%s\n", lifeMark, mustJSON(live(c, p, "")))
	}
	if _, msg := s.execute(nil); msg != "" {
		fmt.Println("FAIL", msg)
		return 1
	}
	return 0
}

// liveElsewhere runs a life in a process of its own.
func liveElsewhere(p lifePlan, name string) ([]lifeOut, interface{}) {
	dir, err := os.MkdirTemp("", "life")
	if err != nil {
		return nil, harnessError{err.Error()}
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "plan.json")
	if err := os.WriteFile(f, mustJSON(p), 0644); err != nil {
		return nil, harnessError{err.Error()}
	}
	var out, errb bytes.Buffer
	cmd := exec.Command(os.Args[0], "-life", f)
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
		switch {
		case bytes.HasPrefix(l, []byte(lifeMark)):
			var got []lifeOut
			if err := json.Unmarshal(l[len(lifeMark):], &got); err != nil {
				return nil, harnessError{err.Error()}
			}
			for i := range got {
				got[i].Where = name + got[i].Where
			}
			return got, nil
		case bytes.HasPrefix(l, []byte("FAIL ")):
			return nil, failure{name + ": " + string(l[5:])}
		}
	}
	if msg := crashMessage(errb.String()); msg != "" {
		return nil, failure{name + ": " + msg}
	}
	return nil, harnessError{fmt.Sprintf("process of a life: %v\n%s", err,
		errb.String())}
}

func runRestarts(c *C, p planRestarts) {
	seen := map[string]string{}
	judge := func(outs []lifeOut) {
		for _, o := range outs {
			for what, k := range o.Keys {
				at := fmt.Sprintf("the %s of %s", what, o.Where)
				if was, ok := seen[k]; ok {
					c.Failf("%s is that of an earlier life or "+
						"request, %s: %s", at, was, k)
				}
				seen[k] = at
			}
		}
	}
	for i, many := range p.Rounds {
		var (
			outs = make([][]lifeOut, many)
			bad  = make([]interface{}, many)
			wg   sync.WaitGroup
		)
		for j := 0; j < many; j++ {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { bad[j] = caught(recover()) }()
				outs[j] = live(c, p.Plan, fmt.Sprintf(
					"life %d of round %d", j, i))
			}()
		}
		c.mustEnd("some lives of a node", wg.Wait)
		for j := range outs {
			if bad[j] != nil {
				panic(bad[j])
			}
			judge(outs[j])
		}
	}
	times := 1
	if p.Twice {
		times = 2
	}
	for i := 0; i < times && p.Others > 0; i++ {
		var (
			outs = make([][]lifeOut, p.Others)
			bad  = make([]interface{}, p.Others)
			wg   sync.WaitGroup
		)
		for j := range outs {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[j], bad[j] = liveElsewhere(p.Plan, fmt.Sprintf(
					"process %d of start %d", j, i))
			}()
		}
		wg.Wait()
		for j := range outs {
			if bad[j] != nil {
				panic(bad[j])
			}
			judge(outs[j])
		}
		c.Class("other processes")
	}
	c.NonTrivial()
}

func addRestarts(prop string, ops []string, rpc []bool, what string) {
	s := Add(prop, "restarts", 64, 800,
		"2 to 7 lives of one node, in a row and at the same time, in this "+
			"process and in up to three others, each asked for the same "+
			what+". No blinding point, node id, ephemeral key or piece "+
			"of encrypted data may come up in two. Non-trivial: always.",
		func(t *rapid.T) planRestarts {
			p := planRestarts{Plan: lifePlan{
				RPC: rapid.SampledFrom(rpc).Draw(t, "rpc"),
				Ops: rapid.SliceOfN(rapid.SampledFrom(ops), 1, 4).
					Draw(t, "ops"),
			}}
			p.Rounds = rapid.SliceOfN(rapid.IntRange(1, 3), 1, 2).
				Draw(t, "rounds")
			switch rapid.IntRange(0, 3).Draw(t, "elsewhere") {
			case 0:
				p.Others = rapid.IntRange(1, 3).Draw(t, "others")
				p.Twice = rapid.Bool().Draw(t, "twice")
			case 1:
				p.Rounds = append(p.Rounds, 1)
			}
			if len(p.Rounds) == 1 && p.Rounds[0] == 1 && p.Others == 0 {
				p.Rounds[0] = 2
			}
			return p
		}, runRestarts)
	s.Procs = 4
}

func init() {
	addRestarts("C12", []string{"direct", "path", "blinded"},
		[]bool{false, true}, "direct and indirect messages")
	addRestarts("C19", []string{"route"}, []bool{false}, "routes")
	addRestarts("C23", []string{"route"}, []bool{true}, "routes")
}
