package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lncfg"
	"github.com/lightningnetwork/lnd/lnrpc"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"pgregory.net/rapid"
)

// The lnd that boltnd needs at least.
var (
	minVersion = [3]uint32{0, 15, 0}
	minTags    = []string{"signrpc", "walletrpc", "chainrpc", "invoicesrpc"}
)

type planC25 struct {
	// Default keeps the default client configuration.
	Default bool
	// NoClient and NoVersion leave out parts.
	NoClient, NoVersion bool
	Version             [3]uint32
	Tags                []string
	Pre                 string
	Wait                int64
	Retries             uint8
	// BadOption has an option fail, at position OptionAt.
	BadOption bool
	OptionAt  int
}

func drawC25(t *rapid.T) planC25 {
	p := planC25{
		Default:   rapid.IntRange(0, 9).Draw(t, "default") == 0,
		NoClient:  rapid.IntRange(0, 14).Draw(t, "no-client") == 0,
		NoVersion: rapid.IntRange(0, 14).Draw(t, "no-version") == 0,
		Pre:       rapid.SampledFrom([]string{"", "beta", "beta.rc1"}).Draw(t, "pre"),
		Wait: rapid.SampledFrom([]int64{0, 1, 1e9, math.MaxInt64, 1e6,
			-1, -1e9, math.MinInt64}).Draw(t, "wait"),
		Retries:   rapid.Uint8().Draw(t, "retries"),
		BadOption: rapid.IntRange(0, 19).Draw(t, "bad-option") == 0,
		OptionAt:  rapid.IntRange(0, 3).Draw(t, "option-at"),
	}
	small := []uint32{0, 0, 0, 1, 2}
	near := []uint32{0, 13, 14, 15, 15, 15, 15, 16, 99, math.MaxUint32}
	p.Version = [3]uint32{
		rapid.SampledFrom(small).Draw(t, "major"),
		rapid.SampledFrom(near).Draw(t, "minor"),
		rapid.SampledFrom([]uint32{0, 0, 1, 3, 99}).Draw(t, "patch"),
	}
	all := append([]string{"bolt12", "routerrpc", "sign", "SIGNRPC",
		"signrpc ", "peersrpc", ""}, minTags...)
	if rapid.Bool().Draw(t, "tags?") {
		// All that are needed, in some order, with others.
		extra := rapid.SliceOfN(rapid.SampledFrom(all), 0, 3).Draw(
			t, "extra")
		p.Tags = rapid.Permutation(append(extra, minTags...)).Draw(
			t, "tags")
		if rapid.IntRange(0, 3).Draw(t, "drop") == 0 {
			p.Tags = p.Tags[1:]
		}
	} else {
		p.Tags = rapid.SliceOfN(rapid.SampledFrom(all), 0, 7).Draw(
			t, "some-tags")
	}
	return p
}

// accepted is when a configuration is to be accepted.
func (p planC25) accepted() (bool, string) {
	if p.BadOption {
		return false, "option fails"
	}
	if !p.Default {
		if p.NoClient {
			return false, "no client configuration"
		}
		if p.NoVersion {
			return false, "no version"
		}
		for i, m := range minVersion {
			if p.Version[i] < m {
				return false, "old version"
			}
			if p.Version[i] > m {
				break
			}
		}
		for _, need := range minTags {
			ok := false
			for _, tag := range p.Tags {
				ok = ok || tag == need
			}
			if !ok {
				return false, "missing tag"
			}
		}
	}
	if p.Wait < 0 {
		return false, "negative wait"
	}
	return true, "accepted"
}

// planC25Lnd is the configuration of an embedding lnd.
type planC25Lnd struct {
	// Listeners are addresses; a leading slash makes a unix socket.
	Listeners []string
	Mac, TLS  string
	// Network is mainnet, testnet, regtest, simnet, signet or "".
	Network string
}

func drawC25Lnd(t *rapid.T) planC25Lnd {
	path := rapid.SampledFrom([]string{"", "/a/admin.macaroon", "tls.cert",
		"/some where/x", "~/.lnd/admin.macaroon"})
	addr := rapid.SampledFrom([]string{"127.0.0.1:10009", "[::1]:10010",
		"0.0.0.0:1", "/run/lnd.sock", "10.1.2.3:65535"})
	return planC25Lnd{
		Listeners: rapid.SliceOfN(addr, 0, 3).Draw(t, "listeners"),
		Mac:       path.Draw(t, "mac"), TLS: path.Draw(t, "tls"),
		Network: rapid.SampledFrom([]string{"mainnet", "testnet",
			"regtest", "simnet", "signet", ""}).Draw(t, "network"),
	}
}

// planStarts is a series of connection attempts.
type planStarts struct {
	Retries uint8
	// Attempts are the outcomes of the first ones, Rest that of the others.
	Attempts []string
	Rest     string
	Wait     int
	// Late has the connection succeed and the server fail.
	Late bool
	// Unlocked and Synced are settings of the client.
	Unlocked, Synced bool
	// Dial has every connection refused.
	Dial bool
}

func drawStarts(t *rapid.T) planStarts {
	out := rapid.SampledFrom([]string{"state", "info", "network", "old",
		"tags", "no version", "info", "ok"})
	p := planStarts{
		Retries:  rapid.SampledFrom([]uint8{0, 0, 1, 1, 2, 3, 4, 6}).Draw(t, "retries"),
		Attempts: rapid.SliceOfN(out, 0, 7).Draw(t, "attempts"),
		Rest:     rapid.SampledFrom([]string{"ok", "new", "info", "old"}).Draw(t, "rest"),
		Wait:     rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "wait"),
		Late:     rapid.IntRange(0, 5).Draw(t, "late") == 0,
		Unlocked: rapid.Bool().Draw(t, "unlocked"),
		Synced:   rapid.Bool().Draw(t, "synced"),
		Dial:     rapid.IntRange(0, 7).Draw(t, "dial") == 0,
	}
	if rapid.IntRange(0, 59).Draw(t, "many") == 0 {
		p.Retries = rapid.SampledFrom([]uint8{127, 128, 254, 255}).Draw(
			t, "many-retries")
		p.Attempts, p.Rest, p.Wait = nil, "info", 0
	}
	return p
}

func init() {
	Add("C25", "configs", 20000, 200000,
		"Client configurations with versions around the minimum, subsets "+
			"and supersets of the build tags, missing parts, waits of "+
			"either sign, and options that fail, given to NewBoltnd "+
			"and to Validate. Non-trivial: the configuration differs "+
			"from the default and no part is missing.",
		drawC25, runC25)
	Add("C25", "embedding lnd", 10000, 60000,
		"Configurations of an embedding lnd with any listeners, paths and "+
			"network, turned into client settings. Non-trivial: it has "+
			"a listener.",
		drawC25Lnd, runC25Lnd)
	s := Add("C25", "starts", 320, 8000,
		"Starts of the daemon against an lnd behind real gRPC, whose "+
			"connection attempts fail in different ways before one "+
			"succeeds, or not, with 0 to 255 retries. Checked: the "+
			"number of attempts, the results of start, second start, "+
			"stop and second stop. Non-trivial: an attempt failed.",
		drawStarts, runStarts)
	s.Procs = 2
	s = Add("C24", "daemon", 240, 6000,
		"Whole lives of the daemon between a real gRPC client and an lnd "+
			"behind real gRPC: calls before and after the start, "+
			"messages arriving for subscriptions, sends, a stream that "+
			"breaks, and stopping. Non-trivial: a payload was received "+
			"over a subscription.",
		drawDaemon, runDaemon)
	s.Procs = 3
	Add("C26", "keys", 16000, 100000,
		"Node keys, points and failures of lnd; shared secrets are compared "+
			"with ones computed from the private key. Non-trivial: a "+
			"secret was computed.",
		drawC26, runC26)
	Add("C27", "grants", 16000, 60000,
		"Random sets of permissions granted to a macaroon; each method of "+
			"the service as registered with gRPC, and names that are "+
			"not methods, must be allowed exactly when the fitting "+
			"permission is granted. Non-trivial: some methods are "+
			"allowed and some are not.",
		drawC27, runC27)
}

func runC25(c *C, p planC25) {
	want, why := p.accepted()
	c.Class("%s", why)
	if !p.Default && !p.NoClient && !p.NoVersion {
		c.NonTrivial()
	}
	client := &lndclient.LndServicesConfig{
		LndAddress: "localhost:1", Network: lndclient.NetworkRegtest,
	}
	if !p.NoVersion {
		client.CheckVersion = &verrpc.Version{
			AppMajor: p.Version[0], AppMinor: p.Version[1],
			AppPatch: p.Version[2], AppPreRelease: p.Pre,
			BuildTags: append([]string{}, p.Tags...),
		}
	}
	if p.NoClient {
		client = nil
	}
	opts := []boltnd.ConfigOption{
		func(c *boltnd.Config) error {
			c.LNDWait = time.Duration(p.Wait)
			return nil
		},
		func(c *boltnd.Config) error {
			c.LNDRetires = p.Retries
			return nil
		},
	}
	if !p.Default {
		opts = append(opts, boltnd.OptionLNDClient(client))
	}
	bad := errors.New("bad option")
	if p.BadOption {
		at := p.OptionAt % (len(opts) + 1)
		opts = append(opts[:at:at], append([]boltnd.ConfigOption{
			func(*boltnd.Config) error { return bad },
		}, opts[at:]...)...)
	}
	b, err := boltnd.NewBoltnd(opts...)
	if (err == nil) != want || (b == nil) == want {
		c.Failf("new daemon: %v; the configuration is to be judged as: %s",
			err, why)
	}
	if p.BadOption {
		if !carries(err, bad) {
			c.Failf("an option failed with %v, the result is %v", bad, err)
		}
		return
	}
	cfg := boltnd.DefaultConfig()
	for _, o := range opts {
		if err := o(cfg); err != nil {
			c.Failf("option: %v", err)
		}
	}
	if err := cfg.Validate(); (err == nil) != want {
		c.Failf("validate: %v; the configuration is to be judged as: %s",
			err, why)
	}
	if cfg.LNDWait != time.Duration(p.Wait) || cfg.LNDRetires != p.Retries ||
		!p.Default && cfg.LndClientCfg != client {

		c.Failf("validation changed the configuration: %+v", cfg)
	}
}

func runC25Lnd(c *C, p planC25Lnd) {
	cfg := &lnd.Config{
		AdminMacPath: p.Mac, TLSCertPath: p.TLS,
		Bitcoin: &lncfg.Chain{},
	}
	for _, l := range p.Listeners {
		var (
			a   net.Addr
			err error
		)
		if strings.HasPrefix(l, "/") {
			a, err = net.ResolveUnixAddr("unix", l)
		} else {
			a, err = net.ResolveTCPAddr("tcp", l)
		}
		if err != nil {
			panic(harnessError{err.Error()})
		}
		cfg.RPCListeners = append(cfg.RPCListeners, a)
	}
	known := true
	switch p.Network {
	case "mainnet":
		cfg.Bitcoin.MainNet = true
	case "testnet":
		cfg.Bitcoin.TestNet3 = true
	case "regtest":
		cfg.Bitcoin.RegTest = true
	case "simnet":
		cfg.Bitcoin.SimNet = true
		known = false
	case "signet":
		cfg.Bitcoin.SigNet = true
		known = false
	default:
		known = false
	}
	want := known && len(p.Listeners) > 0
	if len(p.Listeners) > 0 {
		c.NonTrivial()
	}
	c.Class("network %s, listener %v", p.Network, len(p.Listeners) > 0)

	got := boltnd.DefaultConfig()
	err := boltnd.OptionLNDConfig(cfg)(got)
	_, newErr := boltnd.NewBoltnd(boltnd.OptionLNDConfig(cfg))
	if (err == nil) != want || (newErr == nil) != want {
		c.Failf("option: %v, new daemon: %v for %+v", err, newErr, p)
	}
	if !want {
		return
	}
	l := got.LndClientCfg
	if l == nil || l.LndAddress != cfg.RPCListeners[0].String() ||
		l.CustomMacaroonPath != p.Mac || l.TLSPath != p.TLS ||
		string(l.Network) != p.Network || l.MacaroonDir != "" ||
		l.CustomMacaroonHex != "" || l.TLSData != "" || l.Insecure {

		c.Failf("derived settings %+v from %+v", l, p)
	}
	if err := got.Validate(); err != nil {
		c.Failf("derived settings are not accepted: %v", err)
	}
}

// outcomeAt is how attempt i goes.
func (p planStarts) outcomeAt(i int) string {
	if i >= 0 && i < len(p.Attempts) {
		return p.Attempts[i]
	}
	return p.Rest
}

// works is whether an attempt is one that succeeds. A client that doesn't wait
// for lnd to be unlocked doesn't look at its state.
func (p planStarts) works(i int) bool {
	o := p.outcomeAt(i)
	return o == "ok" || o == "new" || o == "state" && !p.Unlocked
}

func daemon(c *C, cfg *lndclient.LndServicesConfig, retries uint8, wait int,
	opts ...boltnd.ConfigOption) *boltnd.Boltnd {

	cfg.CheckVersion = &verrpc.Version{
		AppMajor: minVersion[0], AppMinor: minVersion[1],
		AppPatch: minVersion[2], BuildTags: minTags,
	}
	b, err := boltnd.NewBoltnd(append([]boltnd.ConfigOption{
		boltnd.OptionLNDClient(cfg),
		func(c *boltnd.Config) error {
			c.LNDRetires = retries
			c.LNDWait = time.Duration(wait) * time.Millisecond
			return nil
		},
	}, opts...)...)
	if err != nil {
		c.Failf("new daemon: %v", err)
	}
	c.Cleanup(func() { within(20*time.Second, func() { _ = b.Stop() }) })
	return b
}

func runStarts(c *C, p planStarts) {
	f := newGrpcLnd(c, nodeKey(0))
	f.outcome, f.refuse = p.outcomeAt, p.Dial
	tries, ok := 0, false
	for tries <= int(p.Retries) && !ok {
		ok = !p.Dial && p.works(tries)
		tries++
	}
	if tries > 1 || !ok {
		c.NonTrivial()
	}
	started := ok && !p.Late
	c.ClassIf(started && tries > 1, "started after failed attempts")
	c.ClassIf(started && tries == 1, "started at once")
	c.ClassIf(!ok, "gave up")
	c.ClassIf(ok && p.Late, "server failed")
	c.ClassIf(p.Dial, "connection refused")

	cfg := f.config()
	cfg.BlockUntilUnlocked = p.Unlocked
	cfg.BlockUntilChainSynced = p.Synced
	b := daemon(c, cfg, p.Retries, p.Wait)
	late := errors.New("lnd is too busy")
	if p.Late {
		// The connection asks for information once, or twice if it is
		// to wait until the chain is synced.
		n := 1
		if p.Synced {
			n = 2
		}
		calls := 0
		f.info = func(attempt int) error {
			f.mu.Lock()
			defer f.mu.Unlock()
			if attempt != tries-1 {
				return nil
			}
			if calls++; calls > n {
				return late
			}
			return nil
		}
	}
	var (
		err   error
		began = time.Now()
	)
	c.mustEnd("starting the daemon", func() { err = b.Start() })
	took := time.Since(began)
	made := func() int {
		f.mu.Lock()
		defer f.mu.Unlock()
		if p.Dial {
			return f.dials
		}
		return f.attempts
	}
	n := made()
	if p.Dial && n > tries && took > 500*time.Millisecond {
		// The transport may have tried again by itself.
		n = tries
	}
	if n != tries {
		c.Failf("%d connection attempts were made with %d retries, "+
			"expected %d (start: %v)", n, p.Retries, tries, err)
	}
	if (err == nil) != started {
		c.Failf("start: %v after %d attempts, lnd ok: %v, server fails: %v",
			err, tries, ok, p.Late)
	}
	c.mustEnd("starting the daemon again", func() { err = b.Start() })
	if err == nil {
		c.Failf("starting again succeeded")
	}
	if m := made(); !p.Dial && m != n {
		c.Failf("starting again made connection attempts")
	}
	c.mustEnd("stopping the daemon", func() { err = b.Stop() })
	if err != nil {
		c.Failf("stopping: %v (started: %v)", err, started)
	}
	c.mustEnd("stopping the daemon again", func() { err = b.Stop() })
	if err == nil {
		c.Failf("stopping again succeeded")
	}
}

// ---------------------------------------------------------------------------

type planDaemon struct {
	// Early are calls before the start, as in C24.
	Early []string
	// Subs are types subscribed to; Msgs the types of messages' payloads.
	Subs []int
	Msgs [][]int
	// Sends are the kinds of sends, "direct" or "routed".
	Sends []string
	Death bool
	// Callback is whether a shutdown callback is configured.
	Callback bool
	Closed   bool
}

func drawDaemon(t *rapid.T) planDaemon {
	typ := rapid.IntRange(0, len(subTypes)-1)
	return planDaemon{
		Early: rapid.SliceOfN(rapid.SampledFrom([]string{"decode", "send",
			"give up"}), 0, 3).Draw(t, "early"),
		Subs: rapid.SliceOfNDistinct(typ, 0, 3, rapid.ID[int]).Draw(t, "subs"),
		Msgs: rapid.SliceOfN(rapid.SliceOfNDistinct(typ, 1, 3,
			rapid.ID[int]), 0, 8).Draw(t, "msgs"),
		Sends: rapid.SliceOfN(rapid.SampledFrom([]string{"direct",
			"routed"}), 0, 3).Draw(t, "sends"),
		Death:    rapid.IntRange(0, 2).Draw(t, "death") == 0,
		Callback: rapid.IntRange(0, 3).Draw(t, "callback") > 0,
		Closed:   rapid.Bool().Draw(t, "closed"),
	}
}

func runDaemon(c *C, p planDaemon) {
	var (
		f    = newGrpcLnd(c, nodeKey(0))
		peer = nodeKey(30).PubKey()
		hop  = nodeKey(31).PubKey()
		down = make(chan struct{}, 10)
		opts []boltnd.ConfigOption
	)
	f.peers = append(f.peers, vertex(peer))
	f.hops = append(f.hops, vertex(hop), vertex(peer))
	if p.Callback {
		opts = append(opts, boltnd.OptionRequestShutdown(func() {
			down <- struct{}{}
		}))
	}
	b := daemon(c, f.config(), 0, 0, opts...)

	// The service as its clients see it.
	lis := bufconn.Listen(1 << 16)
	srv := grpc.NewServer()
	if err := b.RegisterGrpcSubserver(srv); err != nil {
		c.Failf("registering with gRPC: %v", err)
	}
	go func() { _ = srv.Serve(lis) }()
	c.Cleanup(srv.Stop)
	conn, err := grpc.Dial("boltnd", grpc.WithInsecure(),
		grpc.WithContextDialer(func(context.Context, string) (net.Conn,
			error) {

			return lis.Dial()
		}))
	if err != nil {
		panic(harnessError{err.Error()})
	}
	c.Cleanup(func() { _ = conn.Close() })
	client := offersrpc.NewOffersClient(conn)
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)

	send := func(ctx context.Context, kind string, v string) error {
		_, err := client.SendOnionMessage(ctx,
			&offersrpc.SendOnionMessageRequest{
				Pubkey:        peer.SerializeCompressed(),
				DirectConnect: kind == "direct",
				FinalPayloads: map[uint64][]byte{64: []byte(v)},
			})
		return err
	}
	decode := func() error {
		r, err := client.DecodeOffer(ctx, &offersrpc.DecodeOfferRequest{
			Offer: plainOffer(),
		})
		if err == nil && r.Offer.Description != c24Offer {
			return fmt.Errorf("decoded %v", r.Offer)
		}
		return err
	}

	// Calls before the start.
	type early struct {
		kind string
		err  error
		done chan struct{}
	}
	var pending []*early
	wantSends := 0
	for _, kind := range p.Early {
		e := &early{kind: kind, done: make(chan struct{})}
		go func() {
			defer close(e.done)
			switch e.kind {
			case "decode":
				e.err = decode()
			case "send":
				e.err = send(ctx, "direct", "early")
			case "give up":
				short, stop := context.WithTimeout(ctx,
					2*time.Millisecond)
				defer stop()
				e.err = send(short, "direct", "never")
			}
		}()
		if kind == "give up" {
			c.awaitDone("a call given up before the start", e.done)
			if e.err == nil {
				c.Failf("a call given up before the start succeeded")
			}
			continue
		}
		if kind == "send" {
			wantSends++
		}
		pending = append(pending, e)
	}
	time.Sleep(time.Millisecond)
	for _, e := range pending {
		select {
		case <-e.done:
			c.Failf("a call ended before the start: %s: %v", e.kind, e.err)
		default:
		}
	}
	c.mustEnd("starting the daemon", func() { err = b.Start() })
	if err != nil {
		c.Failf("start: %v", err)
	}
	for _, e := range pending {
		c.awaitDone("a call from before the start", e.done)
		if e.err != nil {
			c.Failf("%s from before the start: %v", e.kind, e.err)
		}
	}
	for i, kind := range p.Sends {
		kind := kind
		c.mustEnd("a send", func() {
			err = send(ctx, kind, fmt.Sprint(i))
		})
		if err != nil {
			c.Failf("%s send: %v", kind, err)
		}
		wantSends++
	}
	f.mu.Lock()
	sent := append([]wireMsg{}, f.sent...)
	f.mu.Unlock()
	if len(sent) != wantSends {
		c.Failf("%d messages were handed to lnd, expected %d", len(sent),
			wantSends)
	}
	for i, kind := range p.Sends {
		to := vertex(peer)
		if kind == "routed" {
			to = vertex(hop)
		}
		m := sent[wantSends-len(p.Sends)+i]
		if m.To != to || m.Type != onionType || len(m.Data) != wireSize {
			c.Failf("%s send gave lnd a message of type %d with %d "+
				"bytes for %x", kind, m.Type, len(m.Data), m.To)
		}
	}

	// Subscriptions.
	type sub struct {
		typ    uint64
		stream offersrpc.Offers_SubscribeOnionPayloadClient
		in     chan *offersrpc.SubscribeOnionPayloadResponse
		err    error
		done   chan struct{}
	}
	var (
		serial int
		subs   []*sub
	)
	push := func(types ...uint64) [][]byte {
		var (
			finals []finalPlan
			values [][]byte
		)
		serial++
		for _, t := range types {
			v := []byte(fmt.Sprintf("%d:%d", serial, t))
			values = append(values, v)
			finals = append(finals, finalPlan{T: t, V: lit(v)})
		}
		from := vertex(peer)
		m := &lnrpc.CustomMessage{
			Peer: from[:], Type: onionType,
			Data: clearMessage(priv(2*serial), priv(2*serial+1),
				[]*btcec.PublicKey{f.priv.PubKey()}, nil, finals),
		}
		select {
		case f.msgs <- m:
		case <-time.After(stuckAfter):
			c.stuck("lnd's stream", make(chan struct{}))
		}
		return values
	}
	for _, t := range p.Subs {
		s := &sub{
			typ: subTypes[t], done: make(chan struct{}),
			in: make(chan *offersrpc.SubscribeOnionPayloadResponse, 1000),
		}
		s.stream, err = client.SubscribeOnionPayload(ctx,
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: s.typ})
		if err != nil {
			c.Failf("subscribe: %v", err)
		}
		go func() {
			defer close(s.done)
			for {
				m, err := s.stream.Recv()
				if err != nil {
					s.err = err
					return
				}
				s.in <- m
			}
		}()
		open := false
		for d := 500 * time.Microsecond; !open; d *= 2 {
			push(s.typ)
			select {
			case <-s.in:
				open = true
			case <-s.done:
				c.Failf("subscription to %d ended: %v", s.typ, s.err)
			case <-time.After(d):
				if d > stuckAfter {
					c.stuck("a subscription being served", s.done)
				}
			}
		}
		subs = append(subs, s)
	}
	// What opening them needed is in each stream before what follows.
	sentTo := map[uint64][][]byte{}
	for _, m := range p.Msgs {
		var types []uint64
		for _, t := range m {
			types = append(types, subTypes[t])
		}
		for i, v := range push(types...) {
			sentTo[types[i]] = append(sentTo[types[i]], v)
		}
	}
	for _, s := range subs {
		want := sentTo[s.typ]
		for i := 0; i < len(want); {
			select {
			case m := <-s.in:
				var n, typ uint64
				_, _ = fmt.Sscanf(string(m.Value), "%d:%d", &n, &typ)
				if n <= uint64(serial-len(p.Msgs)) && typ == s.typ {
					continue
				}
				if !bytes.Equal(m.Value, want[i]) {
					c.Failf("subscription to %d got %q, expected %q",
						s.typ, m.Value, want[i])
				}
				i++
				c.NonTrivial()
			case <-s.done:
				c.Failf("subscription to %d ended: %v", s.typ, s.err)
			case <-time.After(stuckAfter):
				c.stuck("a payload reaching its subscriber", s.done)
			}
		}
	}
	f.mu.Lock()
	if f.badKey > 0 {
		c.Failf("the signer was asked to use another key than the node's")
	}
	f.mu.Unlock()

	if p.Death {
		var cause error
		if !p.Closed {
			cause = status.Error(codes.Internal, "lnd breaks")
		}
		select {
		case f.die <- cause:
		case <-time.After(stuckAfter):
			c.Failf("lnd's stream is not open")
		}
		c.Class("stream died")
		if p.Callback {
			select {
			case <-down:
			case <-time.After(stuckAfter):
				c.Failf("the stream died and shutdown was not asked for")
			}
		}
	}
	c.mustEnd("stopping the daemon", func() { err = b.Stop() })
	if err != nil {
		c.Failf("stop: %v", err)
	}
	for _, s := range subs {
		c.awaitDone("a subscription, open when the daemon was stopped,",
			s.done)
		if status.Code(s.err) != codes.Aborted {
			c.Failf("a subscription, open when the daemon was stopped, "+
				"ended with %v", s.err)
		}
	}
	c.mustEnd("stopping the daemon again", func() { err = b.Stop() })
	if err == nil {
		c.Failf("stopping again succeeded")
	}
	if len(down) > 0 {
		c.Failf("shutdown was asked for again, or without reason")
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.streams > 1 {
		c.Failf("the message stream was opened %d times", f.streams)
	}
}

// ---------------------------------------------------------------------------
// C26

type planC26 struct {
	Node   int
	Points []pointC26
	// Info is "", "fails" or "bad key"; BadKey is the key lnd reports.
	Info   string
	BadKey Blob
	Err    int
}

type pointC26 struct {
	Key int
	// Odd negates the point.
	Odd bool
	// Self uses the node's own key.
	Self bool
	// Err has the signer fail with error number Err-1.
	Err int
}

func drawC26(t *rapid.T) planC26 {
	point := rapid.Custom(func(t *rapid.T) pointC26 {
		p := pointC26{
			Key:  rapid.IntRange(0, 1<<20).Draw(t, "key"),
			Odd:  rapid.Bool().Draw(t, "odd"),
			Self: rapid.IntRange(0, 9).Draw(t, "self") == 0,
		}
		if rapid.IntRange(0, 3).Draw(t, "err?") == 0 {
			p.Err = rapid.IntRange(1, len(nodeErrs)).Draw(t, "err")
		}
		return p
	})
	p := planC26{
		Node:   rapid.IntRange(0, 1<<20).Draw(t, "node"),
		Points: rapid.SliceOfN(point, 1, 5).Draw(t, "points"),
		Info: rapid.SampledFrom([]string{"", "", "", "", "", "fails",
			"bad key"}).Draw(t, "info"),
		Err: rapid.IntRange(0, len(nodeErrs)-1).Draw(t, "err"),
	}
	if p.Info == "bad key" {
		p.BadKey = lit(rapid.SliceOfN(rapid.Byte(), 33, 33).Draw(t, "bad"))
	}
	return p
}

// recordingSigner is a signer that notes what it is asked.
type recordingSigner struct {
	lndclient.SignerClient
	key  *btcec.PrivateKey
	err  error
	asks []string
	locs []*keychain.KeyLocator
}

// refECDH is the shared secret: SHA256 of the compressed product.
func refECDH(k *btcec.PrivateKey, p *btcec.PublicKey) [32]byte {
	var pt, r btcec.JacobianPoint
	p.AsJacobian(&pt)
	btcec.ScalarMultNonConst(&k.Key, &pt, &r)
	r.ToAffine()
	x, y := r.X, r.Y
	return sha256.Sum256(
		btcec.NewPublicKey(&x, &y).SerializeCompressed())
}

func (s *recordingSigner) DeriveSharedKey(ctx context.Context,
	p *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {

	s.asks = append(s.asks, fmt.Sprintf("%x", p.SerializeCompressed()))
	s.locs = append(s.locs, loc)
	if err := ctx.Err(); err != nil {
		return [32]byte{}, err
	}
	if s.err != nil {
		return [32]byte{}, s.err
	}
	k := s.key
	if loc == nil || *loc != (keychain.KeyLocator{Family: 6}) {
		k = priv(9_999_999)
	}
	return refECDH(k, p), nil
}

func runC26(c *C, p planC26) {
	net := newNet(c)
	n := net.bare()
	k := priv(p.Node)
	n.priv, n.pub = k, k.PubKey()
	infoErr := nodeErrs[p.Err%len(nodeErrs)]
	wantKey := true
	switch p.Info {
	case "fails":
		n.lnd.info = func() (*lndclient.Info, error) { return nil, infoErr }
		wantKey = false
	case "bad key":
		var key [33]byte
		copy(key[:], p.BadKey.Bytes())
		if pk, err := btcec.ParsePubKey(key[:]); err == nil {
			n.pub = pk
		} else {
			wantKey = false
		}
		n.lnd.info = func() (*lndclient.Info, error) {
			return &lndclient.Info{IdentityPubkey: key}, nil
		}
	}
	signer := &recordingSigner{key: k}
	ecdh, err := onionmsg.NewNodeECDH(n.lnd, signer)
	if (err == nil) != wantKey {
		c.Failf("key operations (%s): %v", p.Info, err)
	}
	if !wantKey {
		c.Class("no key: %s", p.Info)
		if p.Info == "fails" && !carries(err, infoErr) {
			c.Failf("lnd failed with %v, the result is %v", infoErr, err)
		}
		return
	}
	for i, pt := range p.Points {
		pk := priv(pt.Key).PubKey()
		if pt.Self {
			pk = n.pub
		}
		if pt.Odd {
			raw := pk.SerializeCompressed()
			raw[0] ^= 1
			pk, err = btcec.ParsePubKey(raw)
			if err != nil {
				panic(harnessError{err.Error()})
			}
		}
		signer.err = nil
		if pt.Err > 0 {
			signer.err = nodeErrs[(pt.Err-1)%len(nodeErrs)]
		}
		asked := len(signer.asks)
		got, err := ecdh.ECDH(pk)
		// An answer that is known already needs no signer.
		failed := signer.err != nil && len(signer.asks) > asked
		switch {
		case failed && !carries(err, signer.err):
			c.Failf("the signer failed with %v, the result is %x, %v",
				signer.err, got, err)
		case !failed && err != nil:
			c.Failf("ECDH: %v", err)
		case !failed && got != refECDH(k, pk):
			c.Failf("ECDH %d with %x is %x, expected %x", i,
				pk.SerializeCompressed(), got, refECDH(k, pk))
		}
		c.ClassIf(signer.err != nil, "signer failed")
		if signer.err == nil {
			c.NonTrivial()
		}
		for j := asked; j < len(signer.asks); j++ {
			want := fmt.Sprintf("%x", pk.SerializeCompressed())
			loc := signer.locs[j]
			if signer.asks[j] != want || loc == nil ||
				*loc != (keychain.KeyLocator{Family: 6}) {

				c.Failf("the signer was asked for key %v and point "+
					"%s, expected the node key and %s", loc,
					signer.asks[j], want)
			}
		}
		if !ecdh.PubKey().IsEqual(n.pub) {
			c.Failf("the reported key is %x, the node's is %x",
				ecdh.PubKey().SerializeCompressed(),
				n.pub.SerializeCompressed())
		}
	}
}

// ---------------------------------------------------------------------------
// C27

type planC27 struct {
	// Grants are permissions as entity/action.
	Grants []string
	// Names are made from method names, or not.
	Names []string
}

var (
	entities = []string{"onchain", "offchain", "address", "message", "peers",
		"info", "invoices", "signer", "macaroon", "uri"}
	actions = []string{"read", "write", "generate"}
)

func drawC27(t *rapid.T) planC27 {
	grant := rapid.Custom(func(t *rapid.T) string {
		if rapid.Bool().Draw(t, "likely") {
			return rapid.SampledFrom([]string{"peers/write", "peers/read",
				"offchain/read", "offchain/write"}).Draw(t, "grant")
		}
		return rapid.SampledFrom(entities).Draw(t, "entity") + "/" +
			rapid.SampledFrom(actions).Draw(t, "action")
	})
	names := rapid.SampledFrom([]string{"", "/", "SendOnionMessage",
		"/offersrpc.Offers", "/offersrpc.Offers/", "/offersrpc.Offers/Send",
		"/offersrpc.Offers/sendOnionMessage", "offersrpc.Offers/DecodeOffer",
		"/lnrpc.Lightning/SendCustomMessage", "/offersrpc.Offers/DecodeOffer ",
		"/offersrpc.Offers/DecodeInvoice"})
	return planC27{
		Grants: rapid.SliceOfN(grant, 0, 6).Draw(t, "grants"),
		Names:  rapid.SliceOfN(names, 0, 3).Draw(t, "names"),
	}
}

func runC27(c *C, p planC27) {
	b, err := boltnd.NewBoltnd()
	if err != nil {
		c.Failf("new daemon: %v", err)
	}
	srv := grpc.NewServer()
	defer srv.Stop()
	if err := b.RegisterGrpcSubserver(srv); err != nil {
		c.Failf("registering with gRPC: %v", err)
	}
	need := map[string]string{}
	for service, info := range srv.GetServiceInfo() {
		for _, m := range info.Methods {
			full := "/" + service + "/" + m.Name
			need[full] = "offchain/read"
			if m.Name == "SendOnionMessage" {
				need[full] = "peers/write"
			}
		}
	}
	if len(need) < 4 {
		c.Failf("the service has only the methods %v", need)
	}
	granted := map[string]bool{}
	for _, g := range p.Grants {
		granted[g] = true
	}
	perms := b.Permissions()
	var names []string
	for m := range perms {
		names = append(names, m)
		if need[m] == "" {
			c.Failf("there are permissions for %q, which is no method", m)
		}
	}
	for m := range need {
		if _, ok := perms[m]; !ok {
			names = append(names, m)
		}
	}
	sort.Strings(names)
	names = append(names, p.Names...)
	var allowed, refused int
	for _, m := range names {
		ops, ok := perms[m]
		may := ok && len(ops) > 0
		for _, op := range ops {
			may = may && granted[op.Entity+"/"+op.Action]
		}
		want := need[m] != "" && granted[need[m]]
		if may != want {
			c.Failf("with permissions %v a macaroon is accepted for %q: "+
				"%v, expected %v (the method needs %v)", p.Grants, m,
				may, want, ops)
		}
		if may {
			allowed++
		} else if ok {
			refused++
		}
	}
	if allowed > 0 && refused > 0 {
		c.NonTrivial()
	}
	if !reflect.DeepEqual(perms, b.Permissions()) {
		c.Failf("the permissions change")
	}
}
