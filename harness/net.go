package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
)

const (
	onionType  = 513
	otherType  = 32769
	onionSize  = 1366
	wireSize   = 33 + 2 + onionSize
	routingMax = 1300
	maxHops    = 27

	// stuckAfter is how long a step that needs no waiting may take before
	// the process is examined for a deadlock.
	stuckAfter = 30 * time.Second
)

func vertex(p *btcec.PublicKey) route.Vertex { return route.NewVertex(p) }

// wireMsg is a custom message handed to a node's lnd.
type wireMsg struct {
	From int
	To   route.Vertex
	Type uint32
	Data []byte
}

// call is one call made to a node's lnd.
type call struct {
	Op   string
	Key  route.Vertex
	Host string
	Flag bool
	QR   lndclient.QueryRoutesRequest
}

// delivery is one invocation of a handler.
type delivery struct {
	Type  uint64
	Value []byte
	Reply *lnwire.ReplyPath
	// Tag tells handlers apart.
	Tag int
	// Enc is the encrypted data that came with the payload.
	Enc []byte
}

func (d delivery) String() string {
	return fmt.Sprintf("type %d value %.40x (%d bytes) reply path %s", d.Type,
		d.Value, len(d.Value), pathString(d.Reply))
}

func (d delivery) key() string {
	s := fmt.Sprintf("%d/%x/", d.Type, d.Value)
	if d.Reply != nil {
		s += fmt.Sprintf("%x", refReplyPath(d.Reply))
	}
	return s
}

// fakeLnd is one node's lnd. Functions left nil behave like an lnd with
// nothing unusual about it; calls made with a dead context fail as they would
// over gRPC.
type fakeLnd struct {
	// Methods nobody should need panic.
	lndclient.LightningClient

	node *simNode
	mu   sync.Mutex
	log  []call

	msgs chan lndclient.CustomMessage
	errs chan error

	// ctxHook runs before a call is answered; its error is the answer.
	ctxHook func(ctx context.Context, op string) error
	// noise chooses what is in the parts of answers that do not matter.
	noise int

	send       func(ctx context.Context, m lndclient.CustomMessage) error
	subscribe  func() error
	nodeInfo   func(v route.Vertex, channels bool) (*lndclient.NodeInfo, error)
	peers      func(ctx context.Context) ([]lndclient.Peer, error)
	connect    func(ctx context.Context, v route.Vertex, host string) error
	info       func() (*lndclient.Info, error)
	routes     func(r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error)
	channels   func(activeOnly, publicOnly bool) ([]lndclient.ChannelInfo, error)
	signErr    func() error
	subCtx     context.Context
	wrongKeyed int
}

func (f *fakeLnd) record(c call) {
	f.mu.Lock()
	f.log = append(f.log, c)
	f.mu.Unlock()
}

// calls returns the calls made so far, optionally only some operations.
func (f *fakeLnd) calls(ops ...string) []call {
	f.mu.Lock()
	defer f.mu.Unlock()
	var out []call
	for _, c := range f.log {
		if len(ops) == 0 || slices.Contains(ops, c.Op) {
			out = append(out, c)
		}
	}
	return out
}

func (f *fakeLnd) SendCustomMessage(ctx context.Context,
	m lndclient.CustomMessage) error {

	f.record(call{Op: "send", Key: m.Peer})
	if err := f.before(ctx, "send"); err != nil {
		return err
	}
	m.Data = append([]byte{}, m.Data...)
	if f.send != nil {
		if err := f.send(ctx, m); err != nil {
			return err
		}
	}
	n := f.node.net
	n.mu.Lock()
	w := wireMsg{f.node.id, m.Peer, m.MsgType, m.Data}
	n.wire = append(n.wire, w)
	n.queue = append(n.queue, w)
	notify := n.onSend
	n.mu.Unlock()
	if notify != nil {
		notify(w)
	}
	return nil
}

func (f *fakeLnd) SubscribeCustomMessages(ctx context.Context) (
	<-chan lndclient.CustomMessage, <-chan error, error) {

	f.record(call{Op: "subscribe"})
	f.mu.Lock()
	f.subCtx = ctx
	f.mu.Unlock()
	if f.subscribe != nil {
		if err := f.subscribe(); err != nil {
			return nil, nil, err
		}
	}
	return f.msgs, f.errs, nil
}

// before is what happens between a call and its answer.
func (f *fakeLnd) before(ctx context.Context, op string) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if f.ctxHook != nil {
		return f.ctxHook(ctx, op)
	}
	return nil
}

func (f *fakeLnd) GetNodeInfo(ctx context.Context, v route.Vertex,
	channels bool) (*lndclient.NodeInfo, error) {

	f.record(call{Op: "nodeinfo", Key: v, Flag: channels})
	if err := f.before(ctx, "nodeinfo"); err != nil {
		return nil, err
	}
	if f.nodeInfo != nil {
		i, err := f.nodeInfo(v, channels)
		return f.noisyNode(i), err
	}
	return f.noisyNode(&lndclient.NodeInfo{Node: &lndclient.Node{
		PubKey: v, Addresses: []string{"host:9735"},
	}}), nil
}

func (f *fakeLnd) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	f.record(call{Op: "peers"})
	if err := f.before(ctx, "peers"); err != nil {
		return nil, err
	}
	if f.peers != nil {
		ps, err := f.peers(ctx)
		return f.noisyPeers(ps), err
	}
	// Everybody is a peer of everybody else.
	var out []lndclient.Peer
	for _, n := range f.node.net.nodes {
		if n != f.node {
			out = append(out, lndclient.Peer{Pubkey: vertex(n.pub)})
		}
	}
	return f.noisyPeers(out), nil
}

func (f *fakeLnd) Connect(ctx context.Context, v route.Vertex, host string,
	permanent bool) error {

	f.record(call{Op: "connect", Key: v, Host: host, Flag: permanent})
	if err := f.before(ctx, "connect"); err != nil {
		return err
	}
	if f.connect != nil {
		return f.connect(ctx, v, host)
	}
	return nil
}

func (f *fakeLnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	f.record(call{Op: "info"})
	if f.info != nil {
		return f.info()
	}
	i := &lndclient.Info{Alias: "fake", Network: "regtest"}
	copy(i.IdentityPubkey[:], f.node.pub.SerializeCompressed())
	return i, nil
}

func (f *fakeLnd) QueryRoutes(ctx context.Context,
	r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {

	f.record(call{Op: "queryroutes", Key: r.PubKey, QR: r})
	if err := f.before(ctx, "queryroutes"); err != nil {
		return nil, err
	}
	if f.routes == nil {
		return nil, lndclient.ErrNoRouteFound
	}
	q, err := f.routes(r)
	return f.noisyRoute(q), err
}

func (f *fakeLnd) ListChannels(ctx context.Context, activeOnly,
	publicOnly bool) ([]lndclient.ChannelInfo, error) {

	f.record(call{Op: "channels", Flag: activeOnly})
	if err := f.before(ctx, "channels"); err != nil {
		return nil, err
	}
	if f.channels == nil {
		return nil, nil
	}
	cs, err := f.channels(activeOnly, publicOnly)
	return f.noisyChannels(cs), err
}

// fakeSigner computes shared keys the way lnd's signer does: with the key the
// locator names.
type fakeSigner struct {
	lndclient.SignerClient
	lnd *fakeLnd
}

func (s *fakeSigner) DeriveSharedKey(ctx context.Context,
	p *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {

	if err := ctx.Err(); err != nil {
		return [32]byte{}, err
	}
	if s.lnd.signErr != nil {
		if err := s.lnd.signErr(); err != nil {
			return [32]byte{}, err
		}
	}
	k := s.lnd.node.priv
	if loc != nil && (loc.Family != keychain.KeyFamilyNodeKey ||
		loc.Index != 0) {

		s.lnd.mu.Lock()
		s.lnd.wrongKeyed++
		s.lnd.mu.Unlock()
		k = priv(7_000_000 + int(loc.Family)*1000 + int(loc.Index))
	}
	return (&sphinx.PrivKeyECDH{PrivKey: k}).ECDH(p)
}

// simNode is one node of a simulated network: the real messenger (or server)
// on top of a fake lnd.
type simNode struct {
	id   int
	net  *simNet
	priv *btcec.PrivateKey
	pub  *btcec.PublicKey
	lnd  *fakeLnd
	ecdh *onionmsg.NodeECDH
	m    *onionmsg.Messenger
	srv  *rpcserver.Server

	mu        sync.Mutex
	got       []delivery
	shutdowns []error
	down      chan struct{}
	// kept is what handlers were given, next to a copy made then.
	kept []keptDelivery
	// downHold, if set, holds up whoever asks for shutdown.
	downHold chan struct{}
}

type simNet struct {
	c     *C
	nodes []*simNode

	mu     sync.Mutex
	wire   []wireMsg
	queue  []wireMsg
	strays []wireMsg
	onSend func(wireMsg)
}

// nodeKey is the identity of node i of every simulated network.
func nodeKey(i int) *btcec.PrivateKey { return priv(100_000 + i) }

func newNet(c *C) *simNet { return &simNet{c: c} }

// bare adds a node that is not running.
func (n *simNet) bare() *simNode {
	id := len(n.nodes)
	node := &simNode{
		id: id, net: n, priv: nodeKey(id), pub: nodeKey(id).PubKey(),
		down: make(chan struct{}),
	}
	node.lnd = &fakeLnd{
		node: node,
		msgs: make(chan lndclient.CustomMessage),
		errs: make(chan error),
	}
	n.nodes = append(n.nodes, node)
	return node
}

func (s *simNode) shutdown(err error) {
	s.mu.Lock()
	s.shutdowns = append(s.shutdowns, err)
	if len(s.shutdowns) == 1 {
		close(s.down)
	}
	hold := s.downHold
	s.mu.Unlock()
	if hold != nil {
		<-hold
	}
}

func (s *simNode) shutdownErrs() []error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]error{}, s.shutdowns...)
}

// lookups are the calls that ask lnd about the network or change it. Opening
// the message stream and reading the node's own identity are not among them.
func (f *fakeLnd) lookups() []call {
	return f.calls("send", "nodeinfo", "peers", "connect", "queryroutes",
		"channels")
}

// messenger gives a bare node its messenger.
func (n *simNet) messenger() *simNode {
	s := n.bare()
	var err error
	s.ecdh, err = newECDH(s)
	if err != nil {
		n.c.Failf("creating the node's key operations: %v", err)
	}
	s.m = onionmsg.NewOnionMessenger(
		&chaincfg.RegressionNetParams, s.lnd, s.ecdh, s.shutdown,
	)
	return s
}

// newECDH is key operations with the node's key.
func newECDH(s *simNode) (*onionmsg.NodeECDH, error) {
	return onionmsg.NewNodeECDH(s.lnd, &fakeSigner{lnd: s.lnd})
}

// run adds a node with a started messenger.
func (n *simNet) run() *simNode {
	s := n.messenger()
	if err := s.m.Start(); err != nil {
		n.c.Failf("start: %v", err)
	}
	n.c.Cleanup(func() { within(20*time.Second, func() { _ = s.m.Stop() }) })
	return s
}

func (s *simNode) services() *lndclient.LndServices {
	return &lndclient.LndServices{
		Client:      s.lnd,
		Signer:      &fakeSigner{lnd: s.lnd},
		ChainParams: &chaincfg.RegressionNetParams,
		NodeAlias:   "fake",
		NodePubkey:  vertex(s.pub),
		Version:     &verrpc.Version{},
	}
}

// server adds a node with an RPC server that is not started.
func (n *simNet) server() *simNode {
	s := n.bare()
	var err error
	s.srv, err = rpcserver.NewServer(s.shutdown)
	if err != nil {
		n.c.Failf("new server: %v", err)
	}
	return s
}

// runServer adds a node with a started RPC server.
func (n *simNet) runServer() *simNode {
	s := n.server()
	if err := s.srv.Start(s.services()); err != nil {
		n.c.Failf("server start: %v", err)
	}
	n.c.Cleanup(func() { within(20*time.Second, func() { _ = s.srv.Stop() }) })
	return s
}

func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// mustEnd runs f, which needs nothing but processor time to end.
func (c *C) mustEnd(what string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	c.awaitDone(what, done)
}

func (c *C) awaitDone(what string, done <-chan struct{}) {
	select {
	case <-done:
	case <-time.After(stuckAfter):
		select {
		case <-done:
			return
		default:
		}
		c.stuck(what, done)
	}
}

var reGoroutine = regexp.MustCompile(`(?m)^goroutine (\d+) \[([^\]]*)\]:$`)

// boltndGoroutines lists the live goroutines that are in (or were started by)
// the code under test, as id -> state and stack.
func boltndGoroutines() map[string]string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := reGoroutine.FindStringSubmatch(g)
		if m != nil && strings.Contains(g, "github.com/carlakc/boltnd/") {
			out[m[1]] = g
		}
	}
	return out
}

// stuck decides whether something that did not happen never will: it reports a
// violation if every goroutine of the code under test stays blocked.
func (c *C) stuck(what string, done <-chan struct{}) {
	var stacks string
	for i := 0; i < 8; i++ {
		stacks = ""
		for _, g := range boltndGoroutines() {
			st := reGoroutine.FindStringSubmatch(g)[2]
			if strings.HasPrefix(st, "run") ||
				strings.HasPrefix(st, "syscall") ||
				strings.HasPrefix(st, "sleep") {

				c.Inconclusive("%s did not end in %v, but is "+
					"not blocked:\n%s", what, stuckAfter, g)
			}
			stacks += g + "\n\n"
		}
		time.Sleep(250 * time.Millisecond)
		select {
		case <-done:
			return
		default:
		}
	}
	c.Failf("%s never ends: everything is blocked\n%.3000s", what, stacks)
}

// push hands a custom message to a node the way lnd's stream does.
func (s *simNode) push(from route.Vertex, typ uint32, data []byte) {
	c := s.net.c
	m := lndclient.CustomMessage{Peer: from, MsgType: typ, Data: data}
	select {
	case s.lnd.msgs <- m:
		return
	default:
	}
	timer := time.NewTimer(stuckAfter)
	defer timer.Stop()
	select {
	case s.lnd.msgs <- m:
	case <-s.down:
		c.Failf("node %d asked for shutdown: %v", s.id, s.shutdownErrs())
	case <-timer.C:
		done := make(chan struct{})
		go func() {
			s.lnd.msgs <- m
			close(done)
		}()
		c.stuck(fmt.Sprintf("handing a message to node %d", s.id), done)
	}
}

// barrier returns when the node has taken everything pushed before.
func (s *simNode) barrier() { s.push(route.Vertex{}, otherType, nil) }

// deliver takes the i-th queued message (modulo the queue length) to the node
// it is addressed to and waits until it has been handled.
func (n *simNet) deliver(i int) bool {
	n.mu.Lock()
	if len(n.queue) == 0 {
		n.mu.Unlock()
		return false
	}
	i %= len(n.queue)
	w := n.queue[i]
	n.queue = append(n.queue[:i:i], n.queue[i+1:]...)
	var to *simNode
	for _, s := range n.nodes {
		if vertex(s.pub) == w.To {
			to = s
		}
	}
	if to == nil || (to.m == nil && to.srv == nil) {
		n.strays = append(n.strays, w)
		n.mu.Unlock()
		return true
	}
	n.mu.Unlock()
	to.push(vertex(n.nodes[w.From].pub), w.Type, w.Data)
	to.barrier()
	return true
}

// drain delivers everything in order until nothing is queued.
func (n *simNet) drain() {
	for i := 0; n.deliver(0); i++ {
		if i > 5000 {
			n.c.Failf("messages keep being forwarded: more than 5000 " +
				"deliveries")
		}
	}
}

// settle drains until ok or until waiting longer makes no sense.
func (n *simNet) settle(ok func() bool) {
	n.drain()
	if ok() {
		return
	}
	for i := 0; i < 60; i++ {
		time.Sleep(time.Duration(i*3+1) * time.Millisecond)
		n.drain()
		if ok() {
			return
		}
	}
}

func (n *simNet) wireLog() []wireMsg {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]wireMsg{}, n.wire...)
}

type keptDelivery struct {
	value []byte
	reply *lnwire.ReplyPath
	was   delivery
}

// changed says whether something that a handler was given changed later.
func (s *simNode) changed() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range s.kept {
		if !bytes.Equal(k.value, k.was.Value) ||
			!samePath(k.reply, k.was.Reply) {

			return fmt.Sprintf("what the handler for type %d was given "+
				"changed after it returned: %x, was %x", k.was.Type,
				k.value, k.was.Value)
		}
	}
	return ""
}

// handler makes a recording handler.
func (s *simNode) handler(typ uint64, tag int,
	fail func(value []byte) error) onionmsg.OnionMessageHandler {

	return func(r *lnwire.ReplyPath, enc []byte, v []byte) error {
		s.mu.Lock()
		d := delivery{
			typ, append([]byte{}, v...), clonePath(r), tag,
			append([]byte{}, enc...),
		}
		s.got = append(s.got, d)
		if len(s.kept) < 5000 {
			s.kept = append(s.kept, keptDelivery{v, r, d})
		}
		s.mu.Unlock()
		if fail != nil {
			return fail(v)
		}
		return nil
	}
}

// listen registers recording handlers.
func (s *simNode) listen(types ...uint64) {
	for _, t := range types {
		err := s.m.RegisterHandler(tlv.Type(t), s.handler(t, 0, nil))
		if err != nil {
			s.net.c.Failf("registering a handler for type %d on a "+
				"running node: %v", t, err)
		}
	}
}

func (s *simNode) deliveries() []delivery {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]delivery{}, s.got...)
}

func clonePath(r *lnwire.ReplyPath) *lnwire.ReplyPath {
	if r == nil {
		return nil
	}
	out := &lnwire.ReplyPath{
		FirstNodeID: r.FirstNodeID, BlindingPoint: r.BlindingPoint,
	}
	for _, h := range r.Hops {
		out.Hops = append(out.Hops, &lnwire.BlindedHop{
			BlindedNodeID: h.BlindedNodeID,
			EncryptedData: append([]byte{}, h.EncryptedData...),
		})
	}
	return out
}

// diffDeliveries compares deliveries as multisets.
func diffDeliveries(got, want []delivery) string {
	count := map[string]int{}
	byKey := map[string]delivery{}
	for _, w := range want {
		count[w.key()]++
		byKey[w.key()] = w
	}
	for _, g := range got {
		count[g.key()]--
		byKey[g.key()] = g
	}
	for k, n := range count {
		switch {
		case n > 0:
			return fmt.Sprintf("missing delivery of %s (%d got, %d "+
				"expected in all)", byKey[k], len(got), len(want))
		case n < 0:
			return fmt.Sprintf("unexpected delivery of %s (%d got, %d "+
				"expected in all)", byKey[k], len(got), len(want))
		}
	}
	return ""
}

// hopsOf makes lnd's answer to a route query.
func hopsOf(keys ...*btcec.PublicKey) *lndclient.QueryRoutesResponse {
	r := &lndclient.QueryRoutesResponse{TotalAmtMsat: 1000}
	for i, k := range keys {
		v := vertex(k)
		r.Hops = append(r.Hops, &lndclient.Hop{
			ChannelID: uint64(i + 1), PubKey: &v,
			AmtToForwardMsat: 1000,
		})
	}
	return r
}

// ---------------------------------------------------------------------------
// Reference onion construction and processing.

// refRouteData is the documented layout of blinded route data.
func refRouteData(pad int, next, override *btcec.PublicKey) []byte {
	var rs []Rec
	if pad > 0 {
		rs = append(rs, Rec{1, make([]byte, pad-1)})
	}
	if next != nil {
		rs = append(rs, Rec{4, next.SerializeCompressed()})
	}
	if override != nil {
		rs = append(rs, Rec{8, override.SerializeCompressed()})
	}
	return encodeRecs(rs)
}

// refPayload is the documented layout of an onion message payload.
func refPayload(reply *lnwire.ReplyPath, enc []byte, finals []finalPlan) []byte {
	var rs []Rec
	if reply != nil {
		rs = append(rs, Rec{2, refReplyPath(reply)})
	}
	if len(enc) > 0 {
		rs = append(rs, Rec{4, enc})
	}
	for _, f := range finals {
		rs = append(rs, Rec{f.T, f.V.Bytes()})
	}
	sortRecs(rs)
	return encodeRecs(rs)
}

// hopSize is the space a hop with a payload of n bytes takes in a packet.
func hopSize(n int) int { return len(bigSize(uint64(n))) + n + 32 }

// refRoute blinds a path of real nodes; pads adds padding to hop i's data.
func refRoute(session *btcec.PrivateKey, nodes []*btcec.PublicKey,
	pads []int) *lnwire.ReplyPath {

	var hops []*sphinx.BlindedPathHop
	for i, n := range nodes {
		h := &sphinx.BlindedPathHop{NodePub: n}
		pad := 0
		if i < len(pads) {
			pad = pads[i]
		}
		if i+1 < len(nodes) {
			h.Payload = refRouteData(pad, nodes[i+1], nil)
		} else if pad > 0 {
			h.Payload = refRouteData(pad, nil, nil)
		}
		hops = append(hops, h)
	}
	bp, err := sphinx.BuildBlindedPath(session, hops)
	if err != nil {
		panic(harnessError{"reference blinded path: " + err.Error()})
	}
	return fromSphinx(bp)
}

func fromSphinx(bp *sphinx.BlindedPath) *lnwire.ReplyPath {
	r := &lnwire.ReplyPath{
		FirstNodeID:   bp.IntroductionPoint,
		BlindingPoint: bp.BlindingPoint,
	}
	for i, h := range bp.BlindedHops {
		r.Hops = append(r.Hops, &lnwire.BlindedHop{
			BlindedNodeID: h, EncryptedData: bp.EncryptedData[i],
		})
	}
	return r
}

// refSend computes the packet space a message needs: lead is the clear path,
// dest the blinded destination the last node of lead introduces, if any.
func refSize(lead int, dest *lnwire.ReplyPath, reply *lnwire.ReplyPath,
	finals []finalPlan) (size, hops int) {

	const plain, joint = 35 + 16, 70 + 16
	last := func(enc int) {
		size += hopSize(len(refPayload(reply, make([]byte, enc), finals)))
		hops++
	}
	relay := func(enc int) {
		size += hopSize(len(encodeRec(Rec{4, make([]byte, enc)})))
		hops++
	}
	if dest == nil {
		for i := 0; i < lead-1; i++ {
			relay(plain)
		}
		last(16)
		return
	}
	for i := 0; i < lead-1; i++ {
		if i == lead-2 {
			relay(joint)
		} else {
			relay(plain)
		}
	}
	for i, h := range dest.Hops {
		if i == len(dest.Hops)-1 {
			last(len(h.EncryptedData))
		} else if len(h.EncryptedData) > 0 {
			relay(len(h.EncryptedData))
		} else {
			size += hopSize(0)
			hops++
		}
	}
	return
}

// refRouter is an independent implementation of a node: key and replay log.
type refRouter struct {
	ecdh   *sphinx.PrivKeyECDH
	router *sphinx.Router
}

func newRefRouter(k *btcec.PrivateKey) *refRouter {
	e := &sphinx.PrivKeyECDH{PrivKey: k}
	r := sphinx.NewRouter(
		e, &chaincfg.RegressionNetParams, sphinx.NewMemoryReplayLog(),
	)
	_ = r.Start()
	return &refRouter{e, r}
}

// peeled is what a node finds in an onion message.
type peeled struct {
	Final bool
	// Recs are the records of this hop's payload.
	Recs []Rec
	// Data is the decrypted route data, nil if there is none or if it does
	// not decrypt.
	Data     []Rec
	DataErr  error
	Next     *btcec.PublicKey
	Override *btcec.PublicKey
	// NextWire is the message for the next node, as it should be sent.
	NextWire []byte
	Blinding *btcec.PublicKey
	Raw      []byte
	// Rest is what is left of the packet without this hop's part, as this
	// hop can read it.
	Rest []byte
}

var errOnion = errors.New("not an onion message for this node")

// splitWire takes an onion message apart.
func splitWire(b []byte) (blinding *btcec.PublicKey, onion []byte, err error) {
	if len(b) < 35 {
		return nil, nil, errOnion
	}
	blinding, err = btcec.ParsePubKey(b[:33])
	if err != nil {
		return nil, nil, errOnion
	}
	n := int(b[33])<<8 | int(b[34])
	if len(b) < 35+n {
		return nil, nil, errOnion
	}
	return blinding, b[35 : 35+n], nil
}

func joinWire(blinding *btcec.PublicKey, onion []byte) []byte {
	out := append([]byte{}, blinding.SerializeCompressed()...)
	out = append(out, u16(len(onion))...)
	return append(out, onion...)
}

// peel processes a message the way the node with this router must.
func (r *refRouter) peel(wire []byte) (*peeled, error) {
	blinding, onion, err := splitWire(wire)
	if err != nil {
		return nil, err
	}
	pkt := &sphinx.OnionPacket{}
	if err := pkt.Decode(bytes.NewReader(onion)); err != nil {
		return nil, err
	}
	pp, err := r.router.ProcessOnionPacket(pkt, nil, 0, blinding)
	if err != nil {
		return nil, err
	}
	p := &peeled{
		Final: pp.Action == sphinx.ExitNode, Blinding: blinding,
		Raw: pp.Payload.Payload,
	}
	if pp.NextPacket != nil {
		p.Rest = append([]byte{}, pp.NextPacket.RoutingInfo[:]...)
	}
	p.Recs, err = parseRecs(pp.Payload.Payload)
	if err != nil {
		return p, err
	}
	if p.Final {
		return p, nil
	}
	enc := findRec(p.Recs, 4)
	if enc == nil || len(enc.V) == 0 {
		p.DataErr = errors.New("no route data")
		return p, nil
	}
	plain, err := sphinx.DecryptBlindedData(r.ecdh, blinding, enc.V)
	if err != nil {
		p.DataErr = err
		return p, nil
	}
	data, err := parseRecs(plain)
	if err != nil {
		p.DataErr = err
		return p, nil
	}
	p.Data = data
	for _, rec := range data {
		if rec.T != 4 && rec.T != 8 {
			continue
		}
		if len(rec.V) != 33 {
			p.DataErr = errors.New("bad key")
			return p, nil
		}
		k, err := btcec.ParsePubKey(rec.V)
		if err != nil {
			p.DataErr = err
			return p, nil
		}
		if rec.T == 4 {
			p.Next = k
		} else {
			p.Override = k
		}
	}
	next := p.Override
	if next == nil {
		next, err = sphinx.NextEphemeral(r.ecdh, blinding)
		if err != nil {
			return p, err
		}
	}
	var buf bytes.Buffer
	if err := pp.NextPacket.Encode(&buf); err != nil {
		return p, err
	}
	p.NextWire = joinWire(next, buf.Bytes())
	return p, nil
}

// finalsOf extracts the final records and reply path of a payload.
func finalsOf(rs []Rec) (finals []Rec, reply *lnwire.ReplyPath, bad bool) {
	for _, r := range rs {
		if r.T >= 64 {
			finals = append(finals, r)
		}
	}
	if r := findRec(rs, 2); r != nil {
		reply = parseReplyPath(r.V)
		bad = reply == nil
	}
	return
}

// makeOnion builds an onion message for a path of nodes with given payloads.
func makeOnion(session *btcec.PrivateKey, blinding *btcec.PublicKey,
	nodes []*btcec.PublicKey, payloads [][]byte) ([]byte, error) {

	var path sphinx.PaymentPath
	for i, n := range nodes {
		path[i] = sphinx.OnionHop{
			NodePub: *n,
			HopPayload: sphinx.HopPayload{
				Type: sphinx.PayloadTLV, Payload: payloads[i],
			},
		}
	}
	pkt, err := sphinx.NewOnionPacket(
		&path, session, nil, sphinx.DeterministicPacketFiller,
	)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := pkt.Encode(&buf); err != nil {
		return nil, err
	}
	return joinWire(blinding, buf.Bytes()), nil
}

// clearMessage is a reference onion message along a clear path of nodes.
func clearMessage(session, blindingKey *btcec.PrivateKey,
	nodes []*btcec.PublicKey, reply *lnwire.ReplyPath,
	finals []finalPlan) []byte {

	r := refRoute(blindingKey, nodes, nil)
	return blindedMessage(session, r, reply, finals)
}

// blindedMessage is a reference onion message straight to a blinded route.
func blindedMessage(session *btcec.PrivateKey, r *lnwire.ReplyPath,
	reply *lnwire.ReplyPath, finals []finalPlan) []byte {

	var (
		keys     []*btcec.PublicKey
		payloads [][]byte
	)
	for i, h := range r.Hops {
		keys = append(keys, h.BlindedNodeID)
		if i == len(r.Hops)-1 {
			payloads = append(payloads, refPayload(
				reply, h.EncryptedData, finals,
			))
		} else {
			payloads = append(payloads, refPayload(
				nil, h.EncryptedData, nil,
			))
		}
	}
	b, err := makeOnion(session, r.BlindingPoint, keys, payloads)
	if err != nil {
		panic(harnessError{"reference onion: " + err.Error()})
	}
	return b
}

func featureBits(bits []uint16) []lndwire.FeatureBit {
	var out []lndwire.FeatureBit
	for _, b := range bits {
		out = append(out, lndwire.FeatureBit(b))
	}
	return out
}

func sleepMs(n int) { time.Sleep(time.Duration(n) * time.Millisecond) }
