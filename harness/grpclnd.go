package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lnrpc"
	"github.com/lightningnetwork/lnd/lnrpc/signrpc"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
)

// grpcLnd is an lnd behind a real gRPC connection: what it offers is reached
// through lndclient.
type grpcLnd struct {
	lnrpc.UnimplementedLightningServer

	priv *btcec.PrivateKey
	lis  *bufconn.Listener
	srv  *grpc.Server

	mu sync.Mutex
	// attempts is how many connections were accepted: a client makes one.
	attempts int
	dials    int
	streams  int
	// outcome says how attempt i goes.
	outcome func(i int) string
	// info is consulted once a connection attempt has passed.
	info func(attempt int) error
	// refuse has dials fail.
	refuse bool

	msgs   chan *lnrpc.CustomMessage
	die    chan error
	peers  []route.Vertex
	hops   []route.Vertex
	sent   []wireMsg
	badKey int
	clean  []func()
}

var (
	lndCertOnce sync.Once
	lndCert     tls.Certificate
)

func newGrpcLnd(c *C, k *btcec.PrivateKey) *grpcLnd {
	lndCertOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(harnessError{err.Error()})
		}
		tpl := &x509.Certificate{
			SerialNumber: big.NewInt(1),
			Subject:      pkix.Name{CommonName: "lnd"},
			NotBefore:    time.Unix(0, 0),
			NotAfter:     time.Unix(1<<33, 0),
			DNSNames:     []string{"lnd"},
		}
		der, err := x509.CreateCertificate(
			rand.Reader, tpl, tpl, &key.PublicKey, key,
		)
		if err != nil {
			panic(harnessError{err.Error()})
		}
		lndCert = tls.Certificate{
			Certificate: [][]byte{der}, PrivateKey: key,
		}
	})
	f := &grpcLnd{
		priv: k,
		lis:  bufconn.Listen(1 << 16),
		srv: grpc.NewServer(grpc.Creds(
			credentials.NewServerTLSFromCert(&lndCert))),
		msgs: make(chan *lnrpc.CustomMessage),
		die:  make(chan error),
	}
	lnrpc.RegisterLightningServer(f.srv, f)
	lnrpc.RegisterStateServer(f.srv, &grpcState{f: f})
	verrpc.RegisterVersionerServer(f.srv, &grpcVersion{f: f})
	signrpc.RegisterSignerServer(f.srv, &grpcSigner{f: f})
	go func() { _ = f.srv.Serve(countingListener{f.lis, f}) }()
	c.Cleanup(func() { within(20*time.Second, f.srv.Stop) })
	return f
}

// config is a client configuration for this lnd.
func (f *grpcLnd) config() *lndclient.LndServicesConfig {
	return &lndclient.LndServicesConfig{
		LndAddress:        "lnd",
		Network:           lndclient.NetworkRegtest,
		CustomMacaroonHex: "00",
		Insecure:          true,
		Dialer: func(context.Context, string) (net.Conn, error) {
			f.mu.Lock()
			f.dials++
			refuse := f.refuse
			f.mu.Unlock()
			if refuse {
				return nil, status.Error(codes.Unavailable,
					"connection refused")
			}
			return f.lis.Dial()
		},
		RPCTimeout: 60 * time.Second,
	}
}

// countingListener numbers the connections, as their clients' addresses.
type countingListener struct {
	net.Listener
	f *grpcLnd
}

type numberedConn struct {
	net.Conn
	n connNumber
}

type connNumber int

func (connNumber) Network() string          { return "number" }
func (n connNumber) String() string         { return fmt.Sprint(int(n)) }
func (n numberedConn) RemoteAddr() net.Addr { return n.n }

func (l countingListener) Accept() (net.Conn, error) {
	conn, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.f.mu.Lock()
	defer l.f.mu.Unlock()
	l.f.attempts++
	return numberedConn{conn, connNumber(l.f.attempts - 1)}, nil
}

// now is how the attempt goes that a call belongs to.
func (f *grpcLnd) now(ctx context.Context) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.outcome == nil {
		return "ok"
	}
	return f.outcome(attemptOf(ctx))
}

// attemptOf is the attempt that a call belongs to.
func attemptOf(ctx context.Context) int {
	p, ok := peer.FromContext(ctx)
	if !ok {
		panic(harnessError{"a call without a peer"})
	}
	n, ok := p.Addr.(connNumber)
	if !ok {
		panic(harnessError{fmt.Sprintf("peer address %T", p.Addr)})
	}
	return int(n)
}

func (f *grpcLnd) GetInfo(ctx context.Context, _ *lnrpc.GetInfoRequest) (
	*lnrpc.GetInfoResponse, error) {

	r := &lnrpc.GetInfoResponse{
		IdentityPubkey: hex.EncodeToString(
			f.priv.PubKey().SerializeCompressed()),
		Alias:         "lnd",
		Chains:        []*lnrpc.Chain{{Chain: "bitcoin", Network: "regtest"}},
		SyncedToChain: true,
	}
	switch f.now(ctx) {
	case "info":
		return nil, status.Error(codes.Internal, "no info")
	case "network":
		r.Chains[0].Network = "mainnet"
	}
	if f.info != nil {
		if err := f.info(attemptOf(ctx)); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func (f *grpcLnd) SubscribeCustomMessages(
	_ *lnrpc.SubscribeCustomMessagesRequest,
	s lnrpc.Lightning_SubscribeCustomMessagesServer) error {

	f.mu.Lock()
	f.streams++
	f.mu.Unlock()
	for {
		select {
		case m := <-f.msgs:
			if err := s.Send(m); err != nil {
				return err
			}
		case err := <-f.die:
			return err
		case <-s.Context().Done():
			return s.Context().Err()
		}
	}
}

func (f *grpcLnd) SendCustomMessage(_ context.Context,
	r *lnrpc.SendCustomMessageRequest) (*lnrpc.SendCustomMessageResponse,
	error) {

	m := wireMsg{Type: r.Type, Data: r.Data}
	copy(m.To[:], r.Peer)
	f.mu.Lock()
	f.sent = append(f.sent, m)
	f.mu.Unlock()
	return &lnrpc.SendCustomMessageResponse{}, nil
}

func (f *grpcLnd) ListPeers(context.Context, *lnrpc.ListPeersRequest) (
	*lnrpc.ListPeersResponse, error) {

	r := &lnrpc.ListPeersResponse{}
	for _, p := range f.peers {
		r.Peers = append(r.Peers, &lnrpc.Peer{PubKey: p.String()})
	}
	return r, nil
}

func (f *grpcLnd) QueryRoutes(_ context.Context, q *lnrpc.QueryRoutesRequest) (
	*lnrpc.QueryRoutesResponse, error) {

	if len(f.hops) == 0 {
		return nil, status.Error(codes.Unknown,
			"unable to find a path to destination")
	}
	if fee, ok := q.FeeLimit.GetLimit().(*lnrpc.FeeLimit_FixedMsat); ok &&
		uint64(fee.FixedMsat) < 1_000_000_000 {

		// Channels charge fees. The largest limits arrive as negative
		// numbers, which lnd turns back.
		return nil, status.Error(codes.Unknown,
			"unable to find a path to destination")
	}
	r := &lnrpc.Route{}
	for i, h := range f.hops {
		r.Hops = append(r.Hops, &lnrpc.Hop{
			ChanId: uint64(i + 1), PubKey: h.String(),
			AmtToForwardMsat: q.AmtMsat,
		})
	}
	return &lnrpc.QueryRoutesResponse{Routes: []*lnrpc.Route{r}}, nil
}

func (f *grpcLnd) ListChannels(context.Context, *lnrpc.ListChannelsRequest) (
	*lnrpc.ListChannelsResponse, error) {

	return &lnrpc.ListChannelsResponse{}, nil
}

type grpcState struct {
	lnrpc.UnimplementedStateServer
	f *grpcLnd
}

func (s *grpcState) SubscribeState(_ *lnrpc.SubscribeStateRequest,
	st lnrpc.State_SubscribeStateServer) error {

	if s.f.now(st.Context()) == "state" {
		return status.Error(codes.Internal, "no state")
	}
	if err := st.Send(&lnrpc.SubscribeStateResponse{
		State: lnrpc.WalletState_SERVER_ACTIVE,
	}); err != nil {
		return err
	}
	<-st.Context().Done()
	return st.Context().Err()
}

type grpcVersion struct {
	verrpc.UnimplementedVersionerServer
	f *grpcLnd
}

func (v *grpcVersion) GetVersion(ctx context.Context, _ *verrpc.VersionRequest) (
	*verrpc.Version, error) {

	r := &verrpc.Version{
		AppMajor: 0, AppMinor: 15, AppPatch: 0,
		BuildTags: append([]string{"extra"}, minTags...),
	}
	switch v.f.now(ctx) {
	case "old":
		r.AppMinor, r.AppPatch = 14, 99
	case "tags":
		r.BuildTags = r.BuildTags[:2]
	case "no version":
		return nil, status.Error(codes.Unimplemented, "unknown service")
	case "new":
		r.AppMinor = 16
	}
	return r, nil
}

type grpcSigner struct {
	signrpc.UnimplementedSignerServer
	f *grpcLnd
}

func (s *grpcSigner) DeriveSharedKey(_ context.Context,
	r *signrpc.SharedKeyRequest) (*signrpc.SharedKeyResponse, error) {

	k := s.f.priv
	if l := r.KeyLoc; l != nil &&
		(l.KeyFamily != int32(keychain.KeyFamilyNodeKey) || l.KeyIndex != 0) {

		s.f.mu.Lock()
		s.f.badKey++
		s.f.mu.Unlock()
		k = priv(8_000_000 + int(l.KeyFamily)*1000 + int(l.KeyIndex))
	}
	p, err := btcec.ParsePubKey(r.EphemeralPubkey)
	if err != nil {
		return nil, status.Error(codes.InvalidArgument, err.Error())
	}
	h, err := (&sphinx.PrivKeyECDH{PrivKey: k}).ECDH(p)
	if err != nil {
		return nil, err
	}
	return &signrpc.SharedKeyResponse{SharedKey: h[:]}, nil
}
