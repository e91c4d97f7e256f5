package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightningnetwork/lnd/keychain"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C26: many key operations at the same time.

type planKeyCrowd struct {
	Node int
	// Points by number, and whether each is the one with the other parity.
	Points []int
	Odd    []bool
	// Workers each do Each operations.
	Workers, Each int
	// FailEvery is how often the signer fails, if at all.
	FailEvery int
	// Yield is how often the signer lets others go first, if at all.
	Yield int
	// Spread says that a worker goes through all points; else it has one.
	Spread bool
}

// tableSigner knows its answers in advance.
type tableSigner struct {
	answers   map[string][32]byte
	failEvery int
	yield     int
	err       error

	mu   sync.Mutex
	asks int
	bad  string
}

func (s *tableSigner) DeriveSharedKey(ctx context.Context, p *btcec.PublicKey,
	loc *keychain.KeyLocator) ([32]byte, error) {

	key := string(p.SerializeCompressed())
	s.mu.Lock()
	s.asks++
	n := s.asks
	answer, ok := s.answers[key]
	if !ok || loc == nil || *loc != (keychain.KeyLocator{Family: 6}) {
		s.bad = fmt.Sprintf("the signer was asked for key %v and point %x",
			loc, key)
	}
	s.mu.Unlock()
	if s.yield > 0 && n%s.yield == 0 {
		runtime.Gosched()
	}
	if err := ctx.Err(); err != nil {
		return [32]byte{}, err
	}
	if s.failEvery > 0 && n%s.failEvery == 0 {
		return [32]byte{}, s.err
	}
	return answer, nil
}

func runKeyCrowd(c *C, p planKeyCrowd) {
	var (
		net    = newNet(c)
		n      = net.bare()
		k      = priv(p.Node)
		points = make([]*btcec.PublicKey, len(p.Points))
		want   = make([][32]byte, len(p.Points))
		signer = &tableSigner{
			answers:   map[string][32]byte{},
			failEvery: p.FailEvery, yield: p.Yield,
			err: errors.New("the signer is busy"),
		}
		bad  = make([]interface{}, p.Workers)
		gate = make(chan struct{})
		wg   sync.WaitGroup
	)
	n.priv, n.pub = k, k.PubKey()
	for i := range points {
		points[i] = priv(p.Points[i]).PubKey()
		if p.Odd[i] {
			raw := points[i].SerializeCompressed()
			raw[0] ^= 1
			pk, err := btcec.ParsePubKey(raw)
			if err != nil {
				panic(harnessError{err.Error()})
			}
			points[i] = pk
		}
		want[i] = refECDH(k, points[i])
		signer.answers[string(points[i].SerializeCompressed())] = want[i]
	}
	ecdh, err := onionmsg.NewNodeECDH(n.lnd, signer)
	if err != nil {
		c.Failf("key operations: %v", err)
	}
	for w := 0; w < p.Workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[w] = caught(r)
				}
			}()
			<-gate
			for i := 0; i < p.Each; i++ {
				at := w % len(points)
				if p.Spread {
					at = (w + i) % len(points)
				}
				got, err := ecdh.ECDH(points[at])
				switch {
				case err != nil && !carries(err, signer.err):
					c.Failf("worker %d, operation %d: %v", w, i,
						err)
				case err != nil && p.FailEvery == 0:
					c.Failf("worker %d, operation %d failed", w,
						i)
				case err == nil && got != want[at]:
					c.Failf("worker %d, operation %d: ECDH "+
						"with %x is %x, expected %x", w, i,
						points[at].SerializeCompressed(),
						got, want[at])
				}
				if !ecdh.PubKey().IsEqual(n.pub) {
					c.Failf("the reported key is %x",
						ecdh.PubKey().SerializeCompressed())
				}
			}
		}()
	}
	close(gate)
	c.mustEnd("key operations at the same time", wg.Wait)
	for _, b := range bad {
		if b != nil {
			panic(b)
		}
	}
	if signer.bad != "" {
		c.Failf("%s, expected the node key and one of the points",
			signer.bad)
	}
	c.ClassIf(p.FailEvery > 0, "failing now and then")
	if len(points) > 1 {
		c.NonTrivial()
	}
}

func init() {
	s := Add("C26", "crowd", 400, 12000,
		"2 to 32 goroutines that do 20 to 400 key operations each, at the "+
			"same time, with 1 to 6 points, of a signer that may fail or "+
			"let others go first every few times. Each answer must be the "+
			"one for its point, or the signer's error. Non-trivial: there "+
			"are two points.",
		func(t *rapid.T) planKeyCrowd {
			p := planKeyCrowd{
				Node:    rapid.IntRange(0, 60).Draw(t, "node"),
				Workers: rapid.IntRange(2, 32).Draw(t, "workers"),
				Each: rapid.SampledFrom([]int{20, 100, 400}).
					Draw(t, "each"),
				Spread: rapid.Bool().Draw(t, "spread"),
			}
			for i := rapid.IntRange(1, 6).Draw(t, "points"); i > 0; i-- {
				p.Points = append(p.Points,
					rapid.IntRange(100, 200).Draw(t, "point"))
				p.Odd = append(p.Odd, rapid.Bool().Draw(t, "odd"))
			}
			if rapid.Bool().Draw(t, "fails") {
				p.FailEvery = rapid.IntRange(2, 50).Draw(t, "every")
			}
			if rapid.Bool().Draw(t, "yields") {
				p.Yield = rapid.IntRange(1, 20).Draw(t, "yield")
			}
			return p
		}, runKeyCrowd)
	s.Procs = 4
}
