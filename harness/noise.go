package main

import (
	"hash/fnv"
	"math/rand"
	"reflect"
	"time"

	"github.com/lightninglabs/lndclient"
)

// lnd says much more in its answers than matters to what this repository
// promises. Noise fills in the rest, so that nothing can come to depend on it
// unnoticed.

// fill gives the fields of a struct that are zero arbitrary values, except for
// those named and for pointers, slices and interfaces.
func fill(r *rand.Rand, s interface{}, except ...string) {
	v := reflect.ValueOf(s).Elem()
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if skip[v.Type().Field(i).Name] || !f.CanSet() || !f.IsZero() {
			continue
		}
		if r.Intn(4) == 0 {
			continue
		}
		if f.Type() == reflect.TypeOf(time.Time{}) {
			f.Set(reflect.ValueOf(time.Unix(r.Int63n(2e9), 0)))
			continue
		}
		switch f.Kind() {
		case reflect.Bool:
			f.SetBool(r.Intn(2) == 0)
		case reflect.Int, reflect.Int32, reflect.Int64:
			f.SetInt(r.Int63n(1 << uint(1+r.Intn(30))))
		case reflect.Uint32, reflect.Uint64:
			f.SetUint(uint64(r.Int63n(1 << uint(1+r.Intn(30)))))
		case reflect.String:
			f.SetString([]string{"a", "node", "🔥", "0000:1"}[r.Intn(4)])
		case reflect.Array:
			for j := 0; j < f.Len(); j++ {
				f.Index(j).SetUint(uint64(r.Intn(256)))
			}
		}
	}
}

// noiseFor is the source of noise for a key in the answers of one lnd.
func (f *fakeLnd) noiseFor(key []byte) *rand.Rand {
	h := fnv.New64a()
	_, _ = h.Write(key)
	_, _ = h.Write([]byte{byte(f.noise), byte(f.noise >> 8)})
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (f *fakeLnd) noisyNode(i *lndclient.NodeInfo) *lndclient.NodeInfo {
	if i == nil {
		return nil
	}
	var key []byte
	if i.Node != nil {
		key = i.Node.PubKey[:]
	}
	r := f.noiseFor(key)
	fill(r, i, "ChannelCount")
	if i.Node != nil {
		fill(r, i.Node, "PubKey")
	}
	for j := range i.Channels {
		fill(r, &i.Channels[j])
	}
	return i
}

func (f *fakeLnd) noisyPeers(ps []lndclient.Peer) []lndclient.Peer {
	for i := range ps {
		fill(f.noiseFor(ps[i].Pubkey[:]), &ps[i], "Pubkey")
	}
	return ps
}

func (f *fakeLnd) noisyChannels(cs []lndclient.ChannelInfo) []lndclient.ChannelInfo {
	for i := range cs {
		r := f.noiseFor([]byte{byte(i)})
		fill(r, &cs[i], "PubKeyBytes", "Active", "Private")
	}
	return cs
}

func (f *fakeLnd) noisyRoute(
	q *lndclient.QueryRoutesResponse) *lndclient.QueryRoutesResponse {

	if q == nil {
		return nil
	}
	r := f.noiseFor([]byte{byte(len(q.Hops))})
	fill(r, q)
	for _, h := range q.Hops {
		if h != nil {
			fill(r, h)
		}
	}
	return q
}
