package main

import (
	"encoding/json"
	"fmt"
	"sync"

	"pgregory.net/rapid"
)

// planTogether is several plans of another check that are run at the same
// time, each a few times, and in a row before that.
type planTogether struct {
	Lives []interface{}
	// Times each is run; they start at random otherwise.
	Times int
}

// together makes a check that runs plans of another one at the same time. What
// is promised of a call does not depend on what else is going on.
func together(base *Sub, quick, thorough int) {
	s := &Sub{
		Prop: base.Prop, Name: base.Name + "-together",
		Quick: quick, Thorough: thorough, Procs: 4,
		Rule: fmt.Sprintf("2 to 8 cases of \"%s\" in a row and then at the "+
			"same time, each 1 to 6 times. Each is judged as there, and what "+
			"it returned is looked at again afterwards. "+
			"Non-trivial: one is.", base.Name),
	}
	s.draw = func(t *rapid.T) interface{} {
		p := planTogether{Times: rapid.IntRange(1, 6).Draw(t, "times")}
		for i := rapid.IntRange(2, 8).Draw(t, "lives"); i > 0; i-- {
			p.Lives = append(p.Lives, base.draw(t))
		}
		return p
	}
	s.load = func(b []byte) (interface{}, error) {
		var raw struct {
			Lives []json.RawMessage
			Times int
		}
		if err := json.Unmarshal(b, &raw); err != nil {
			return nil, err
		}
		p := planTogether{Times: raw.Times}
		for _, l := range raw.Lives {
			v, err := base.load(l)
			if err != nil {
				return nil, err
			}
			p.Lives = append(p.Lives, v)
		}
		return p, nil
	}
	s.run = func(c *C, plan interface{}) {
		var (
			p    = plan.(planTogether)
			gate = make(chan struct{})
			wg   sync.WaitGroup
			bad  = make([]interface{}, len(p.Lives))
		)
		for i, l := range p.Lives {
			func() {
				defer func() {
					if e, ok := caught(recover()).(failure); ok {
						c.Failf("case %d, after others: %s", i,
							e.msg)
					}
				}()
				base.run(c, l)
			}()
		}
		for i, l := range p.Lives {
			i, l := i, l
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { bad[i] = caught(recover()) }()
				<-gate
				for k := 0; k < p.Times; k++ {
					base.run(c, l)
				}
			}()
		}
		c.recheck()
		close(gate)
		done := make(chan struct{})
		go func() {
			wg.Wait()
			close(done)
		}()
		c.awaitDone("calls at the same time", done)
		for i, b := range bad {
			if e, ok := b.(failure); ok {
				c.Failf("case %d, with others at the same time: %s",
					i, e.msg)
			}
			if b != nil {
				panic(b)
			}
		}
		c.recheck()
	}
	subs = append(subs, s)
}

func init() {
	// The files before this one have added their checks.
	for _, s := range append([]*Sub{}, subs...) {
		switch s.Prop + " " + s.Name {
		case "C01 roundtrip":
			together(s, 1000, 20000)
		case "C02 payload":
			together(s, 800, 15000)
		case "C02 onion-message", "C02 route-data":
			together(s, 200, 3000)
		case "C03 decoded":
			together(s, 800, 15000)
		case "C03 records", "C04 bind", "C26 keys":
			together(s, 400, 10000)
		case "C05 accept":
			together(s, 2000, 60000)
		case "C07 terms", "C08 required":
			together(s, 600, 12000)
		case "C11 requests":
			together(s, 300, 5000)
		case "C12 wire":
			together(s, 150, 3000)
		}
	}
}
