package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// planC16 is one life of a messenger. The steps run in the order in which the
// fields stand, unless noted.
type planC16 struct {
	// Early are calls before start: "reg", "dereg", "stop".
	Early []string
	// Starts are calls of Start made at the same time.
	Starts int
	// Open makes the stream fail to open, with error number Err.
	Open bool
	Err  int
	// Delivered messages before anything happens; with how many handlers.
	Msgs, Handlers int
	// Busy has a handler ("handler") or forward ("forward") in progress.
	Busy string
	// Queued messages wait behind the busy one; Pending registrations too.
	Queued, Pending int
	// Death is what happens to the stream: "", "err", "errs closed",
	// "msgs closed"; Late has it happen after Stop was called.
	Death string
	Late  bool
	// Owner has the owner take its time when it is asked to shut down: it
	// returns only before Stop is called.
	Owner bool
	// Stops are calls of Stop made at the same time.
	Stops int
	// Hold is how long, in ms, the busy handler goes on after Stop.
	Hold int
	// After are calls after stop: "reg", "dereg", "start", "stop", "msg".
	After []string
}

var streamErrs = []error{
	errors.New("stream trouble"), context.Canceled,
	context.DeadlineExceeded, io.EOF,
	fmt.Errorf("transport: %w", onionmsg.ErrBadMessage),
	onionmsg.ErrLNDShutdown,
	status.Error(codes.Canceled, "context canceled"),
	status.Error(codes.Unavailable, "transport is closing"),
	status.Error(codes.DeadlineExceeded, "deadline exceeded"),
	status.Error(codes.Aborted, "stream reset"),
	status.Error(codes.Internal, "no such stream"),
	fmt.Errorf("stream: %w", status.Error(codes.Canceled, "canceled")),
}

func drawC16(t *rapid.T) planC16 {
	early := rapid.SampledFrom([]string{"reg", "dereg", "reg", "dereg", "stop"})
	after := rapid.SampledFrom([]string{"reg", "dereg", "start", "stop", "msg"})
	p := planC16{
		Starts:   rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "starts"),
		Err:      rapid.IntRange(0, len(streamErrs)-1).Draw(t, "err"),
		Open:     rapid.IntRange(0, 5).Draw(t, "open") == 0,
		Msgs:     rapid.IntRange(0, 3).Draw(t, "msgs"),
		Handlers: rapid.IntRange(0, 3).Draw(t, "handlers"),
		Busy: rapid.SampledFrom([]string{"", "handler", "handler",
			"forward"}).Draw(t, "busy"),
		Queued:  rapid.IntRange(0, 3).Draw(t, "queued"),
		Pending: rapid.IntRange(0, 4).Draw(t, "pending"),
		Death: rapid.SampledFrom([]string{"", "", "", "err",
			"errs closed", "msgs closed"}).Draw(t, "death"),
		Late:  rapid.IntRange(0, 3).Draw(t, "late") == 0,
		Owner: rapid.Bool().Draw(t, "owner"),
		Stops: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "stops"),
		Hold:  rapid.SampledFrom([]int{0, 0, 1, 5, 20}).Draw(t, "hold"),
		After: rapid.SliceOfN(after, 0, 5).Draw(t, "after"),
	}
	if rapid.IntRange(0, 3).Draw(t, "early?") == 0 {
		p.Early = rapid.SliceOfN(early, 1, 3).Draw(t, "early")
	}
	return p
}

func init() {
	s := Add("C16", "lives", 1600, 40000,
		"Random lives of a messenger: calls before start, concurrent "+
			"starts, handlers and forwards in progress with messages "+
			"and registrations queued behind them, a stream that "+
			"cannot be opened, reports an error or is closed before or "+
			"while stopping, concurrent stops, and calls afterwards. "+
			"Checked: results of every call, when stop returns, that "+
			"nothing runs afterwards, and the shutdown requests. "+
			"Non-trivial: work was in flight when the messenger was "+
			"stopped or its stream died.",
		drawC16, runC16)
	s.Procs = 4
	s.Assume = []string{"a stop that returns in time is one that returns " +
		"while the process makes no progress for 30 s otherwise"}
}

func runC16(c *C, p planC16) {
	before := boltndGoroutines()
	var (
		net      = newNet(c)
		n        = net.messenger()
		next     = net.bare()
		streamMu sync.Mutex
		streams  int
		busy     = make(chan struct{})
		release  = make(chan struct{})
		released bool
		once     sync.Once
		cause    = streamErrs[p.Err%len(streamErrs)]
		serial   = 0
	)
	free := func() {
		if !released {
			released = true
			close(release)
		}
	}
	var ownerBack sync.Once
	letOwner := func() {
		ownerBack.Do(func() {
			if n.downHold != nil {
				close(n.downHold)
			}
		})
	}
	if p.Owner {
		n.downHold = make(chan struct{})
	}
	c.Cleanup(func() {
		free()
		letOwner()
		within(20*time.Second, func() { _ = n.m.Stop() })
	})
	n.lnd.subscribe = func() error {
		streamMu.Lock()
		streams++
		streamMu.Unlock()
		if p.Open {
			return cause
		}
		return nil
	}
	reg := func(op string, t uint64) error {
		return n.register(regOp{Op: op, T: t}, 0)
	}
	msg := func(hop bool, t uint64) []byte {
		serial++
		path := []*btcec.PublicKey{n.pub}
		if hop {
			path = append(path, next.pub)
		}
		return clearMessage(priv(2*serial), priv(2*serial+1), path, nil,
			[]finalPlan{{T: t, V: lit([]byte(fmt.Sprint(serial)))}})
	}

	// Before start.
	stopped := false
	for i, op := range p.Early {
		what := fmt.Sprintf("%s before start (call %d)", op, i)
		var err error
		c.mustEnd(what, func() {
			if op == "stop" {
				err = n.m.Stop()
				return
			}
			err = reg(op, 64)
		})
		switch {
		case op != "stop":
			// Once it is stopped either cause applies.
			if err == nil {
				c.Failf("%s succeeded", what)
			}
			if !stopped {
				wantCause(c, what, err, onionmsg.ErrNotStarted)
			}
		case stopped && err == nil:
			c.Failf("stopping a second time succeeded")
		case op == "stop":
			stopped = true
			c.Class("stopped before start")
		}
	}
	if stopped {
		// Whether it can still be started is not specified; if it can,
		// it must not run.
		letOwner()
		c.mustEnd("start after stop", func() { _ = n.m.Start() })
		noLeftovers(c, before, n)
		return
	}

	// Start.
	ok := 0
	var (
		wg   sync.WaitGroup
		okMu sync.Mutex
	)
	for i := 0; i < p.Starts; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if n.m.Start() == nil {
				okMu.Lock()
				ok++
				okMu.Unlock()
			}
		}()
	}
	c.mustEnd("start", wg.Wait)
	if ok != 1 {
		c.Failf("%d of %d calls to start succeeded", ok, p.Starts)
	}
	var err error
	c.mustEnd("start", func() { err = n.m.Start() })
	if err == nil {
		c.Failf("starting a second time succeeded")
	}

	dead := false
	if p.Open {
		dead = true
		awaitShutdown(c, n, "the stream could not be opened")
		c.Class("stream did not open")
	}

	type pendingReg struct {
		err  error
		done chan struct{}
	}
	var (
		pending  []*pendingReg
		pushers  sync.WaitGroup
		inFlight bool
	)
	if !dead {
		for i := 0; i < p.Handlers; i++ {
			if err := reg("reg", uint64(64+i)); err != nil {
				c.Failf("registering: %v", err)
			}
		}
		for i := 0; i < p.Msgs; i++ {
			n.push(vertex(pub(1)), onionType, msg(i%2 == 1, 64))
			n.barrier()
		}
		if got, want := len(n.deliveries()), (p.Msgs+1)/2; p.Handlers > 0 &&
			got != want {

			c.Failf("%d deliveries, expected %d", got, want)
		}
	}

	// Get it busy.
	if !dead && p.Busy != "" {
		inFlight = true
		hold := func() {
			once.Do(func() { close(busy) })
			<-release
		}
		m := msg(p.Busy == "forward", 100)
		if p.Busy == "handler" {
			err := n.m.RegisterHandler(100, func(*lnwire.ReplyPath,
				[]byte, []byte) error {

				hold()
				return nil
			})
			if err != nil {
				c.Failf("registering: %v", err)
			}
		} else {
			n.lnd.send = func(context.Context,
				lndclient.CustomMessage) error {

				hold()
				return nil
			}
		}
		n.push(vertex(pub(1)), onionType, m)
		c.awaitDone("processing of a message", busy)
		c.Class("busy with a %s", p.Busy)
	}
	quitPush := make(chan struct{})
	c.Cleanup(func() { close(quitPush) })
	if !dead && inFlight && p.Death != "msgs closed" {
		for i := 0; i < p.Queued; i++ {
			m := lndclient.CustomMessage{MsgType: onionType,
				Data: msg(false, 64)}
			pushers.Add(1)
			go func() {
				defer pushers.Done()
				select {
				case n.lnd.msgs <- m:
				case <-quitPush:
				}
			}()
		}
		c.ClassIf(p.Queued > 0, "messages in flight")
	}
	if inFlight || dead {
		for i := 0; i < p.Pending; i++ {
			r := &pendingReg{done: make(chan struct{})}
			op, t := "reg", uint64(200+i)
			if i%2 == 1 {
				op, t = "dereg", 64
			}
			go func() {
				defer close(r.done)
				r.err = reg(op, t)
			}()
			pending = append(pending, r)
		}
		c.ClassIf(p.Pending > 0, "registrations pending")
	}

	kill := func() {
		switch p.Death {
		case "err":
			pushers.Add(1)
			go func() {
				defer pushers.Done()
				select {
				case n.lnd.errs <- cause:
				case <-quitPush:
				}
			}()
		case "errs closed":
			close(n.lnd.errs)
			cause = onionmsg.ErrLNDShutdown
		case "msgs closed":
			close(n.lnd.msgs)
			cause = onionmsg.ErrLNDShutdown
		}
	}
	died := p.Death != "" && !dead
	if died && !p.Late {
		kill()
		c.Class("stream died: %s", p.Death)
		if !inFlight || p.Hold == 0 {
			free()
			awaitShutdown(c, n, "the stream died ("+p.Death+")")
			dead = true
		}
	}

	if dead {
		for i, op := range []string{"reg", "dereg"} {
			what := op + " on a messenger without a stream"
			var err error
			c.mustEnd(what, func() { err = reg(op, uint64(300+i)) })
			if !errors.Is(err, onionmsg.ErrShuttingDown) &&
				!errors.Is(err, onionmsg.ErrLNDShutdown) {

				c.Failf("%s: %v", what, err)
			}
		}
		for _, r := range pending {
			c.awaitDone("a registration pending when the stream died",
				r.done)
		}
		c.ClassIf(p.Owner, "owner takes its time")
	}
	letOwner()

	// Stop.
	if inFlight || dead || died {
		c.NonTrivial()
	}
	var (
		stopDone = make(chan struct{})
		stopOK   int
	)
	go func() {
		defer close(stopDone)
		var wg sync.WaitGroup
		for i := 0; i < p.Stops; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := n.m.Stop()
				select {
				case <-release:
				default:
					if err == nil && inFlight {
						okMu.Lock()
						stopOK += 1000
						okMu.Unlock()
					}
				}
				if err == nil {
					okMu.Lock()
					stopOK++
					okMu.Unlock()
				}
			}()
		}
		wg.Wait()
	}()
	if died && p.Late {
		sleepMs(p.Hold / 4)
		kill()
		c.Class("stream died while stopping: %s", p.Death)
	}
	if inFlight {
		sleepMs(p.Hold)
	}
	free()
	c.awaitDone("stop", stopDone)
	if stopOK >= 1000 {
		c.Failf("stop returned while a %s was still in progress", p.Busy)
	}
	if stopOK != 1 {
		c.Failf("%d of %d calls to stop succeeded", stopOK, p.Stops)
	}
	for i, r := range pending {
		c.awaitDone("a registration pending at stop", r.done)
		// Others may have been served before the end.
		if p.Open && r.err == nil {
			c.Failf("registration %d succeeded on a dead messenger", i)
		}
		if r.err != nil && !errors.Is(r.err, onionmsg.ErrShuttingDown) &&
			!errors.Is(r.err, onionmsg.ErrHandlerNotFound) {

			c.Failf("registration %d pending at stop failed with %v",
				i, r.err)
		}
		c.ClassIf(r.err != nil, "pending registration failed")
	}
	noLeftovers(c, before, n)
	streamReleased(c, n)

	// Afterwards.
	ran := len(n.deliveries())
	for i, op := range p.After {
		what := fmt.Sprintf("%s after stop (call %d)", op, i)
		var err error
		switch op {
		case "msg":
			if p.Death == "msgs closed" {
				continue
			}
			select {
			case n.lnd.msgs <- lndclient.CustomMessage{
				MsgType: onionType, Data: msg(false, 64),
			}:
				// A queued pusher cannot have taken it.
				c.Failf("a stopped messenger takes messages")
			case <-time.After(time.Millisecond):
			}
		case "start", "stop":
			c.mustEnd(what, func() {
				if op == "start" {
					err = n.m.Start()
				} else {
					err = n.m.Stop()
				}
			})
			if err == nil {
				c.Failf("%s succeeded", what)
			}
		default:
			c.mustEnd(what, func() { err = reg(op, 64) })
			wantCause(c, what, err, onionmsg.ErrShuttingDown)
		}
	}
	if len(n.deliveries()) != ran {
		c.Failf("a handler ran after stop returned")
	}
	streamMu.Lock()
	if streams > 1 {
		c.Failf("the message stream was opened %d times", streams)
	}
	streamMu.Unlock()

	// Shutdown requests.
	errs := n.shutdownErrs()
	switch {
	case !dead && !died:
		if len(errs) != 0 {
			c.Failf("a normal stop asked for shutdown: %v", errs)
		}
	case dead && len(errs) != 1 || len(errs) > 1:
		c.Failf("shutdown was asked for %d times: %v", len(errs), errs)
	}
	for _, e := range errs {
		if !errors.Is(e, cause) && !strings.Contains(
			fmt.Sprint(e), cause.Error()) {

			c.Failf("shutdown was asked for with %v, the cause is %v",
				e, cause)
		}
	}
}

func awaitShutdown(c *C, n *simNode, why string) {
	c.awaitDone("asking for shutdown because "+why, n.down)
}

// noLeftovers checks that what the messenger runs has ended.
func noLeftovers(c *C, before map[string]string, n *simNode) {
	var left string
	for i := 0; i < 200; i++ {
		left = ""
		for id, g := range boltndGoroutines() {
			// Calls made by the harness are not the messenger's.
			if _, ok := before[id]; !ok &&
				!strings.Contains(g, "main.runC16") &&
				!strings.Contains(g, "main.runSlow") {

				left = g
			}
		}
		if left == "" {
			return
		}
		time.Sleep(time.Duration(i+1) * time.Millisecond / 2)
	}
	c.Failf("after stop returned there is still work going on:\n%.1500s",
		left)
}

// streamReleased checks that lnd was told that its stream is not needed.
func streamReleased(c *C, n *simNode) {
	n.lnd.mu.Lock()
	ctx := n.lnd.subCtx
	n.lnd.mu.Unlock()
	if ctx == nil {
		return
	}
	select {
	case <-ctx.Done():
	case <-time.After(10 * time.Second):
		c.Failf("after stop returned the message stream from lnd is " +
			"still subscribed to")
	}
}
