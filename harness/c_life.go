package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register("C18", "concurrent registrations and deregistrations of "+
		"handlers for a few types, with messages arriving meanwhile; "+
		"the recorded history of each type is checked for "+
		"linearizability; non-trivial when the history's shape is new",
		runC18)
	register("C19", "orders of starting, stopping, stream failures and "+
		"pending calls, sequential and concurrent; non-trivial when "+
		"the scenario and its outcome are new", runC19)
}

// clock orders the events of a history.
type clock struct{ n int64 }

func (c *clock) tick() int64 { return atomic.AddInt64(&c.n, 1) }

func runC18(v *V) {
	loud()
	v.Cases("histories", 8, v.N(400, 6000), func(i int, r *rand.Rand) {
		// The default GOMAXPROCS gives real parallelism.
		p := newProbe(r)
		defer p.stop()
		rounds := 6
		types := []uint64{64, 65, 1 << 40}[:1+r.Intn(3)]
		workers := 2 + r.Intn(5)
		var ck clock
		var mu sync.Mutex
		hist := map[uint64][]linOp{}
		// Every message is a value; its delivery is recorded with the
		// handler that got it.
		type hit struct {
			h  int
			at int64
		}
		hits := map[string][]hit{}
		handler := func(id int) onionmsg.OnionMessageHandler {
			return func(_ *lnwire.ReplyPath, _, val []byte) error {
				at := ck.tick()
				mu.Lock()
				hits[string(val)] = append(hits[string(val)],
					hit{id, at})
				mu.Unlock()
				return nil
			}
		}
		var nextID int64
		var unexpected atomic.Value

		for round := 0; round < rounds; round++ {
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				wr := rand.New(rand.NewSource(r.Int63()))
				go func() {
					defer wg.Done()
					for k := 0; k < 3; k++ {
						t := types[wr.Intn(len(types))]
						op := linOp{kind: "deregister"}
						if wr.Intn(2) == 0 {
							op.kind = "register"
							op.arg = int(atomic.AddInt64(
								&nextID, 1))
						}
						spin(wr)
						op.call = ck.tick()
						var err, no error
						if op.kind == "register" {
							err = p.m.RegisterHandler(
								tlvType(t),
								handler(op.arg))
							no = onionmsg.ErrHandlerRegistered
						} else {
							err = p.m.DeregisterHandler(
								tlvType(t))
							no = onionmsg.ErrHandlerNotFound
						}
						op.ret = ck.tick()
						op.ok = err == nil
						if err != nil && !strings.Contains(
							err.Error(), no.Error()) {

							unexpected.Store(err.Error())
						}
						mu.Lock()
						hist[t] = append(hist[t], op)
						mu.Unlock()
					}
				}()
			}
			// Messages arrive at the same time.
			type msg struct {
				t   uint64
				val []byte
				at  int64
			}
			var msgs []msg
			for k := r.Intn(4); k > 0; k-- {
				t := types[r.Intn(len(types))]
				m := msg{t, rbytes(r, 16), 0}
				data := p.toSelf(r, nil, []rec{{t, m.val}})
				m.at = ck.tick()
				p.lnd.inject(p.peer, onionType, data)
				msgs = append(msgs, m)
				spin(r)
			}
			within("concurrent registrations", wg.Wait)
			p.flush()
			end := ck.tick()
			mu.Lock()
			for _, m := range msgs {
				hs := hits[string(m.val)]
				if len(hs) > 1 {
					mu.Unlock()
					Fail("a payload was delivered %d times",
						len(hs))
				}
				op := linOp{kind: "deliver", call: m.at,
					ret: end}
				if len(hs) == 1 {
					op.got, op.ret = hs[0].h, hs[0].at
					v.Count("deliveries", 1)
				} else {
					v.Count("unhandled", 1)
				}
				hist[m.t] = append(hist[m.t], op)
			}
			mu.Unlock()
		}
		if e := unexpected.Load(); e != nil {
			Fail("unexpected error: %v", e)
		}
		for t, ops := range hist {
			if !linearizable(ops) {
				Fail("the history of type %d is not "+
					"linearizable:\n%s", t, history(ops))
			}
			shape, conc := "", 0
			for j, o := range ops {
				shape += o.kind[:1] + fmt.Sprint(o.ok)[:1]
				if o.got != 0 {
					shape += "!"
				}
				if j > 0 && o.call < ops[j-1].ret {
					conc++
					shape += "|"
				}
				v.Count(fmt.Sprintf("%s ok=%v", o.kind, o.ok ||
					o.got != 0), 1)
			}
			v.Count("overlapping operations", int64(conc))
			v.Distinct(shape)
			v.Sample("histories", strings.Split(history(ops), "\n"))
		}
		p.noShutdown()
	})

	v.Cases("range", 4, v.N(40, 1000), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		h := p.rec.handler(1)
		// All types below 64 are refused.
		t := uint64(r.Intn(64))
		if err := p.m.RegisterHandler(tlvType(t), h); err == nil {
			Fail("registered a handler for type %d", t)
		}
		if err := p.m.DeregisterHandler(tlvType(t)); err == nil {
			Fail("deregistered a handler for type %d", t)
		}
		// Other types don't interfere with each other.
		var ts []uint64
		seen := map[uint64]bool{sentinelType: true}
		n := 6
		if i%8 == 0 {
			// All of the types that somebody could think of.
			n = 200 + r.Intn(3000)
			v.Count("many handlers", 1)
		}
		for len(ts) < n {
			t := redge(r)
			if i%8 == 0 && r.Intn(2) == 0 {
				t = 64 + uint64(r.Intn(8000))
			}
			if t < 64 || seen[t] {
				continue
			}
			seen[t] = true
			ts = append(ts, t)
			p.register(t, p.rec.handler(t))
		}
		drop := ts[r.Intn(len(ts))]
		if err := p.m.DeregisterHandler(tlvType(drop)); err != nil {
			Fail("deregister: %v", err)
		}
		if err := p.m.DeregisterHandler(tlvType(drop)); !errors.Is(err,
			onionmsg.ErrHandlerNotFound) {
			Fail("second deregistration: %v", err)
		}
		want := 0
		for k, t := range ts {
			if len(ts) > 40 && k > 10 && k < len(ts)-20 {
				continue
			}
			p.lnd.inject(p.peer, onionType, p.toSelf(r, nil, []rec{
				{t, u64(t)}}))
			if t != drop {
				want++
			}
		}
		got, _ := p.flush()
		if len(got) != want {
			Fail("%d deliveries, want %d", len(got), want)
		}
		for _, d := range got {
			if d.typ == drop || !sameBytes(d.value, u64(d.typ)) {
				Fail("delivery %s, removed type is %d", d, drop)
			}
		}
		v.Count("isolation", 1)
	})

	// A type can be registered again and again, however often it was before,
	// and a refused registration changes nothing.
	v.Cases("cycles", 4, v.N(4, 60), func(i int, r *rand.Rand) {
		p := newProbe(r)
		defer p.stop()
		n := v.N(1500, 20000) + r.Intn(500)
		ts := []uint64{64 + uint64(r.Intn(1000)), 1<<32 + redge(r)>>1}
		if i%2 == 0 {
			ts = ts[:1]
		}
		for j := 0; j < n; j++ {
			t := ts[j%len(ts)]
			p.register(t, p.rec.handler(t))
			last := j == n-1
			if r.Intn(200) == 0 || last {
				p.lnd.inject(p.peer, onionType, p.toSelf(r, nil,
					[]rec{{t, u64(uint64(j))}}))
				got, _ := p.flush()
				if len(got) != 1 || got[0].typ != t ||
					!sameBytes(got[0].value, u64(uint64(j))) {

					Fail("%v was delivered to the handler "+
						"of registration %d of %d", got,
						j, t)
				}
				v.Count("deliveries after many registrations", 1)
			}
			if r.Intn(10) == 0 {
				if err := p.m.RegisterHandler(tlvType(t),
					p.rec.handler(99)); !errors.Is(err,
					onionmsg.ErrHandlerRegistered) {

					Fail("registration of %d while it's "+
						"taken: %v", t, err)
				}
			}
			if err := p.m.DeregisterHandler(tlvType(t)); err != nil {
				Fail("deregistration %d of %d: %v", j, t, err)
			}
			v.Count("repeated registrations", 1)
		}
		v.Distinct("cycles", n)
		p.noShutdown()
	})

	v.Cases("not started", 4, v.N(20, 200), func(i int, r *rand.Rand) {
		f := newFakeLnd(rkey(r))
		m := f.messenger(func(error) {})
		t := 64 + uint64(r.Intn(1000))
		within("registering before the start", func() {
			err := m.RegisterHandler(tlvType(t), func(
				*lnwire.ReplyPath, []byte, []byte) error {
				return nil
			})
			if !errors.Is(err, onionmsg.ErrNotStarted) {
				Fail("register before start: %v", err)
			}
			err = m.DeregisterHandler(tlvType(t))
			if !errors.Is(err, onionmsg.ErrNotStarted) {
				Fail("deregister before start: %v", err)
			}
		})
		v.Count("not started", 1)
	})

	v.Require("deliveries", 100)
	v.Require("unhandled", 50)
	v.Require("many handlers", 5)
	v.Require("repeated registrations", 1000)
	v.Require("overlapping operations", 300)
	v.Require("register ok=false", 100)
	v.Require("deregister ok=false", 100)
}

// lifecycle fails unless all goroutines of the code under test have ended.
func noLeak(what string) {
	eventually(what+": goroutines of the daemon are still running", func() bool {
		return len(repoGoroutines()) == 0
	})
}

// noStray is noLeak with the stacks in the report.
func noStray(what string) {
	deadline := time.Now().Add(2 * time.Second)
	for len(repoGoroutines()) != 0 && time.Now().Before(deadline) {
		time.Sleep(time.Millisecond)
	}
	if g := repoGoroutines(); len(g) != 0 {
		defer func() {
			if x := recover(); x != nil {
				if f, ok := x.(violation); ok {
					panic(violation{f.msg + "\n" + strings.Join(
						g, "\n")})
				}
				panic(x)
			}
		}()
		noLeak(what)
	}
}

// once runs a call n times at once and gives the number of successes.
func once(r *rand.Rand, n int, f func() error) int {
	var ok int64
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			<-gate
			if wr.Intn(2) == 0 {
				spin(wr)
			}
			if f() == nil {
				atomic.AddInt64(&ok, 1)
			}
		}()
	}
	close(gate)
	within(fmt.Sprintf("%d concurrent calls", n), wg.Wait)
	return int(ok)
}

var endings = []struct {
	how string
	err bool
}{
	{"error", true}, {"error and close", true}, {"close errors", false},
	{"close messages", false}, {"close", false},
}

func runC19(v *V) {
	loud()
	// These run one at a time, so that no goroutine of the code under test
	// may be left after each of them.
	v.Cases("messenger", 1, v.N(400, 5000), func(i int, r *rand.Rand) {
		f := newFakeLnd(rkey(r))
		f.onSend = newRecorder().outgoing
		var down shutdowns
		m := f.messenger(down.request)
		story := ""

		n := 1 + r.Intn(4)
		if k := once(r, n, m.Start); k != 1 {
			Fail("%d of %d concurrent starts succeeded", k, n)
		}
		story += fmt.Sprintf("%d starts, ", n)
		if r.Intn(2) == 0 {
			if err := m.Start(); err == nil {
				Fail("second start succeeded")
			}
		}
		if r.Intn(3) != 0 {
			eventually("the messenger subscribes to messages",
				func() bool { return f.subscriptions() >= 1 })
		}
		// Pending work. It ends with the messenger.
		var wg sync.WaitGroup
		var bad atomic.Value
		if r.Intn(2) == 0 {
			story += "registrations pending, "
			stop := make(chan struct{})
			defer close(stop)
			for k := 0; k < 3; k++ {
				wg.Add(1)
				k := k
				go func() {
					defer wg.Done()
					t := tlvType(uint64(64 + k))
					for {
						err := m.RegisterHandler(t,
							newRecorder().handler(1))
						if err == nil {
							err = m.DeregisterHandler(t)
						}
						if err == nil {
							continue
						}
						if !errors.Is(err,
							onionmsg.ErrShuttingDown) {
							bad.Store(err.Error())
						}
						return
					}
				}()
			}
		}
		if r.Intn(3) == 0 {
			story += "messages queued, "
			for k := 0; k < 20; k++ {
				f.inject(f.vertex(), onionType,
					rbytes(r, r.Intn(100)))
			}
		}
		spin(r)
		n = 1 + r.Intn(4)
		if k := once(r, n, m.Stop); k != 1 {
			Fail("%d of %d concurrent stops succeeded", k, n)
		}
		story += fmt.Sprintf("%d stops", n)
		within("pending calls after the stop ("+story+")", wg.Wait)
		if e := bad.Load(); e != nil {
			Fail("pending call failed with: %v", e)
		}
		if err := m.Stop(); err == nil {
			Fail("stop after stop succeeded")
		}
		if err := m.Start(); err == nil {
			Fail("start after stop succeeded")
		}
		if l := down.list(); len(l) != 0 {
			Fail("shutdown requested by a clean stop: %v", l)
		}
		if n := f.subscriptions(); n > 1 {
			Fail("%d subscriptions", n)
		}
		eventually("the subscription is cancelled by the stop",
			func() bool { return f.liveStreams() == 0 })
		noStray("after stop (" + story + ")")
		within("calls after the stop", func() {
			err := m.RegisterHandler(64, newRecorder().handler(1))
			if !errors.Is(err, onionmsg.ErrShuttingDown) {
				Fail("register after stop: %v", err)
			}
		})
		v.Distinct(story)
		v.Count("clean stops", 1)
		v.Sample("messenger", story)
	})

	v.Cases("stream failure", 1, v.N(120, 4000), func(i int, r *rand.Rand) {
		e := endings[r.Intn(len(endings))]
		f := newFakeLnd(rkey(r))
		all := newRecorder()
		f.onSend = all.outgoing
		var down shutdowns
		m := f.messenger(down.request)
		cause := bareErr(r)
		subFails := r.Intn(4) == 0
		if subFails {
			f.onSub = func(context.Context) error { return cause }
		}
		if err := m.Start(); err != nil {
			Fail("start: %v", err)
		}
		handlers := 0
		if !subFails {
			// It may have handlers, and have been busy.
			handlers = r.Intn(3) * r.Intn(3)
			for k := 0; k < handlers; k++ {
				t := uint64(64 + k)
				within("registration", func() {
					if err := m.RegisterHandler(tlvType(t),
						all.handler(t)); err != nil {

						Fail("register: %v", err)
					}
				})
				f.inject(f.vertex(), onionType,
					(&probe{lnd: f}).toSelf(r, nil, []rec{{t,
						rbytes(r, 10)}}))
			}
			for k := r.Intn(3); k > 0; k-- {
				f.inject(f.vertex(), onionType, rbytes(r, 50))
			}
			if r.Intn(3) == 0 {
				f.inject(f.vertex(), 1+r.Uint32(), nil)
			}
			spin(r)
			f.end(e.how, cause)
		}
		racing := r.Intn(3) == 0
		what := fmt.Sprintf("%s, subscription fails %v, stop at once "+
			"%v, %d handlers", e.how, subFails, racing, handlers)
		if !racing {
			eventually("a shutdown is requested after: "+what,
				func() bool { return len(down.list()) > 0 })
		} else {
			spin(r)
		}
		within("stop after: "+what, func() {
			if err := m.Stop(); err != nil {
				Fail("stop: %v", err)
			}
		})
		noStray("after stop (" + what + ")")
		l := down.list()
		if len(l) > 1 || !racing && len(l) != 1 {
			Fail("%d shutdown requests: %v, after: %s", len(l), l,
				what)
		}
		for _, got := range l {
			switch {
			case subFails || e.err && e.how == "error":
				if !errors.Is(got, cause) {
					Fail("shutdown requested for %v, want "+
						"%v", got, cause)
				}
			case e.err:
				if !errors.Is(got, cause) && !errors.Is(got,
					onionmsg.ErrLNDShutdown) {
					Fail("shutdown requested for %v", got)
				}
			default:
				if !errors.Is(got, onionmsg.ErrLNDShutdown) {
					Fail("shutdown requested for %v, want "+
						"%v", got,
						onionmsg.ErrLNDShutdown)
				}
			}
		}
		eventually("the subscription ends", func() bool {
			return f.liveStreams() == 0
		})
		v.Count("shutdown requests", int64(len(l)))
		v.Distinct(what, len(l))
		v.Sample("stream failure", what)
	})

	v.Cases("server", 1, v.N(160, 3000), func(i int, r *rand.Rand) {
		f := newFakeLnd(rkey(r))
		f.onSend = newRecorder().outgoing
		n := newNode(f)
		story := ""
		early := r.Intn(5)
		if early == 0 {
			// Never started.
			within("stop without a start", func() {
				if err := n.srv.Stop(); err != nil {
					Fail("stop without start: %v", err)
				}
			})
			n.closeGrpc()
			if err := n.srv.Stop(); err == nil {
				Fail("second stop succeeded")
			}
			noStray("a server that was never started")
			v.Count("never started", 1)
			return
		}
		if early == 1 {
			fault := bareErr(r)
			f.onInfo = func(context.Context) error { return fault }
			err := n.srv.Start(f.services())
			if err == nil {
				Fail("start succeeded without lnd")
			}
			within("stop after a failed start", func() {
				if err := n.srv.Stop(); err != nil {
					Fail("stop after failed start: %v", err)
				}
			})
			n.closeGrpc()
			noStray("a server that failed to start")
			v.Count("failed starts", 1)
			return
		}
		k := 1 + r.Intn(3)
		if ok := once(r, k, func() error {
			return n.srv.Start(f.services())
		}); ok != 1 {
			Fail("%d of %d concurrent starts succeeded", ok, k)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var streams []offersrpc.Offers_SubscribeOnionPayloadClient
		for j := r.Intn(4); j > 0; j-- {
			s, err := n.client.SubscribeOnionPayload(ctx,
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: uint64(64 + j)})
			must(err)
			streams = append(streams, s)
		}
		story = fmt.Sprintf("%d starts %d streams", k, len(streams))
		// A message that nobody reads must not keep us from stopping.
		if len(streams) > 0 && r.Intn(2) == 0 {
			story += " unread messages"
			p := &probe{lnd: f, r: r}
			for j := 0; j < 5; j++ {
				f.inject(f.vertex(), onionType, p.toSelf(r, nil,
					[]rec{{uint64(64 + 1 + r.Intn(len(streams))),
						rbytes(r, 2000)[:200]}}))
			}
		}
		if r.Intn(3) == 0 {
			story += " stream failure"
			f.end(endings[r.Intn(len(endings))].how, bareErr(r))
		}
		spin(r)
		k = 1 + r.Intn(3)
		if ok := once(r, k, n.srv.Stop); ok != 1 {
			Fail("%d of %d concurrent stops succeeded", ok, k)
		}
		for _, s := range streams {
			s := s
			within("the end of a subscription after stop", func() {
				for {
					_, err := s.Recv()
					if err == nil {
						continue
					}
					// It could have failed to register
					// because of the failure or stop.
					c := status.Code(err)
					if c != codes.Aborted &&
						c != codes.Unavailable {
						Fail("subscription ended with "+
							"%v", err)
					}
					v.Count("streams "+c.String(), 1)
					return
				}
			})
		}
		n.closeGrpc()
		noStray("after the server's stop (" + story + ")")
		v.Distinct(story)
		v.Count("servers", 1)
	})

	// Stop while a message is being handled, and while calls to lnd are
	// under way, for a long time.
	v.Cases("busy stop", 40, v.N(40, 400), func(i int, r *rand.Rand) {
		hold := time.Duration(1+r.Intn(300)) * time.Millisecond
		switch {
		case i < 8:
			hold = 12 * time.Second
		case i < 16:
			hold = time.Duration(1000+r.Intn(5000)) * time.Millisecond
		}
		where := []string{"handler", "send", "ecdh", "subscribe"}[i%4]
		busyStop(v, r, where, hold, i%8 >= 4)
	})

	// Starts and stops at the same time, or in the wrong order.
	v.Cases("overlap", 1, v.N(300, 5000), func(i int, r *rand.Rand) {
		if r.Intn(3) == 0 {
			overlapMessenger(v, r)
		} else {
			overlapServer(v, r)
		}
	})

	// The client doesn't read, so that a handler can't pass on its payload.
	v.Cases("slow client", 4, v.N(60, 1000), func(i int, r *rand.Rand) {
		slowClient(v, r)
	})

	v.Require("overlaps", 100)
	v.Require("calls that waited for a start returned", 40)
	v.Require("busy stops", 30)
	v.Require("stops with a stuck client", 30)
	v.Require("clean stops", 100)
	v.Require("shutdown requests", 60)
	v.Require("servers", 30)
	v.Require("streams Aborted", 10)
}

// overlap runs a start and a stop at the same time, or one after the other, and
// gives the error of the start. The stop must work.
//
// Where begun isn't nil, it's closed at some point of the start, which the stop
// can wait for.
func overlap(r *rand.Rand, start, stop func() error,
	begun chan struct{}) (string, error) {

	var startErr, stopErr error
	order := r.Intn(4)
	if begun != nil && r.Intn(2) == 0 {
		order = 4
	}
	switch order {
	case 0:
		within("stop before the start", func() { stopErr = stop() })
		within("start after the stop", func() { startErr = start() })
	default:
		var wg sync.WaitGroup
		wg.Add(2)
		r1 := rand.New(rand.NewSource(r.Int63()))
		r2 := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			if order == 2 {
				spin(r1)
			}
			startErr = start()
		}()
		go func() {
			defer wg.Done()
			switch order {
			case 3:
				spin(r2)
			case 4:
				select {
				case <-begun:
				case <-time.After(2 * time.Second):
				}
				// With nothing in between that would order
				// the two.
				at := time.Now().Add(time.Duration(
					r2.Intn(400)) * time.Microsecond)
				for time.Now().Before(at) {
				}
			}
			stopErr = stop()
		}()
		within("a start and a stop at once", wg.Wait)
	}
	if stopErr != nil {
		Fail("stop failed: %v", stopErr)
	}
	return []string{"stop first", "at once", "stop early", "stop late",
			"stop once it began"}[order],
		startErr
}

func overlapMessenger(v *V, r *rand.Rand) {
	f := newFakeLnd(rkey(r))
	f.lag = lags(r)
	f.onSend = newRecorder().outgoing
	var down shutdowns
	var late int64
	m := f.messenger(down.request)
	for k := r.Intn(10); k > 0; k-- {
		f.inject(f.vertex(), onionType, rbytes(r, 50))
	}
	// Calls at the same time, which may fail or not, but return.
	var calls sync.WaitGroup
	for k := r.Intn(4); k > 0; k-- {
		cr := rand.New(rand.NewSource(r.Int63()))
		typ := tlv.Type(65 + cr.Intn(2))
		calls.Add(1)
		go func() {
			defer calls.Done()
			spin(cr)
			for j := 0; j < 5; j++ {
				_ = m.RegisterHandler(typ, func(*lnwire.ReplyPath,
					[]byte, []byte) error {

					return nil
				})
				_ = m.DeregisterHandler(typ)
			}
		}()
	}
	order, err := overlap(r, m.Start, m.Stop, nil)
	what := fmt.Sprintf("start and stop (%s, start gave %v)", order, err)
	within("registrations during the start and stop", calls.Wait)
	within("a registration after "+what, func() {
		if err := m.RegisterHandler(64, func(*lnwire.ReplyPath, []byte,
			[]byte) error {

			atomic.AddInt64(&late, 1)
			return nil
		}); err == nil {
			Fail("registration after %s succeeded", what)
		}
	})
	eventually("no subscription is left after "+what, func() bool {
		return f.liveStreams() == 0
	})
	noStray(what)
	if l := down.list(); len(l) != 0 {
		Fail("shutdown requested by %s: %v", what, l)
	}
	if err := m.Start(); err == nil {
		Fail("start after %s succeeded", what)
	}
	if err := m.Stop(); err == nil {
		Fail("stop after %s succeeded", what)
	}
	v.Count("overlaps", 1)
	v.Count("overlaps: messenger, started: "+fmt.Sprint(err == nil), 1)
	v.Distinct("overlap", order, err == nil)
}

func overlapServer(v *V, r *rand.Rand) {
	n, peer := gateNode(r)
	f := n.lnd
	f.lag = lags(r)
	slow := r.Intn(2) == 0
	ir := rand.New(rand.NewSource(r.Int63()))
	begun := make(chan struct{})
	var once sync.Once
	f.onInfo = func(context.Context) error {
		once.Do(func() { close(begun) })
		if slow {
			time.Sleep(time.Duration(ir.Intn(3000)) * time.Microsecond)
		}
		return nil
	}
	// Calls that wait for the start, and don't give up.
	calls := append(apiCalls(r, n, peer), invalidCalls(r, n, peer)...)
	r.Shuffle(len(calls), func(a, b int) {
		calls[a], calls[b] = calls[b], calls[a]
	})
	calls = calls[:r.Intn(4)]
	errs := make([]error, len(calls))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for k := range calls {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[k] = calls[k].run(ctx)
		}()
	}
	if r.Intn(2) == 0 {
		spin(r)
	}
	var order string
	var err error
	never := r.Intn(4) == 0
	if never {
		order = "never started"
		within("stop without a start", func() {
			if err := n.srv.Stop(); err != nil {
				Fail("stop without a start: %v", err)
			}
		})
	} else {
		order, err = overlap(r, func() error {
			return n.srv.Start(f.services())
		}, n.srv.Stop, begun)
	}
	what := fmt.Sprintf("start and stop (%s, start gave %v)", order, err)
	within("calls that were waiting for the start, after "+what, wg.Wait)
	for k, c := range calls {
		if errs[k] == nil && (never || c.after != codes.OK) {
			Fail("%s succeeded around %s", c.name, what)
		}
		v.Count("calls that waited for a start returned", 1)
	}
	eventually("no subscription is left after "+what, func() bool {
		return f.liveStreams() == 0
	})
	n.closeGrpc()
	noStray(what)
	if l := n.down.list(); len(l) != 0 {
		Fail("shutdown requested by %s: %v", what, l)
	}
	if !never {
		if err := n.srv.Start(f.services()); err == nil {
			Fail("start after %s succeeded", what)
		}
	}
	if err := n.srv.Stop(); err == nil {
		Fail("stop after %s succeeded", what)
	}
	v.Count("overlaps", 1)
	v.Count("overlaps: server, started: "+fmt.Sprint(err == nil), 1)
	v.Distinct("overlap server", order, slow, len(calls), err == nil)
}

// busyStop stops a messenger, or a whole server, while something it does takes
// time.
func busyStop(v *V, r *rand.Rand, where string, hold time.Duration,
	server bool) {

	f := newFakeLnd(rkey(r))
	var running, total, late int64
	var stopped int32
	entered := make(chan struct{}, 100)
	gate := make(chan struct{})
	block := func() {
		if atomic.LoadInt32(&stopped) != 0 {
			atomic.AddInt64(&late, 1)
		}
		atomic.AddInt64(&running, 1)
		atomic.AddInt64(&total, 1)
		entered <- struct{}{}
		<-gate
		atomic.AddInt64(&running, -1)
	}
	f.onSend = func(context.Context, lndclient.CustomMessage) error {
		if where == "send" {
			block()
		}
		return nil
	}
	f.onECDH = func(context.Context, *btcec.PublicKey) error {
		if where == "ecdh" {
			block()
		}
		return nil
	}
	f.onSub = func(context.Context) error {
		if where == "subscribe" {
			block()
		}
		return nil
	}
	var stop func() error
	var down *shutdowns
	handler := func(*lnwire.ReplyPath, []byte, []byte) error {
		block()
		return nil
	}
	if server && where != "handler" {
		n := startNode(f)
		defer n.closeGrpc()
		stop, down = n.srv.Stop, &n.down
	} else {
		down = &shutdowns{}
		m := f.messenger(down.request)
		if err := m.Start(); err != nil {
			Fail("start: %v", err)
		}
		if where == "handler" {
			within("registering a handler", func() {
				must(m.RegisterHandler(64, handler))
			})
		}
		stop = m.Stop
	}
	p := &probe{lnd: f}
	for j := 0; j < 4; j++ {
		switch where {
		case "handler":
			f.inject(f.vertex(), onionType, p.toSelf(r, nil,
				[]rec{{64, rbytes(r, 5)}}))
		case "send":
			c, _ := craft(r, f.key, 0, 1, nil)
			f.inject(f.vertex(), onionType, c.data)
		case "ecdh":
			f.inject(f.vertex(), onionType, p.toSelf(r, nil, nil))
		}
	}
	await(entered, "a message is handled (%s)", where)

	done := make(chan struct{})
	var early bool
	go func() {
		defer close(done)
		if err := stop(); err != nil {
			early = true
		}
		atomic.StoreInt32(&stopped, 1)
	}()
	if hold < 100*time.Millisecond && r.Intn(2) == 0 {
		spin(r)
	} else {
		// Whether the stop returns in this time is judged by what
		// is still running, not by the time it takes.
		select {
		case <-done:
			if n := atomic.LoadInt64(&running); n != 0 {
				close(gate)
				Fail("stop returned while the messenger was "+
					"still busy (%s)", where)
			}
		case <-time.After(hold):
		}
	}
	close(gate)
	await(done, "stop returns once what it waits for has ended (%s)", where)
	if early {
		Fail("stop failed")
	}
	if n := atomic.LoadInt64(&running); n != 0 {
		Fail("stop returned while the messenger was still busy (%s)",
			where)
	}
	n := atomic.LoadInt64(&total)
	time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	if k := atomic.LoadInt64(&total); k != n ||
		atomic.LoadInt64(&late) != 0 {

		Fail("%d messages were handled after the stop (%s)", k-n, where)
	}
	if l := down.list(); len(l) != 0 {
		Fail("shutdown requested by a clean stop: %v", l)
	}
	v.Count("busy stops", 1)
	v.Count("busy stops: "+where, 1)
	v.Distinct("busy", where, hold.Round(time.Second), server, n)
}

// stuckStream is the server's side of a subscription whose client does not
// read.
type stuckStream struct {
	grpc.ServerStream
	ctx     context.Context
	sends   int64
	blocked chan struct{}
	release chan error
}

func (s *stuckStream) Context() context.Context { return s.ctx }

func (s *stuckStream) Send(*offersrpc.SubscribeOnionPayloadResponse) error {
	if atomic.AddInt64(&s.sends, 1) == 1 {
		close(s.blocked)
	}
	return <-s.release
}

func slowClient(v *V, r *rand.Rand) {
	f := newFakeLnd(rkey(r))
	f.onSend = newRecorder().outgoing
	n := startNode(f)
	defer n.closeGrpc()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	k := 1 + r.Intn(3)
	var streams []*stuckStream
	results := make(chan error, k)
	for j := 0; j < k; j++ {
		s := &stuckStream{ctx: ctx, blocked: make(chan struct{}),
			release: make(chan error)}
		streams = append(streams, s)
		t := uint64(64 + j)
		go func() {
			results <- n.srv.SubscribeOnionPayload(
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: t}, s)
		}()
	}
	// Messages arrive until the messenger takes no more of them, or very
	// many are waiting for the clients.
	p := &probe{lnd: f}
	send := func() {
		f.inject(f.vertex(), onionType, p.toSelf(r, nil, []rec{
			{uint64(64 + r.Intn(k)), rbytes(r, 10)}}))
	}
	count := 0
	deadline := time.Now().Add(patience)
	var stuck bool
	for !stuck && count < 400 && time.Now().Before(deadline) {
		for j := 0; j < 4; j++ {
			send()
			count++
		}
		was := f.takenCount()
		for j := 0; j < 10 && f.takenCount() < count; j++ {
			time.Sleep(time.Millisecond)
		}
		now := f.takenCount()
		stuck = now == was && now < count
	}
	story := fmt.Sprintf("%d clients, %v stuck", k, stuck)
	if stuck {
		v.Count("stops with a stuck client", 1)
	}
	order := r.Intn(3)
	over := make(chan struct{})
	var stopErr error
	done := make(chan struct{})
	stop := func() {
		go func() {
			stopErr = n.srv.Stop()
			close(done)
		}()
	}
	release := func() {
		var e error
		if r.Intn(2) == 0 {
			e = lndErr(r)
		}
		for _, s := range streams {
			s := s
			e := e
			go func() {
				for {
					select {
					case s.release <- e:
					case <-over:
						return
					}
				}
			}()
		}
	}
	defer close(over)
	switch order {
	case 0:
		// Stop does not depend on the clients.
		stop()
		await(done, "stop returns although clients don't read (%s)",
			story)
		release()
	case 1:
		stop()
		spin(r)
		cancel()
		await(done, "stop returns although clients don't read (%s)",
			story)
		release()
	default:
		cancel()
		spin(r)
		stop()
		await(done, "stop returns although clients don't read (%s)",
			story)
		release()
	}
	if stopErr != nil {
		Fail("stop: %v", stopErr)
	}
	for range streams {
		got := make(chan struct{})
		go func() { <-results; close(got) }()
		await(got, "subscriptions end after the stop (%s)", story)
	}
	n.noShutdown()
	v.Distinct("slow", story, order)
}
