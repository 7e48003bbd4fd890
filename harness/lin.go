package main

import (
	"fmt"
	"sort"
	"strings"
)

// This file decides whether a recorded history of concurrent operations on one
// message type's handler is linearizable.

// linOp is one operation on a register that holds a handler, or none (0).
type linOp struct {
	kind string // "register", "deregister", "deliver"
	arg  int    // the handler registered
	ok   bool   // (de)registration succeeded
	got  int    // the handler that was called, 0 for none
	call int64
	ret  int64
	// maybe is set for operations that may or may not have taken effect.
	maybe bool
}

func (o linOp) String() string {
	switch o.kind {
	case "register":
		return fmt.Sprintf("[%d,%d] register h%d ok=%v maybe=%v",
			o.call, o.ret, o.arg, o.ok, o.maybe)
	case "deregister":
		return fmt.Sprintf("[%d,%d] deregister ok=%v maybe=%v", o.call,
			o.ret, o.ok, o.maybe)
	}
	return fmt.Sprintf("[%d,%d] deliver -> h%d", o.call, o.ret, o.got)
}

// apply gives the state after the operation, if its result is right.
func (o linOp) apply(state int) (int, bool) {
	switch o.kind {
	case "register":
		if o.ok != (state == 0) {
			return state, false
		}
		if o.ok {
			return o.arg, true
		}
	case "deregister":
		if o.ok != (state != 0) {
			return state, false
		}
		return 0, true
	case "deliver":
		return state, o.got == state
	}
	return state, true
}

// linearizable searches for an order of the operations that respects real time
// and explains all results (Wing and Gong, with memoization).
func linearizable(ops []linOp) bool {
	n := len(ops)
	if n > 256 {
		panic("harness: history too long")
	}
	sort.SliceStable(ops, func(i, j int) bool {
		return ops[i].call < ops[j].call
	})
	type key struct {
		done  [4]uint64
		state int
	}
	seen := map[key]bool{}
	var search func(k key, left int) bool
	search = func(k key, left int) bool {
		if left == 0 {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		// An operation can be next if no other pending operation
		// returned before it was called.
		var minRet int64 = 1<<63 - 1
		for i, o := range ops {
			if k.done[i/64]&(1<<uint(i%64)) == 0 && !o.maybe &&
				o.ret < minRet {

				minRet = o.ret
			}
		}
		for i, o := range ops {
			if k.done[i/64]&(1<<uint(i%64)) != 0 {
				continue
			}
			if o.call > minRet {
				break
			}
			next := k
			next.done[i/64] |= 1 << uint(i%64)
			if o.maybe {
				// It took no effect...
				if search(next, left-1) {
					return true
				}
				// ...or it did, with whatever result.
				switch o.kind {
				case "register":
					if k.state == 0 {
						next.state = o.arg
					}
				case "deregister":
					next.state = 0
				}
				if search(next, left-1) {
					return true
				}
				continue
			}
			s, ok := o.apply(k.state)
			if !ok {
				continue
			}
			next.state = s
			if search(next, left-1) {
				return true
			}
		}
		return false
	}
	return search(key{}, n)
}

func history(ops []linOp) string {
	var out []string
	for _, o := range ops {
		out = append(out, o.String())
	}
	return strings.Join(out, "\n")
}
