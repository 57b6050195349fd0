package vsched

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"time"
)

// BFS explores the states body reaches, breadth first: body performs one
// operation per Step, and two executions whose canonical keys agree at a step
// boundary are merged.  Every transition executes the real code.
func BFS(opt Options, maxStates int, body func()) *Stats {
	opt.Seq = true
	opt.horizon()
	opt.Shards = 1
	opt.Bound = 1 << 20
	st := &Stats{Exhaustive: true, Outcomes: map[string]int64{}}
	start := time.Now()
	type node struct {
		prefix []int32
		depth  int
	}
	run := func(prefix []int32, depth int) *Exec {
		stepLimit = depth
		e := runOnce(&opt, prefix, false, body)
		stepLimit = 0
		st.Executions++
		st.Steps += int64(e.steps)
		return e
	}
	stop := func(e *Exec) bool {
		if e.Fail != nil && e.Fail.Kind != "capped" {
			st.Failures = append(st.Failures, FailureRec{Kind: e.Fail.Kind, Msg: e.Fail.Msg, Choices: choicesOf(e.trail)})
			st.Exhaustive = false
			st.WallS = time.Since(start).Seconds()
			return true
		}
		return false
	}
	seen := map[[32]byte]bool{}
	var q []node
	// initial states: environment choices before the first step
	push := func(e *Exec, depth int) {
		if !e.boundary {
			return
		}
		k := sha256.Sum256([]byte(e.stateKey))
		if seen[k] {
			return
		}
		seen[k] = true
		st.States++
		p := make([]int32, len(e.trail))
		for i, c := range e.trail {
			p[i] = c.chosen
		}
		if depth > st.MaxDepth {
			st.MaxDepth = depth
		}
		q = append(q, node{p, depth})
		if n := st.States; n == 1 || n == 50 || n == 1000 {
			st.Samples = append(st.Samples, fmt.Sprintf("state %d depth %d choices=%v outcome=%s", n, depth, p, strings.Join(e.Outcome, "|")))
		}
	}
	expand := func(base []int32, depth int) bool {
		prefix := base
		for {
			e := run(prefix, depth)
			if stop(e) {
				return false
			}
			if depth > 0 {
				st.Transitions++
				st.addOutcome(e)
			}
			if e.Fail != nil {
				st.Capped++
			}
			push(e, depth)
			np, _ := nextPrefix(&opt, e.trail)
			if np == nil || len(np) <= len(base) {
				return true
			}
			prefix = np
		}
	}
	stepInit = true
	ok := expand(nil, 0)
	stepInit = false
	if !ok {
		return st
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if (!Deadline.IsZero() && time.Now().After(Deadline)) || (maxStates > 0 && st.States >= int64(maxStates)) {
			st.Exhaustive = false
			break
		}
		if !expand(n.prefix, n.depth+1) {
			return st
		}
	}
	st.Nodes = st.States
	st.WallS = time.Since(start).Seconds()
	return st
}

var (
	stepLimit int
	stepInit  bool
)
