// Package lin records concurrent histories and decides, by exhaustive search,
// whether they are linearizable with respect to a sequential model.
package lin

import (
	"fmt"
	"strings"

	"verif.local/mc/mc/vsched"
)

// Op is one call.  Apply runs it on a (comparable, immutable) model state and
// reports whether the model agrees with the recorded result.
type Op struct {
	Name   string
	Thread int
	Call   int
	Ret    int // 0: still pending
	Result string
	Apply  func(s any) (any, bool)
}

type History struct {
	Ops []*Op
	now int
}

// Call records an invocation.
func (h *History) Call(name string) *Op {
	h.now++
	o := &Op{Name: name, Thread: vsched.ThreadID(), Call: h.now}
	h.Ops = append(h.Ops, o)
	if vsched.Tracing() {
		vsched.Trace("CALL %s", name)
	}
	return o
}

// Return records the response.
func (h *History) Return(o *Op, result string, apply func(s any) (any, bool)) {
	if vsched.Aborting() {
		return
	}
	h.now++
	o.Ret = h.now
	o.Result = result
	o.Apply = apply
	if vsched.Tracing() {
		vsched.Trace("RET  %s = %s", o.Name, result)
	}
}

func (h *History) String() string {
	var b strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&b, "t%d [%d,%d] %s = %s; ", o.Thread, o.Call, o.Ret, o.Name, o.Result)
	}
	return b.String()
}

type memoKey struct {
	mask uint64
	s    any
}

// Check reports whether the completed operations have a linearization from
// init; final, if not nil, must accept the last model state.
func (h *History) Check(init any, final func(s any) bool) bool {
	var ops []*Op
	for _, o := range h.Ops {
		if o.Ret != 0 {
			ops = append(ops, o)
		}
	}
	n := len(ops)
	bad := map[memoKey]bool{}
	var rec func(mask uint64, s any) bool
	rec = func(mask uint64, s any) bool {
		if mask == 1<<uint(n)-1 {
			return final == nil || final(s)
		}
		k := memoKey{mask, s}
		if bad[k] {
			return false
		}
		minRet := 1 << 30
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if mask&(1<<uint(i)) != 0 || o.Call > minRet {
				continue
			}
			if s2, ok := o.Apply(s); ok && rec(mask|1<<uint(i), s2) {
				return true
			}
		}
		bad[k] = true
		return false
	}
	return rec(0, init)
}

// Require fails the execution if the history is not linearizable.
func (h *History) Require(init any, final func(s any) bool) {
	if !h.Check(init, final) {
		vsched.Fail("history not linearizable from %v: %s", init, h.String())
	}
}

// Results renders the results in program order per thread (an outcome key).
func (h *History) Results() string {
	var b strings.Builder
	for _, o := range h.Ops {
		b.WriteString(o.Result)
		b.WriteByte(',')
	}
	return b.String()
}
