package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop of the control flow graph.
type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of a function, one per header.
func loopsOf(fn *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if l.body[x] {
					return
				}
				l.body[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	return out
}

// innermost returns the smallest loop that contains the block.
func innermost(ls []*loop, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range ls {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// counted describes a loop that walks a slice (or counts to its length).
type counted struct {
	l        *loop
	over     ssa.Value // the slice walked, nil if the bound is not a length
	index    ssa.Value // the index used in the body
	lo       int64     // first index (forward loops)
	step     int64
	bound    ssa.Value // exclusive upper bound (forward), nil for range over maps, channels, functions
	cond     *ssa.If
	exact    bool // the bound is exactly len(over) and the first index is 0
	why      string
	rangeMap bool
	rangeCh  bool
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	c, ok := stripConv(v).(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return c.Call.Args[0], true
}

func isConst(v ssa.Value, k int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	n, ok := constant.Int64Val(c.Value)
	return ok && n == k
}

// countedLoop recognises what a loop walks over; nil if it is not a counting loop.
func countedLoop(l *loop) *counted {
	c := &counted{l: l}
	var head *ssa.If
	if len(l.head.Instrs) > 0 {
		head, _ = l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	}
	if head == nil {
		return nil
	}
	c.cond = head
	// range over a map or a channel
	if ex, ok := head.Cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				c.over, c.rangeMap, c.exact = rg.X, true, true
				return c
			}
		}
		if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW {
			c.over, c.rangeCh, c.exact = u.X, true, true
			return c
		}
		return nil
	}
	b, ok := head.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := b.X, b.Y, b.Op
	switch op { // normalise to x < y, x <= y, x >= y, x > y, x != y with x the counter
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return nil
	}
	isCounter := func(v ssa.Value) (*ssa.Phi, int64, int64, bool) { // phi, start, step
		v = stripConv(v)
		off := int64(0)
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.Block() == l.head {
			if k := constInt(bo.Y); k != nil {
				v, off = bo.X, *k
			}
		}
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != l.head {
			return nil, 0, 0, false
		}
		var start, step *int64
		startOther := false
		for i, e := range p.Edges {
			if l.body[l.head.Preds[i]] {
				bo, ok := e.(*ssa.BinOp)
				if !ok || bo.X != ssa.Value(p) {
					return nil, 0, 0, false
				}
				k := constInt(bo.Y)
				if k == nil {
					return nil, 0, 0, false
				}
				n := *k
				if bo.Op == token.SUB {
					n = -n
				} else if bo.Op != token.ADD {
					return nil, 0, 0, false
				}
				if step != nil && *step != n {
					return nil, 0, 0, false
				}
				step = &n
				continue
			}
			if k := constInt(e); k != nil {
				n := *k + off
				start = &n
			} else {
				startOther = true
				_ = startOther
			}
		}
		if step == nil {
			return nil, 0, 0, false
		}
		if start == nil {
			m := int64(-1 << 40)
			start = &m
		}
		return p, *start, *step, true
	}
	p, start, step, ok := isCounter(x)
	if !ok {
		if p, start, step, ok = isCounter(y); !ok {
			return nil
		}
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	c.index, c.step = stripConv(x), step
	if step > 0 {
		c.lo = start
		c.bound = y
		s, isLen := lenOf(y)
		if isLen {
			c.over = s
		}
		switch {
		case start == -1<<40:
			c.why = "does not start at a known index"
		case start != 0:
			c.why = "starts at index " + itoa(start)
		case step != 1:
			c.why = "skips elements"
		case !isLen:
			if bo, ok := stripConv(y).(*ssa.BinOp); ok {
				if s, ok := lenOf(bo.X); ok {
					c.over = s
					c.why = "stops before the end"
					break
				}
			}
			c.why = "its bound is not a length"
		case op == token.LEQ || op == token.GTR || op == token.GEQ:
			c.why = "its condition is not an upper bound"
		default:
			c.exact = true
		}
		return c
	}
	// backwards: from len-1 down to 0
	if step != -1 {
		c.why = "skips elements"
		return c
	}
	var first ssa.Value
	for i, e := range p.Edges {
		if !l.body[l.head.Preds[i]] {
			first = e
		}
	}
	if bo, ok := first.(*ssa.BinOp); ok && bo.Op == token.SUB && isConst(bo.Y, 1) {
		if s, ok := lenOf(bo.X); ok {
			c.over = s
			if (op == token.GEQ && isConst(y, 0)) || (op == token.GTR && isConst(y, -1)) {
				c.exact = true
			} else {
				c.why = "does not reach the first element"
			}
			return c
		}
	}
	c.why = "starts at an unknown index"
	return c
}

func itoa(n int64) string { return constant.MakeInt64(n).String() }

// skips lists the branches of the loop body by which an iteration can avoid
// every block of act: the condition and the outcome that leads away.
type branch struct {
	If    *ssa.If
	Taken bool
	// Out is set if the branch leaves the loop (otherwise it only skips the rest of the iteration).
	Out *ssa.BasicBlock
}

func (l *loop) skips(act map[*ssa.BasicBlock]bool) (skip, early []branch) {
	// canAct[b]: from b, staying inside the iteration, an act block can be reached
	canAct := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for b := range l.body {
			if canAct[b] {
				continue
			}
			if act[b] {
				canAct[b], changed = true, true
				continue
			}
			for _, s := range b.Succs {
				if s != l.head && l.body[s] && canAct[s] {
					canAct[b], changed = true, true
				}
			}
		}
	}
	for _, b := range sortedBlocks(l.body) {
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range b.Succs {
			if !l.body[s] {
				if b != l.head {
					early = append(early, branch{br, i == 0, s})
				}
				continue
			}
			// a skip: this side cannot act any more, the other could, and b has not acted
			if canAct[b] && !act[b] && b != l.head && (s == l.head || !canAct[s]) && !actedBefore(l, act, b) {
				skip = append(skip, branch{br, i == 0, nil})
			}
		}
	}
	return skip, early
}

// actedBefore: every way to b within the iteration passes an act block.
func actedBefore(l *loop, act map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var free func(x *ssa.BasicBlock) bool // the head can be reached backwards without an act
	free = func(x *ssa.BasicBlock) bool {
		if act[x] || seen[x] {
			return false
		}
		seen[x] = true
		if x == l.head {
			return true
		}
		for _, p := range x.Preds {
			if l.body[p] && free(p) {
				return true
			}
		}
		return false
	}
	return !free(b)
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var fn *ssa.Function
	for b := range m {
		fn = b.Parent()
		break
	}
	var out []*ssa.BasicBlock
	if fn != nil {
		for _, b := range fn.Blocks {
			if m[b] {
				out = append(out, b)
			}
		}
	}
	return out
}

// returnsError: the block leads straight to a return of an error, or to a panic.
func returnsError(b *ssa.BasicBlock) bool {
	for i := 0; i < 4 && b != nil; i++ {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			return isErrReturn(x)
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

// wholeSlice: the value is not a part of another slice; why says which part.
func wholeSlice(v ssa.Value) (ssa.Value, string) {
	for i := 0; i < 8; i++ {
		x, ok := v.(*ssa.Slice)
		if !ok {
			return v, ""
		}
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			return v, "" // slice of an array
		}
		if x.Low != nil && !isConst(x.Low, 0) {
			return v, "the first elements are cut off"
		}
		if x.High != nil {
			if s, ok := lenOf(x.High); !ok || s != x.X {
				return v, "the last elements are cut off"
			}
		}
		v = x.X
	}
	return v, ""
}
