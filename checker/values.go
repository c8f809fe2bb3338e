package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{}

// BoolV is a boolean: a constant, or a linear condition, or an opaque one.
type BoolV struct {
	kind bkind
	b    bool   // constant value
	p    *Poly  // condition operand
	key  string // opaque condition name
	neg  bool
	d    *Expr // terms: holds iff d > 0 (almost everywhere)
	eq   bool  // terms: an equality of floats
}

type bkind int

const (
	bConst bkind = iota
	bGE          // p >= 0
	bEQ          // p == 0
	bOpaque
)

func vBool(b bool) *BoolV { return &BoolV{kind: bConst, b: b} }
func (c *BoolV) not() *BoolV {
	n := *c
	if c.kind == bConst {
		n.b = !n.b
	} else {
		n.neg = !n.neg
	}
	return &n
}
func (c *BoolV) String() string {
	s := ""
	switch c.kind {
	case bConst:
		return fmt.Sprint(c.b)
	case bGE:
		s = c.p.key() + ">=0"
	case bEQ:
		s = c.p.key() + "==0"
	case bOpaque:
		s = c.key
	}
	if c.neg {
		return "!(" + s + ")"
	}
	return s
}

// FloatV is a float: only its dimension (unit) and, when known, its constant.
type FloatV struct {
	u    Unit
	poly bool // zero-like: compatible with every unit
	c    *float64
	dep  *depSet
	e    *Expr // terms: the value
}

// StrV is a string (constant or opaque).
type StrV struct {
	c *string
}

// NilV is the nil pointer, map, func, chan or interface.
type NilV struct{}

// Iface is a non-nil interface value with a known dynamic type.
type Iface struct {
	T types.Type
	V Value
}

// Closure is a function value.
type Closure struct {
	Fn   *ssa.Function
	Bind []Value
}

// BoundOp is a method value of a symbolic operand.
type BoundOp struct {
	recv Value
	m    *types.Func
}

// BuiltinV is a builtin used as a value.
type BuiltinV struct{ name string }

// Tuple is a multiple result.
type Tuple []Value

// StructV is a struct value.
type StructV struct {
	T types.Type
	F []Value
}

// Opaque is an unknown value of some type.
type Opaque struct {
	id     int
	T      types.Type
	name   string
	nonnil bool
}

// MapV is a map object.
type MapV struct {
	id    int
	T     types.Type
	Own   *Owner
	elems map[string]Value
	keys  []Value
}

// ChanV is a channel object.
type ChanV struct {
	id     int
	T      types.Type
	buf    []Value
	closed bool
	sure   int // leading elements that every goroutine waited for has sent
	size   *Poly
}

// Owner says to whom a piece of storage belongs.
type Owner struct {
	kind string // local, operand, grad, recv, arg, global, fn
	name string
}

// Loc is a storage location: scalar, or struct/array with kids.
type Loc struct {
	id     int
	T      types.Type
	site   string
	own    *Owner
	parent *Loc
	arr    *Arr
	kids   map[int]*Loc
	v      Value
	wrote  bool
}

// Arr is the backing array of slices.
type Arr struct {
	id     int
	elem   types.Type
	site   string
	own    *Owner
	length *Poly
	locs   map[string]*Loc
	idx    map[string]*Poly
	bulk   []bulkCopy
	symW   bool // written at a symbolic index or wholly unknown
	fillFn func(idx *Poly) Value
	// float element summary
	isFloat bool
	u       Unit
	set     bool // a non-zero-like value has been stored
	dep     *depSet
	written int
	// terms
	e     *Expr    // the element at the position •
	ps    []*patch // parts written later
	lvl   int      // depth of summarised loops at the allocation
	rlog  []termRead
	sw    *loopState
	swIdx *Poly
}

type bulkCopy struct {
	off, n *Poly
	src    Slice
}

// Slice is a slice value.
type Slice struct {
	A             *Arr
	Off, Len, Cap *Poly
}

// FloatElem is a pointer to an element of a float array.
type FloatElem struct {
	A   *Arr
	Idx *Poly
}

// IterV is a map/string iterator.
type IterV struct {
	keys []Value
	m    *MapV
	n    int
	t    types.Type
	done bool
}

// Operand is a symbolic graph node.
type Operand struct {
	name string
	val  Value
	mult int
}

// depSet records which sources a float depends on.
type depSet struct{ m map[string]bool }

func depOf(s string) *depSet { return &depSet{map[string]bool{s: true}} }
func depJoin(a, b *depSet) *depSet {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	sub := true
	for k := range b.m {
		if !a.m[k] {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := &depSet{map[string]bool{}}
	for k := range a.m {
		r.m[k] = true
	}
	for k := range b.m {
		r.m[k] = true
	}
	return r
}
