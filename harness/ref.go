package main

import (
	"math"
	"strconv"
	"strings"
)

// ---- The reference evaluator: what a path selects, written from the
// description of the language, over the harness' own documents and query
// trees. It shares nothing with the code under test.
//
// It gives no answer (panics with unspec) where neither the documentation
// nor JSONPath practice says what should happen.

type unspec struct{ why string }

func noAnswer(why string) { panic(unspec{why}) }

// refEval returns the selected nodes in traversal order, with
// multiplicity. ok is false if the outcome is not specified.
func refEval(root *V, p *PathQ) (res []*V, why string, ok bool) {
	res, _, why, ok = evalRef(&ref{root: root, limit: 300_000}, p)
	return
}

// refEvalBig is refEval without the limit on work that lets it go with
// the budget of the monitored model
func refEvalBig(root *V, p *PathQ) (res []*V, why string, ok bool) {
	res, _, why, ok = evalRef(&ref{root: root, limit: refLimit}, p)
	return
}

// refEvalWork also counts the nodes that have to be looked at, with both
// operands of && and || always counted
func refEvalWork(root *V, p *PathQ) (res []*V, work int, why string, ok bool) {
	return evalRef(&ref{root: root, limit: refLimit, eager: true}, p)
}

func evalRef(e *ref, p *PathQ) (res []*V, work int, why string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if u, is := x.(unspec); is {
				res, work, why, ok = nil, 0, u.why, false
				return
			}
			panic(x)
		}
	}()
	res = e.path(p, e.root)
	return res, e.work, "", true
}

// failed is what the evaluation of an EBad panics with
type failed struct{}

// refFails tells if the evaluation of a path has to end with an error:
// if a call of an unknown function has to be evaluated.
func refFails(root *V, p *PathQ) (res []*V, fails bool, why string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(failed); !is {
				panic(x)
			}
			res, fails, why, ok = nil, true, "", true
		}
	}()
	res, _, why, ok = evalRef(&ref{root: root, limit: 300_000, failing: true}, p)
	return
}

// anyExpr tells if f is true for a part of the expression
func anyExpr(x *Expr, f func(*Expr) bool) bool {
	if x == nil {
		return false
	}
	if f(x) || anyExpr(x.L, f) || anyExpr(x.R, f) {
		return true
	}
	for _, y := range x.Elems {
		if anyExpr(y, f) {
			return true
		}
	}
	if x.Path != nil {
		for _, st := range x.Path.Steps {
			for _, s := range append([]*Sel{st.Sel}, st.Sel.Parts...) {
				if anyExpr(s.Filter, f) {
					return true
				}
			}
		}
	}
	return false
}

type ref struct {
	root  *V
	steps int
	work  int // nodes that have to be looked at
	eager bool
	limit int
	// calls of unknown functions are allowed
	failing bool
}

// unneeded adds the work that an operand needs which does not matter
func (e *ref) unneeded(x *Expr, cur *V) {
	if e.failing && anyExpr(x, func(x *Expr) bool { return x.Kind == EBad }) {
		noAnswer("failing operand that does not matter")
	}
	if !e.eager {
		return
	}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(unspec); !is || e.steps > e.limit {
				panic(x)
			}
		}
	}()
	e.truth(e.expr(x, cur))
}

const refLimit = 3_000_000

func (e *ref) tick() {
	e.steps++
	if e.limit == 0 {
		panic(harnessBug("a reference evaluator without a limit"))
	}
	if e.steps > e.limit || e.work > 2*e.limit {
		noAnswer("too large for the reference")
	}
}

func (e *ref) path(p *PathQ, cur *V) []*V {
	var out []*V
	start := cur
	if p.Root == "$" {
		start = e.root
	}
	e.walk(p.Steps, start, func(v *V) { out = append(out, v) })
	return out
}

func (e *ref) walk(steps []Step, node *V, emit func(*V)) {
	e.tick()
	e.work++
	if len(steps) == 0 {
		emit(node)
		return
	}
	st := steps[0]
	if !st.Desc {
		for _, c := range e.children(node, st.Sel) {
			e.walk(steps[1:], c, emit)
		}
		return
	}
	// All descendants that are selected as children of their parents
	var descend func(v *V)
	descend = func(v *V) {
		if len(v.Items) == 0 {
			return
		}
		e.tick()
		e.work += len(v.Items) * breadth(st.Sel)
		in := map[*V]bool{}
		for _, c := range e.children(v, st.Sel) {
			in[c] = true
		}
		for _, c := range v.Items {
			if in[c] {
				e.walk(steps[1:], c, emit)
			}
			descend(c)
		}
	}
	descend(node)
}

// breadth is the number of selectors to try on each node
func breadth(s *Sel) int {
	if s.Kind == SUnion {
		return 1 + len(s.Parts)
	}
	return 1
}

// children of node that the selector selects, in the order of selection
func (e *ref) children(node *V, s *Sel) []*V {
	if node.Kind != KArr && node.Kind != KObj {
		return nil
	}
	e.work++
	switch s.Kind {
	case SWild:
		e.work += len(node.Items)
		return node.Items
	case SName:
		if node.Kind == KObj {
			if c := node.Get(s.Name); c != nil {
				return []*V{c}
			}
			return nil
		}
		if _, err := strconv.Atoi(s.Name); err == nil {
			noAnswer("quoted number on an array")
		}
		e.work += len(node.Items) // looking is allowed
		return nil
	case SDotNum:
		if node.Kind == KObj {
			if c := node.Get(strconv.Itoa(s.Index)); c != nil {
				return []*V{c}
			}
			return nil
		}
		return pick(node, s.Index)
	case SIndex:
		if node.Kind == KObj {
			if node.Get(strconv.Itoa(s.Index)) != nil {
				noAnswer("index on an object that has it as a key")
			}
			return nil
		}
		return pick(node, s.Index)
	case SSlice:
		if node.Kind != KArr {
			return nil
		}
		var out []*V
		for _, i := range sliceIndexes(len(node.Items), s.Slice) {
			out = append(out, node.Items[i])
		}
		e.work += len(out)
		return out
	case SUnion:
		e.work += len(node.Items) * len(s.Parts)
		in := map[*V]bool{}
		var failing []*Sel
		for _, p := range s.Parts {
			if e.failing && anyExpr(p.Filter, func(x *Expr) bool { return x.Kind == EBad }) {
				failing = append(failing, p)
				continue
			}
			for _, c := range e.children(node, p) {
				in[c] = true
			}
		}
		for _, p := range failing {
			// what another part selects need not be tested
			rest := false
			for _, c := range node.Items {
				if !in[c] {
					rest = true
					e.truth(e.expr(p.Filter, c))
				}
			}
			if !rest || len(failing) > 1 {
				noAnswer("whether a filter is evaluated in a union")
			}
			noAnswer("union with a part that could fail")
		}
		var out []*V
		for _, c := range node.Items {
			if in[c] {
				out = append(out, c)
			}
		}
		return out
	case SFilter:
		e.work += len(node.Items)
		var out []*V
		for _, c := range node.Items {
			if e.truth(e.expr(s.Filter, c)) {
				out = append(out, c)
			}
		}
		return out
	}
	panic("children")
}

func pick(node *V, i int) []*V {
	n := len(node.Items)
	if i < 0 {
		if i < -n {
			return nil
		}
		i += n
	}
	if i < 0 || i >= n {
		return nil
	}
	return []*V{node.Items[i]}
}

// sliceIndexes gives the indexes a slice selects from n elements, as in
// RFC 9535 2.3.4.2. Brute force, on purpose.
func sliceIndexes(n int, s [3]*int) []int {
	step := 1
	if s[2] != nil {
		step = *s[2]
	}
	if step == 0 {
		return nil
	}
	norm := func(i int) int {
		if i >= 0 {
			return i
		}
		if i < -n {
			return -1
		}
		return n + i
	}
	clamp := func(x, lo, hi int) int {
		if x < lo {
			return lo
		}
		if x > hi {
			return hi
		}
		return x
	}
	var out []int
	if step > 0 {
		lower, upper := 0, n
		if s[0] != nil {
			lower = clamp(norm(*s[0]), 0, n)
		}
		if s[1] != nil {
			upper = clamp(norm(*s[1]), 0, n)
		}
		for i := 0; i < n; i++ {
			if i >= lower && i < upper && (i-lower)%step == 0 {
				out = append(out, i)
			}
		}
		return out
	}
	upper, lower := n-1, -1
	if s[0] != nil {
		upper = clamp(norm(*s[0]), -1, n-1)
	}
	if s[1] != nil {
		lower = clamp(norm(*s[1]), -1, n-1)
	}
	for i := n - 1; i >= 0; i-- {
		// (upper-i) is a multiple of -step; step may be the least integer
		if i <= upper && i > lower && (upper-i)%step == 0 {
			out = append(out, i)
		}
	}
	return out
}

// ---- expressions

type rkind int

const (
	rMissing rkind = iota // a path that selects nothing
	rNull
	rBool
	rInt
	rFloat
	rStr
	rArr   // array literal: elems
	rNodeA // array node
	rNodeO // object node
	rMulti // several nodes
)

type rv struct {
	k     rkind
	b     bool
	i     int
	f     float64
	s     string
	elems []rv
}

func rvOf(v *V) rv { return rvOfDepth(v, 1) }

// values of arrays are needed only one level deep
func rvOfDepth(v *V, d int) rv {
	switch v.Kind {
	case KNull:
		return rv{k: rNull}
	case KBool:
		return rv{k: rBool, b: v.B}
	case KInt:
		return rv{k: rInt, i: v.I}
	case KFloat:
		return rv{k: rFloat, f: v.F}
	case KStr:
		return rv{k: rStr, s: v.S}
	case KArr:
		r := rv{k: rNodeA}
		if d > 0 {
			for _, x := range v.Items {
				r.elems = append(r.elems, rvOfDepth(x, d-1))
			}
		}
		return r
	}
	return rv{k: rNodeO}
}

func (e *ref) truth(v rv) bool {
	switch v.k {
	case rMissing, rNull:
		return false
	case rBool:
		return v.b
	case rInt:
		return v.i != 0
	case rFloat:
		return v.f != 0
	case rStr:
		return v.s != ""
	case rArr:
		noAnswer("truth of an array literal")
	}
	return true
}

func (v rv) num() (float64, bool) {
	if v.k == rInt {
		return float64(v.i), true
	}
	if v.k == rFloat {
		return v.f, true
	}
	return 0, false
}

func (v rv) list() bool { return v.k == rArr || v.k == rNodeA || v.k == rMulti }

const exact = 1 << 53

// equal says if two values are equal
func (e *ref) equal(a, b rv, strict bool) bool {
	if a.list() && b.list() && (a.k == rMulti || b.k == rMulti) {
		noAnswer("equality of several nodes")
	}
	fa, na := a.num()
	fb, nb := b.num()
	if na && nb {
		if a.k == rInt && b.k == rInt {
			return a.i == b.i
		}
		if a.k == rFloat && b.k == rFloat {
			return a.f == b.f
		}
		if strict {
			noAnswer("=== of an integer and a float")
		}
		// rounding keeps the order: only equality may be due to it
		if fa == fb && math.Abs(fa) > exact {
			noAnswer("integers beyond 2^53 against floats")
		}
		return fa == fb
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case rNull:
		return true
	case rBool:
		return a.b == b.b
	case rStr:
		return a.s == b.s
	}
	return false
}

// compare says how two values are ordered. valid is false if they are not
func (e *ref) compare(a, b rv) (c int, valid bool) {
	none := func(v rv) bool { return v.k == rMissing || v.k == rNodeO || v.list() }
	if none(a) || none(b) {
		return 0, false
	}
	if a.k == rNull && b.k == rNull {
		return 0, true
	}
	fa, na := a.num()
	fb, nb := b.num()
	if na && nb {
		if a.k == rInt && b.k == rInt {
			switch {
			case a.i < b.i:
				return -1, true
			case a.i > b.i:
				return 1, true
			}
			return 0, true
		}
		if math.IsNaN(fa) || math.IsNaN(fb) {
			return 0, false
		}
		if a.k != b.k && fa == fb && math.Abs(fa) > exact {
			noAnswer("integers beyond 2^53 against floats")
		}
		switch {
		case fa < fb:
			return -1, true
		case fa > fb:
			return 1, true
		}
		return 0, true
	}
	if a.k == rStr && b.k == rStr {
		return strings.Compare(a.s, b.s), true
	}
	noAnswer("ordering of values of different kinds")
	return 0, false
}

func (e *ref) arith(op string, a, b rv) rv {
	for _, v := range []rv{a, b} {
		if v.k == rStr || v.k == rBool || v.k == rArr {
			noAnswer("arithmetic on something that is not a number")
		}
	}
	fa, na := a.num()
	fb, nb := b.num()
	if !na || !nb {
		return rv{k: rNull}
	}
	if op == "**" {
		return rv{k: rFloat, f: math.Pow(fa, fb)}
	}
	if a.k == rInt && b.k == rInt {
		switch op {
		case "+":
			return rv{k: rInt, i: a.i + b.i}
		case "-":
			return rv{k: rInt, i: a.i - b.i}
		case "*":
			return rv{k: rInt, i: a.i * b.i}
		}
		if b.i == 0 {
			return rv{k: rNull}
		}
		if op == "/" {
			return rv{k: rInt, i: a.i / b.i}
		}
		return rv{k: rInt, i: a.i % b.i}
	}
	switch op {
	case "+":
		return rv{k: rFloat, f: fa + fb}
	case "-":
		return rv{k: rFloat, f: fa - fb}
	case "*":
		return rv{k: rFloat, f: fa * fb}
	}
	if fb == 0 {
		return rv{k: rNull}
	}
	if op == "/" {
		return rv{k: rFloat, f: fa / fb}
	}
	return rv{k: rFloat, f: math.Mod(fa, fb)}
}

func rb(b bool) rv { return rv{k: rBool, b: b} }

func (e *ref) pathValue(p *PathQ, cur *V) rv {
	nodes := e.path(p, cur)
	for _, n := range nodes {
		e.work += 1 + len(n.Items)
	}
	switch len(nodes) {
	case 0:
		return rv{k: rMissing}
	case 1:
		return rvOf(nodes[0])
	}
	r := rv{k: rMulti}
	for _, n := range nodes {
		r.elems = append(r.elems, rvOf(n))
	}
	return r
}

func (e *ref) expr(x *Expr, cur *V) rv {
	e.tick()
	switch x.Kind {
	case EInt:
		return rv{k: rInt, i: x.I}
	case EFloat:
		return rv{k: rFloat, f: x.F}
	case ERawNum:
		if x.B {
			return rv{k: rFloat, f: x.F}
		}
		return rv{k: rInt, i: x.I}
	case EStr:
		return rv{k: rStr, s: x.S}
	case EBool:
		return rb(x.B)
	case ENull:
		return rv{k: rNull}
	case EPath:
		return e.pathValue(x.Path, cur)
	case EArr:
		r := rv{k: rArr}
		for _, y := range x.Elems {
			r.elems = append(r.elems, e.expr(y, cur))
		}
		return r
	case EBad:
		panic(failed{})
	case ELen:
		for _, y := range x.Elems {
			e.expr(y, cur)
		}
		v := e.pathValue(x.Path, cur)
		if v.k == rMulti {
			noAnswer("length of several nodes")
		}
		if v.k == rNodeA {
			return rv{k: rInt, i: len(v.elems)}
		}
		return rv{k: rInt, i: 0}
	case EUnary:
		v := e.expr(x.L, cur)
		switch x.Op {
		case "!":
			return rb(!e.truth(v))
		case "-":
			switch v.k {
			case rInt:
				return rv{k: rInt, i: -v.i}
			case rFloat:
				return rv{k: rFloat, f: -v.f}
			case rStr, rBool, rArr:
				noAnswer("arithmetic on something that is not a number")
			}
			return rv{k: rNull}
		case "+":
			switch v.k {
			case rInt, rFloat:
				return v
			}
			noAnswer("unary plus on something that is not a number")
		}
	case EBin:
		switch x.Op {
		case "&&":
			if !e.truth(e.expr(x.L, cur)) {
				e.unneeded(x.R, cur)
				return rb(false)
			}
			return rb(e.truth(e.expr(x.R, cur)))
		case "||":
			if e.truth(e.expr(x.L, cur)) {
				e.unneeded(x.R, cur)
				return rb(true)
			}
			return rb(e.truth(e.expr(x.R, cur)))
		}
		a := e.expr(x.L, cur)
		b := e.expr(x.R, cur)
		switch x.Op {
		case "==", "===":
			return rb(e.equal(a, b, x.Op == "==="))
		case "!=", "!==":
			return rb(!e.equal(a, b, x.Op == "!=="))
		case "<", "<=", ">", ">=":
			c, valid := e.compare(a, b)
			if !valid {
				return rb(false)
			}
			switch x.Op {
			case "<":
				return rb(c < 0)
			case "<=":
				return rb(c <= 0)
			case ">":
				return rb(c > 0)
			}
			return rb(c >= 0)
		case "in":
			if b.k == rNull {
				return rb(false)
			}
			list := []rv{b}
			if b.list() {
				list = b.elems
			} else if b.k == rMissing {
				list = nil
			}
			found := false
			for _, y := range list {
				if e.equal(a, y, false) {
					found = true
				}
			}
			return rb(found)
		}
		return e.arith(x.Op, a, b)
	}
	panic("expr: " + x.Op)
}
