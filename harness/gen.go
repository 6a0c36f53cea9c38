package main

import (
	"math/rand"
	"strconv"
)

// ---- generators of queries

type QCfg struct {
	MaxSteps int
	Desc     int // percent of steps with ..
	// weights of the selectors
	Name, Wild, Index, Slice, Union, Filter, DotNum int
	FDepth                                          int // nesting of filters
	EDepth                                          int // depth of filter expressions
	// kinds of filter expressions, nil: all
	Bool      func(g *gen, d int, sc scope) *Expr
	BigSlices bool
	MaxDesc   int
}

type gen struct {
	r   *rand.Rand
	cfg QCfg
	doc *V
	all []*V
}

// scope of an expression: samples of what @ can be
type scope struct {
	nodes []*V
	depth int // filter nesting left
}

func pi(i int) *int { return &i }

func isNumericName(s string) bool { _, err := strconv.Atoi(s); return err == nil }

func (g *gen) childKeys(nodes []*V) []string {
	var ks []string
	for _, n := range nodes {
		for _, k := range n.Keys {
			if !isNumericName(k) || g.r.Intn(3) == 0 {
				ks = append(ks, k)
			}
		}
	}
	return ks
}

func (g *gen) name(nodes []*V) string {
	ks := g.childKeys(nodes)
	if len(ks) > 0 && g.r.Intn(8) > 0 {
		return ks[g.r.Intn(len(ks))]
	}
	return []string{"a", "b", "n", "zz", "", "key", "A"}[g.r.Intn(7)]
}

func (g *gen) arrLen(nodes []*V) int {
	n := 0
	for _, x := range nodes {
		if x.Kind == KArr && len(x.Items) > n {
			n = len(x.Items)
		}
	}
	return n
}

func (g *gen) index(nodes []*V) int {
	n := g.arrLen(nodes)
	switch g.r.Intn(8) {
	case 0:
		return n + g.r.Intn(2)
	case 1:
		return -n - g.r.Intn(2)
	case 2:
		return -1 - g.r.Intn(n+1)
	}
	if n == 0 {
		return 0
	}
	return g.r.Intn(n)
}

var bigInts = []int{1 << 62, -(1 << 62), 9223372036854775807, -9223372036854775807, 1 << 31, -(1 << 31), 1 << 32, 4294967295, 1000000}

func (g *gen) bound(n int) int {
	if g.cfg.BigSlices && g.r.Intn(12) == 0 {
		return bigInts[g.r.Intn(len(bigInts))]
	}
	return g.r.Intn(2*n+5) - n - 2
}

func (g *gen) slice(nodes []*V) *Sel {
	n := g.arrLen(nodes)
	s := &Sel{Kind: SSlice, Colons: 1}
	if g.r.Intn(4) > 0 {
		s.Slice[0] = pi(g.bound(n))
	}
	if g.r.Intn(3) > 0 {
		s.Slice[1] = pi(g.bound(n))
	}
	if g.r.Intn(2) == 0 {
		s.Colons = 2
		switch g.r.Intn(6) {
		case 0:
		case 1:
			s.Slice[2] = pi(g.bound(n))
		case 2:
			s.Slice[2] = pi(0)
		case 3:
			s.Slice[2] = pi(-1 - g.r.Intn(3))
		default:
			s.Slice[2] = pi(1 + g.r.Intn(3))
		}
	}
	return s
}

func (g *gen) sel(nodes []*V, fdepth int, inUnion bool) *Sel {
	c := g.cfg
	w := []int{c.Name, c.Wild, c.Index, c.Slice, c.Union, c.Filter, c.DotNum}
	if inUnion {
		w[4], w[6] = 0, 0
	}
	if fdepth <= 0 {
		w[5] = 0
	}
	// Prefer selectors that fit
	obj, arr := false, false
	for _, n := range nodes {
		obj = obj || n.Kind == KObj
		arr = arr || n.Kind == KArr
	}
	if g.r.Intn(6) > 0 {
		if !obj {
			w[0] = (w[0] + 3) / 4
		}
		if !arr {
			w[2] = (w[2] + 3) / 4
			w[3] = (w[3] + 3) / 4
			w[6] = (w[6] + 3) / 4
		}
	}
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum == 0 {
		return &Sel{Kind: SWild}
	}
	k := g.r.Intn(sum)
	i := 0
	for k >= w[i] {
		k -= w[i]
		i++
	}
	switch i {
	case 0:
		return &Sel{Kind: SName, Name: g.name(nodes)}
	case 1:
		return &Sel{Kind: SWild}
	case 2:
		return &Sel{Kind: SIndex, Index: g.index(nodes)}
	case 3:
		return g.slice(nodes)
	case 4:
		u := &Sel{Kind: SUnion}
		for n := 2 + g.r.Intn(3); n > 0; n-- {
			u.Parts = append(u.Parts, g.sel(nodes, fdepth-g.r.Intn(2), true))
		}
		return u
	case 5:
		var kids []*V
		for _, n := range nodes {
			kids = append(kids, n.Items...)
		}
		return &Sel{Kind: SFilter, Filter: g.boolExpr(c.EDepth, scope{sample(g.r, kids, 12), fdepth - 1})}
	case 6:
		x := g.index(nodes)
		if x < 0 {
			x = -x
		}
		return &Sel{Kind: SDotNum, Index: x}
	}
	panic("sel")
}

func sample(r *rand.Rand, v []*V, n int) []*V {
	if len(v) <= n {
		return v
	}
	out := make([]*V, n)
	for i := range out {
		out[i] = v[r.Intn(len(v))]
	}
	return out
}

func descendants(v *V, limit int) []*V {
	var out []*V
	var walk func(v *V)
	walk = func(v *V) {
		for _, c := range v.Items {
			if len(out) >= limit {
				return
			}
			out = append(out, c)
			walk(c)
		}
	}
	walk(v)
	return out
}

func (g *gen) steps(nodes []*V, max, fdepth int) []Step {
	var out []Step
	n := 1 + g.r.Intn(max)
	nd := g.cfg.MaxDesc
	if nd == 0 {
		nd = 3
	}
	for i := 0; i < n; i++ {
		st := Step{}
		from := nodes
		if g.r.Intn(100) < g.cfg.Desc && nd > 0 {
			st.Desc = true
			nd--
			from = nil
			for _, x := range nodes {
				from = append(from, x)
				from = append(from, descendants(x, 40)...)
			}
			from = sample(g.r, from, 24)
		}
		// Continue from a container, if there is one
		st.Sel = g.sel(containers(from), fdepth, false)
		if i > 0 && st.Sel.Kind == SDotNum && out[i-1].Sel.Kind == SDotNum {
			// .1.2 is a decimal
			st.Sel = &Sel{Kind: SIndex, Index: st.Sel.Index}
		}
		if st.Desc && st.Sel.Kind == SDotNum {
			st.Sel = &Sel{Kind: SIndex, Index: st.Sel.Index}
		}
		out = append(out, st)
		// what is selected so far
		var next []*V
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(unspec); !ok {
						panic(x)
					}
				}
			}()
			e := &ref{root: g.doc, limit: 300_000}
			for _, x := range sample(g.r, from, 12) {
				next = append(next, e.children(x, st.Sel)...)
			}
		}()
		nodes = sample(g.r, next, 16)
		if len(nodes) == 0 && g.r.Intn(3) > 0 {
			break
		}
	}
	return out
}

func containers(v []*V) []*V {
	var out []*V
	for _, x := range v {
		if len(x.Items) > 0 {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return v
	}
	return out
}

func (g *gen) query() *PathQ {
	return &PathQ{Root: "$", Steps: g.steps([]*V{g.doc}, g.cfg.MaxSteps, g.cfg.FDepth)}
}

// ---- expressions

func (g *gen) boolExpr(d int, sc scope) *Expr {
	if g.cfg.Bool != nil {
		return g.cfg.Bool(g, d, sc)
	}
	return g.anyBool(d, sc)
}

func bin(op string, l, r *Expr) *Expr { return &Expr{Kind: EBin, Op: op, L: l, R: r} }
func un(op string, l *Expr) *Expr     { return &Expr{Kind: EUnary, Op: op, L: l} }
func eint(i int) *Expr                { return &Expr{Kind: EInt, I: i} }
func estr(s string) *Expr             { return &Expr{Kind: EStr, S: s} }
func efloat(f float64) *Expr          { return &Expr{Kind: EFloat, F: f} }
func epath(p *PathQ) *Expr            { return &Expr{Kind: EPath, Path: p} }

func (g *gen) anyBool(d int, sc scope) *Expr {
	n := 10
	if d <= 0 {
		n = 6
	}
	switch g.r.Intn(n) {
	case 0, 1:
		return epath(g.relPath(sc, nil))
	case 2:
		return g.equality(d, sc)
	case 3, 4:
		return g.relational(d, sc)
	case 5:
		return g.inExpr(d, sc)
	case 6:
		return un("!", g.anyBool(d-1, sc))
	case 7, 8:
		return bin([]string{"&&", "||"}[g.r.Intn(2)], g.anyBool(d-1, sc), g.anyBool(d-1, sc))
	}
	return g.numExpr(d-1, sc)
}

var eqOps = []string{"==", "!=", "==", "!=", "===", "!=="}
var relOps = []string{"<", "<=", ">", ">="}

func (g *gen) equality(d int, sc scope) *Expr {
	op := eqOps[g.r.Intn(len(eqOps))]
	switch g.r.Intn(6) {
	case 0:
		return bin(op, g.strExpr(sc), g.strExpr(sc))
	case 1:
		return bin(op, epath(g.relPath(sc, nil)), g.literal(sc))
	case 2:
		return bin(op, g.literal(sc), epath(g.relPath(sc, nil)))
	case 3:
		return bin(op, epath(g.relPath(sc, nil)), epath(g.relPath(sc, nil)))
	}
	return bin(op, g.numExpr(d-1, sc), g.numExpr(d-1, sc))
}

func (g *gen) relational(d int, sc scope) *Expr {
	op := relOps[g.r.Intn(4)]
	if g.r.Intn(3) == 0 {
		return bin(op, g.strExpr(sc), g.strExpr(sc))
	}
	return bin(op, g.numExpr(d-1, sc), g.numExpr(d-1, sc))
}

// scalarIn returns a value found near the scope
func (g *gen) scalarIn(sc scope) *V {
	for i := 0; i < 6 && len(sc.nodes) > 0; i++ {
		n := sc.nodes[g.r.Intn(len(sc.nodes))]
		for j := 0; j < 3 && len(n.Items) > 0; j++ {
			n = n.Items[g.r.Intn(len(n.Items))]
		}
		if !n.isContainer() {
			return n
		}
	}
	return genScalar(g.r)
}

func litOf(v *V) *Expr {
	switch v.Kind {
	case KNull:
		return &Expr{Kind: ENull}
	case KBool:
		return &Expr{Kind: EBool, B: v.B}
	case KInt:
		return eint(v.I)
	case KFloat:
		return efloat(v.F)
	}
	return estr(v.S)
}

func (g *gen) literal(sc scope) *Expr {
	if g.r.Intn(2) == 0 {
		return litOf(genScalar(g.r))
	}
	return litOf(g.scalarIn(sc))
}

func isNum(v *V) bool { return v.Kind == KInt || v.Kind == KFloat }
func isStr(v *V) bool { return v.Kind == KStr }

func (g *gen) numExpr(d int, sc scope) *Expr {
	if d > 0 && g.r.Intn(3) == 0 {
		if g.r.Intn(6) == 0 {
			return un("-", g.numExpr(d-1, sc))
		}
		ops := []string{"+", "-", "*", "/", "%", "**"}
		return bin(ops[g.r.Intn(len(ops))], g.numExpr(d-1, sc), g.numExpr(d-1, sc))
	}
	switch g.r.Intn(7) {
	case 0:
		return eint(g.r.Intn(9) - 3)
	case 1:
		return efloat(float64(g.r.Intn(13)-4) / 2)
	case 2:
		if v := g.scalarIn(sc); isNum(v) {
			return litOf(v)
		}
		return eint(g.r.Intn(4))
	case 3:
		return &Expr{Kind: ELen, Path: g.relPath(sc, func(v *V) bool { return v.Kind == KArr }), Method: g.r.Intn(2) == 0}
	}
	return epath(g.relPath(sc, isNum))
}

func (g *gen) strExpr(sc scope) *Expr {
	switch g.r.Intn(4) {
	case 0:
		return litOf(genString(g.r))
	case 1:
		if v := g.scalarIn(sc); isStr(v) {
			return litOf(v)
		}
		return estr("a")
	}
	return epath(g.relPath(sc, isStr))
}

func (g *gen) inExpr(d int, sc scope) *Expr {
	l := g.literalOrPath(sc)
	var r *Expr
	switch g.r.Intn(4) {
	case 0, 1:
		r = &Expr{Kind: EArr}
		for n := 1 + g.r.Intn(4); n > 0; n-- {
			r.Elems = append(r.Elems, g.literalOrPath(sc))
		}
	case 2:
		r = epath(g.relPath(sc, func(v *V) bool { return v.Kind == KArr }))
	default:
		r = epath(g.relPath(sc, nil))
	}
	return bin("in", l, r)
}

func (g *gen) literalOrPath(sc scope) *Expr {
	if g.r.Intn(2) == 0 {
		return g.literal(sc)
	}
	return epath(g.relPath(sc, func(v *V) bool { return !v.isContainer() }))
}

// relPath makes a path for an expression, that leads to what `want`
// accepts, if there is such a node nearby
func (g *gen) relPath(sc scope, want func(*V) bool) *PathQ {
	p := &PathQ{Root: "@"}
	nodes := sc.nodes
	if g.r.Intn(7) == 0 {
		p.Root = "$"
		nodes = []*V{g.doc}
	}
	if len(nodes) == 0 || g.r.Intn(6) == 0 {
		// anything
		if len(nodes) == 0 {
			nodes = []*V{VNull()}
		}
		if g.r.Intn(5) > 0 {
			p.Steps = g.steps(nodes, 3, sc.depth)
		}
		return p
	}
	// Walk from a sample node down to a node that is wanted
	n := nodes[g.r.Intn(len(nodes))]
	var cands []*V
	if want == nil || want(n) {
		cands = append(cands, n)
	}
	for _, x := range descendants(n, 60) {
		if x.Depth-n.Depth <= 3 && (want == nil || want(x)) {
			cands = append(cands, x)
		}
	}
	if len(cands) == 0 {
		p.Steps = []Step{{Sel: &Sel{Kind: SName, Name: g.name(nodes)}}}
		return p
	}
	t := cands[g.r.Intn(len(cands))]
	var rev []Step
	for x := t; x != n; x = x.Parent {
		s := &Sel{}
		if x.Parent.Kind == KObj {
			s.Kind, s.Name = SName, x.Key
			if isNumericName(x.Key) && g.r.Intn(4) > 0 {
				return p
			}
		} else {
			s.Kind, s.Index = SIndex, x.Idx
			if g.r.Intn(4) == 0 {
				s.Index -= len(x.Parent.Items)
			}
		}
		rev = append(rev, Step{Sel: s})
	}
	for i := len(rev) - 1; i >= 0; i-- {
		p.Steps = append(p.Steps, rev[i])
	}
	// Sometimes generalize
	if len(p.Steps) > 0 && g.r.Intn(8) == 0 {
		i := g.r.Intn(len(p.Steps))
		switch g.r.Intn(3) {
		case 0:
			p.Steps[i].Sel = &Sel{Kind: SWild}
		case 1:
			p.Steps[i].Desc = true
		case 2:
			p.Steps[i].Sel = g.slice(nodes)
		}
	}
	return p
}

// allCfg generates everything
func allCfg() QCfg {
	return QCfg{MaxSteps: 4, Desc: 20, Name: 6, Wild: 2, Index: 3, Slice: 3, Union: 2, Filter: 4, DotNum: 1, FDepth: 2, EDepth: 3}
}

func newGen(r *rand.Rand, doc *V, cfg QCfg) *gen {
	return &gen{r: r, cfg: cfg, doc: doc, all: Number(doc)}
}
