package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	gp "github.com/bserdar/gojsonpath"
)

func init() {
	register("C30", "errors", checkC30)
	register("C07", "equality and ordering", checkC07)
	register("C08", "arithmetic", checkC08)
	register("C09", "logical operators", checkC09)
	register("C10", "in", checkC10)
	register("C11", "length", checkC11)
	register("C12", "string literals", checkC12)
	register("C13", "numeric literals", checkC13)
}

// filterCfg: one filter, in one of the places a filter can be
func placeFilter(c *Case, f func(g *gen, sc scope) *Expr, doc *V) *PathQ {
	g := newGen(c.R, doc, allCfg())
	// the collection to filter: the container with the most records
	var best *V
	for _, v := range g.all {
		if v.isContainer() && len(v.Items) > 0 && (best == nil || c.R.Intn(3) == 0 || (v.Depth <= 1 && len(v.Items) > len(best.Items))) {
			best = v
		}
	}
	if best == nil {
		best = doc
	}
	sel := &Sel{Kind: SFilter, Filter: f(g, scope{best.Items, 1})}
	q := &PathQ{Root: "$"}
	switch c.R.Intn(6) {
	case 0:
		q.Steps = []Step{{Desc: true, Sel: sel}}
	case 1:
		q.Steps = append(pathTo(best), Step{Sel: &Sel{Kind: SUnion, Parts: []*Sel{{Kind: SName, Name: "nokey"}, sel}}})
		if u := q.Steps[len(q.Steps)-1].Sel; c.R.Intn(2) == 0 {
			u.Parts[0], u.Parts[1] = u.Parts[1], u.Parts[0]
		}
	default:
		q.Steps = append(pathTo(best), Step{Sel: sel})
	}
	return q
}

// pathTo returns the steps that lead from the root to the node
func pathTo(v *V) []Step {
	if v.Parent == nil {
		return nil
	}
	s := &Sel{Kind: SName, Name: v.Key}
	if v.Parent.Kind == KArr {
		s = &Sel{Kind: SIndex, Index: v.Idx}
	}
	return append(pathTo(v.Parent), Step{Sel: s})
}

func checkC07(r *Run) {
	r.rule = diffRule("a filter with an equality or ordering comparison between paths, literals and computed values of all kinds")
	r.assume = []string{diffAssume, "not specified (skipped): ordering between values of different kinds, null or booleans; equality of arrays or objects; === between an integer and a float; integers beyond 2^53 against the floats nearest to them"}
	r.Cases("records", r.N(50000, 1200000), func(c *Case) {
		doc := recDoc(c)
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			var e *Expr
			if c.R.Intn(2) == 0 {
				e = g.equality(c.R.Intn(2), sc)
			} else {
				e = g.relational(c.R.Intn(2), sc)
			}
			if c.R.Intn(5) == 0 {
				e = un("!", e)
			}
			return e
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("long strings", r.N(6000, 150000), func(c *Case) {
		// two strings that agree in all but one place, or one of which is the
		// start of the other
		n := c.R.Intn(1 << uint(1+c.R.Intn(10)))
		far := c.R.Intn(12) == 0
		if far {
			n = c.R.Intn(5000)
		}
		pre := randString(c.R, n)
		alpha := []rune("abcABC019 _-\u00e9\u00ff\u0100\u65e5\uffff\U0001F600")
		chr := func() string { return string(alpha[c.R.Intn(len(alpha))]) }
		suf := ""
		for k := c.R.Intn(4) * c.R.Intn(20); k > 0; k-- {
			suf += chr()
		}
		if far {
			suf += randString(c.R, c.R.Intn(5000))
		}
		a, b := pre+chr()+suf, pre+chr()+suf
		switch c.R.Intn(6) {
		case 0:
			b = a
		case 1:
			b = pre
		case 2:
			b = a + chr()
		case 3:
			b = pre + chr()
		}
		rec := VObj("x", VStr(a), "y", VStr(b))
		side := func(k, v string) *Expr {
			if c.R.Intn(2) == 0 {
				return estr(v)
			}
			return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: k}}}})
		}
		op := append(relOps, eqOps...)[c.R.Intn(10)]
		e := bin(op, side("x", a), side("y", b))
		want := map[string]bool{"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "===": a == b, "!=": a != b, "!==": a != b}[op]
		text := style(c).path(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: e}}}})
		c.Note("query: %s", clip(text))
		c.Note("left: %q", clip(a))
		c.Note("right: %q", clip(b))
		m := NewMon(VArr(rec), "ptr")
		if got := findMonText(c, m, text); (len(got) == 1) != want {
			c.Fail("%s is %v", op, !want)
		}
		c.Count("document model calls observed", int(m.total))
		c.NonTrivial(op + "\x00" + a + "\x00" + b)
	})
	// all pairs of values of an interesting pool, as literals and as nodes
	pool := []*V{VNull(), VBool(true), VBool(false), VInt(0), VInt(1), VInt(-1), VInt(2), VFloat(0), VFloat(1), VFloat(-1), VFloat(1.5), VFloat(0.5), VFloat(-0.5), VFloat(2),
		VInt(1 << 52), VFloat(1 << 52), VInt(1<<53 - 1), VInt(9007199254740993), VInt(9007199254740992), VInt(9223372036854775807), VFloat(1e300), VFloat(4294967296), VInt(4294967296), VInt(-4294967297), VFloat(0.1), VFloat(0.30000000000000004),
		VStr(""), VStr("a"), VStr("b"), VStr("ab"), VStr("A"), VStr("1"), VStr("0"), VStr("10"), VStr("9"), VStr("true"), VStr("null"), VStr("é"), VStr("z"), VStr("\U0001F600"), VStr("\uFFFD"),
		VArr(), VArr(VInt(1)), VObj(), VObj("a", VInt(1)), nil}
	ops := []string{"==", "!=", "===", "!==", "<", "<=", ">", ">="}
	n := len(pool) * len(pool) * len(ops)
	r.Cases("pairs", n*r.N(2, 6), func(c *Case) {
		k := c.N % n
		op := ops[k%len(ops)]
		k /= len(ops)
		a, b := pool[k%len(pool)], pool[k/len(pool)]
		side := func(v *V, key string, rec *V) *Expr {
			if v != nil {
				w := *v
				rec.Set(key, &w)
			}
			if v == nil || v.isContainer() || c.R.Intn(2) == 0 {
				return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: key}}}})
			}
			return litOf(v)
		}
		rec := VObj()
		l := side(a, "l", rec)
		rr := side(b, "r", rec)
		doc := VArr(rec, VObj())
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: bin(op, l, rr)}}}}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	// what is not a number, or infinite, from the document or computed
	r.Cases("not finite", r.N(6000, 100000), func(c *Case) {
		member := func(k string) *Expr {
			return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: k}}}})
		}
		rec := func() *V {
			o := VObj("nan", VFloat(math.NaN()), "inf", VFloat(math.Inf(1)), "ninf", VFloat(math.Inf(-1)), "big", VFloat(1e308), "max", VFloat(math.MaxFloat64), "n", VInt(c.R.Intn(5)-2), "zero", VFloat(0), "null", VNull())
			return o
		}
		doc := VArr(rec(), rec(), VObj("nan", VFloat(1), "inf", VInt(2)))
		inf := func() *Expr {
			return []*Expr{member("inf"), bin("*", efloat(1e308), eint(10)), bin("*", member("max"), eint(2)), bin("+", member("big"), member("max")), bin("**", member("zero"), un("-", eint(1))), un("-", member("ninf")), bin("**", eint(10), eint(400))}[c.R.Intn(7)]
		}
		nan := func() *Expr {
			return []*Expr{member("nan"), bin("-", inf(), inf()), bin("**", un("-", eint(1)), efloat(0.5)), bin("%", inf(), eint(2)), bin("*", inf(), member("zero")), un("-", member("nan")), bin("+", member("nan"), eint(1)), bin("/", inf(), inf())}[c.R.Intn(8)]
		}
		side := func() *Expr {
			switch c.R.Intn(6) {
			case 0, 1:
				return nan()
			case 2:
				return inf()
			case 3:
				return un("-", inf())
			case 4:
				return member([]string{"n", "zero", "missing", "max", "null"}[c.R.Intn(5)])
			}
			return []*Expr{eint(0), efloat(1.5), efloat(1e300), un("-", efloat(1e300)), eint(7)}[c.R.Intn(5)]
		}
		e := bin([]string{"==", "!=", "<", "<=", ">", ">="}[c.R.Intn(6)], side(), side())
		for k := c.R.Intn(3); k > 0; k-- {
			e = un("!", e)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: e}}}}
		differential(c, doc, q, style(c).path(q), diffOpts{})
		c.NonTrivial(style(c).path(q))
	})
	// values that are not the same, but nearly
	r.Cases("close values", r.N(20000, 500000), func(c *Case) {
		var a, b *V
		switch c.R.Intn(5) {
		case 0, 1:
			x := c.R.NormFloat64() * math.Pow(10, float64(c.R.Intn(25)-12))
			if c.R.Intn(3) == 0 {
				x = float64(c.R.Intn(2000)-1000) / 8
			}
			y := x
			switch c.R.Intn(6) {
			case 0:
				y = math.Nextafter(x, math.Inf(c.R.Intn(2)*2-1))
			case 1:
				y = x * (1 + math.Pow(10, -float64(1+c.R.Intn(16))))
			case 2:
				y = x + math.Pow(10, -float64(1+c.R.Intn(16)))
			case 3:
				y = -x
			case 4:
				y = float64(float32(x))
			}
			a, b = VFloat(x), VFloat(y)
			if math.Abs(x) < 1e15 && c.R.Intn(3) == 0 {
				b = VInt(int(x))
			}
		case 2, 3:
			x := int(c.R.Uint64()) >> uint(c.R.Intn(64))
			d := []int{0, 1, -1, 2, 1 << 8, 1 << 16, 1 << 31, 1 << 32, -(1 << 32), 1 << 53}[c.R.Intn(10)]
			a, b = VInt(x), VInt(x+d)
			if c.R.Intn(8) == 0 {
				b = VInt(-x)
			}
		default:
			x := randString(c.R, 5)
			y := x
			switch c.R.Intn(8) {
			case 0:
				y = strings.ToUpper(x)
			case 1:
				y = strings.ToLower(x)
			case 2:
				y = x + " "
			case 3:
				y = " " + x
			case 4:
				y = x + "\x00"
			case 5:
				if x != "" {
					_, n := utf8.DecodeLastRuneInString(x)
					y = x[:len(x)-n]
				}
			case 6:
				y = x + string(rune(c.R.Intn(0x300)))
			}
			a, b = VStr(x), VStr(y)
		}
		if c.R.Intn(2) == 0 {
			a, b = b, a
		}
		rec := VObj("l", a, "r", b)
		side := func(v *V, key string) *Expr {
			e := litOf(v)
			p := epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: key}}}})
			switch c.R.Intn(4) {
			case 0:
				if v.Kind == KInt && v.I == math.MinInt64 {
					return p
				}
				return e
			case 1:
				if v.Kind == KInt && c.R.Intn(2) == 0 {
					return bin("+", p, eint(0))
				}
			}
			return p
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: bin([]string{"==", "!=", "===", "!==", "<", "<=", ">", ">="}[c.R.Intn(8)], side(a, "l"), side(b, "r"))}}}}
		differential(c, VArr(rec), q, style(c).path(q), diffOpts{})
	})
	// trichotomy and negation laws on numbers and strings, without the reference
	r.Cases("laws", r.N(8000, 150000), func(c *Case) {
		num := c.R.Intn(2) == 0
		val := func() *V {
			if num {
				if c.R.Intn(3) == 0 {
					return VInt(c.R.Intn(2000000) - 1000000)
				}
				if c.R.Intn(2) == 0 {
					return VFloat(math.Round(c.R.NormFloat64()*8) / 4)
				}
				return VInt(c.R.Intn(9) - 4)
			}
			return VStr(randString(c.R, 3))
		}
		doc := VArr()
		for i := 0; i < 8; i++ {
			doc.Items = append(doc.Items, VObj("l", val(), "r", val()))
		}
		c.Note("document: %s", doc)
		m := NewMon(doc, "ptr")
		in := func(op string) map[int]bool {
			out := map[int]bool{}
			for _, v := range findMon(c, m, parse(c, "$[?(@.l "+op+" @.r)]")) {
				out[v.Idx] = true
			}
			return out
		}
		eq, ne, lt, le, gt, ge := in("=="), in("!="), in("<"), in("<="), in(">"), in(">=")
		for i := range doc.Items {
			if eq[i] == ne[i] {
				c.Fail("element %d: == and != are both %v", i, eq[i])
			}
			cnt := 0
			for _, x := range []bool{lt[i], eq[i], gt[i]} {
				if x {
					cnt++
				}
			}
			if cnt != 1 {
				c.Fail("element %d: of <, ==, > %d hold", i, cnt)
			}
			if le[i] != (lt[i] || eq[i]) || ge[i] != (gt[i] || eq[i]) {
				c.Fail("element %d: <= or >= disagrees with <, ==, >", i)
			}
		}
		c.NonTrivial(doc.String())
	})
}

var stringPool = []string{"", "a", "b", "ab", "B", "aa", "é", "日本", "\U0001F600", "x y", "'", "\"", "\\", "\n", "\t", "\x00", "\u2028", "\u00a0", "\x7f", "\r", "\x01", "\ufeff", "0", "9", "null", "\\n", "\\u0041", "'\"", "//", "${", "%s", "\u0301", "\ufffd", "\uffff", "\U0010ffff"}

func randString(r *rand.Rand, n int) string {
	var b strings.Builder
	for k := r.Intn(n + 1); k > 0; k-- {
		switch r.Intn(4) {
		case 0:
			b.WriteString(stringPool[r.Intn(len(stringPool))])
		case 1:
			b.WriteRune(rune(r.Intn(128)))
		case 2:
			x := rune(r.Intn(0x3000))
			if r.Intn(4) == 0 {
				x = rune(r.Intn(0x110000))
			}
			if utf8.ValidRune(x) {
				b.WriteRune(x)
			}
		default:
			b.WriteByte("abcABC019_-$"[r.Intn(12)])
		}
	}
	return b.String()
}

func checkC08(r *Run) {
	r.rule = diffRule("a filter that compares the value of a random arithmetic expression with its exact value by the reference (or a perturbed one)")
	r.assume = []string{diffAssume, "integer arithmetic is Go int arithmetic (wraps, / truncates), anything with a float and ** is float64; division by zero and missing operands give null"}
	r.Cases("expressions", r.N(32000, 1200000), func(c *Case) {
		doc := recDoc(c)
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			a := g.numExpr(2+c.R.Intn(2), sc)
			if c.R.Intn(4) == 0 {
				return bin(append(relOps, "==", "!=")[c.R.Intn(6)], a, g.numExpr(2, sc))
			}
			// the value for one of the nodes, maybe off by a little
			n := doc
			if len(sc.nodes) > 0 {
				n = sc.nodes[c.R.Intn(len(sc.nodes))]
			}
			v, ok := tryExpr(doc, a, n)
			if !ok {
				return bin("==", a, g.numExpr(1, sc))
			}
			lit := litRV(c.R, v)
			if c.R.Intn(4) == 0 {
				return bin("==", lit, a)
			}
			return bin("==", a, lit)
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	// precedence and associativity: random operator trees over constants,
	// written with the fewest parentheses
	r.Cases("precedence", r.N(26000, 800000), func(c *Case) {
		doc := VArr(VObj("n", VInt(c.R.Intn(7)-2), "m", VFloat(float64(c.R.Intn(9)-4)/2)))
		Number(doc)
		var mk func(d int) *Expr
		mk = func(d int) *Expr {
			if d == 0 || c.R.Intn(7) == 0 {
				switch c.R.Intn(4) {
				case 0:
					return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "n"}}}})
				case 1:
					return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "m"}}}})
				case 2:
					return efloat(float64(1+c.R.Intn(7)) / 2)
				}
				return eint(c.R.Intn(6))
			}
			if c.R.Intn(8) == 0 {
				return un([]string{"-", "-", "+"}[c.R.Intn(3)], mk(d-1))
			}
			op := []string{"+", "-", "*", "/", "%", "**"}[c.R.Intn(6)]
			return bin(op, mk(d-1), mk(d-1))
		}
		e := mk(2 + c.R.Intn(2))
		v, ok := tryExpr(doc, e, doc.Items[0])
		if !ok || v.k == rFloat && (math.IsNaN(v.f) || math.IsInf(v.f, 0)) {
			c.Skip("no value")
		}
		f := bin("==", e, litRV(c.R, v))
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: f}}}}
		s := style(c)
		s.FullPar = c.R.Intn(10) == 0
		differential(c, doc, q, s.path(q), diffOpts{})
		c.NonTrivial(s.path(q))
	})
	// integers of any size, with results that are off by one to tell apart
	r.Cases("large integers", r.N(40000, 800000), func(c *Case) {
		pick := func() int {
			x := int(c.R.Uint64()) >> uint(c.R.Intn(64))
			switch c.R.Intn(4) {
			case 0:
				x = []int{0, 1, -1, 2, 3, -7, 10, 1 << 31, -(1 << 31), 1<<32 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, math.MinInt64 + 1}[c.R.Intn(16)]
			case 1:
				x = c.R.Intn(20) - 9
			}
			return x
		}
		x, y := pick(), pick()
		op := []string{"+", "-", "*", "/", "%"}[c.R.Intn(5)]
		z, null := 0, false
		switch op {
		case "+":
			z = x + y
		case "-":
			z = x - y
		case "*":
			z = x * y
		default:
			if null = y == 0; null {
				break
			}
			if z = x / y; op == "%" {
				z = x - z*y
			}
		}
		rec := func(z int) *V { return VObj("x", VInt(x), "y", VInt(y), "z", VInt(z)) }
		doc := VArr(rec(z), rec(z+1), rec(z-1), rec(^z), VObj("x", VInt(x), "y", VInt(y), "z", VNull()))
		Number(doc)
		member := func(k string) *Expr {
			return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: k}}}})
		}
		l, rr := member("x"), member("y")
		if c.R.Intn(3) == 0 && x != math.MinInt64 {
			l = eint(x)
		}
		if c.R.Intn(3) == 0 && y != math.MinInt64 {
			rr = eint(y)
		}
		e := bin(op, l, rr)
		f := bin("==", e, member("z"))
		if c.R.Intn(3) == 0 {
			f = bin("===", member("z"), e)
		}
		text := style(c).path(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: f}}}})
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		m := NewMon(doc, "ptr")
		got := findMonText(c, m, text)
		want := doc.Items[0]
		if null {
			want = doc.Items[4]
		}
		if len(got) != 1 || got[0] != want {
			c.Fail("selected %s, expected %s", locs(got), want.Loc())
		}
		c.Count("document model calls observed", int(m.total))
		c.NonTrivial(text + doc.String())
	})
	// floating point results to the last bit, and the sign of zeros
	r.Cases("floats", r.N(20000, 400000), func(c *Case) {
		pick := func() *V {
			x := c.R.NormFloat64() * math.Pow(10, float64(c.R.Intn(25)-12))
			switch c.R.Intn(9) {
			case 0:
				return VInt(c.R.Intn(9) - 4)
			case 1:
				x = float64(c.R.Intn(9)-4) / 2
			case 2:
				x = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.2, 0.3, 1e16, -1e16, 5e-324, 1e308, 1.0 / 3, 1e-300}[c.R.Intn(13)]
			case 3:
				x *= math.Pow(10, float64(c.R.Intn(500)-250))
			case 4:
				x = float64(c.R.Intn(200)-100) / 10
			}
			return VFloat(x)
		}
		keys := []string{"x", "y", "z"}
		vals := []*V{pick(), pick(), pick()}
		if c.R.Intn(3) == 0 {
			vals[1] = vals[0]
		}
		var mk func(d int) *Expr
		mk = func(d int) *Expr {
			if d == 0 || c.R.Intn(6) == 0 {
				k := c.R.Intn(3)
				if c.R.Intn(5) == 0 {
					return litOf(vals[k])
				}
				if c.R.Intn(12) == 0 {
					return eint(c.R.Intn(3))
				}
				return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: keys[k]}}}})
			}
			if c.R.Intn(7) == 0 {
				return un([]string{"-", "-", "+"}[c.R.Intn(3)], mk(d-1))
			}
			op := []string{"+", "-", "*", "/", "%", "**", "+", "-", "*"}[c.R.Intn(9)]
			return bin(op, mk(d-1), mk(d-1))
		}
		// what could be simplified, if numbers were real numbers
		simple := func() *Expr {
			x, y, z := mk(c.R.Intn(2)), mk(0), mk(0)
			switch c.R.Intn(14) {
			case 0, 1:
				return un("-", bin("-", x, y))
			case 2:
				return un("-", bin("-", x, x))
			case 3:
				return bin("-", eint(0), x)
			case 4:
				return bin("+", x, eint(0))
			case 5:
				return bin("-", x, bin("-", y, z))
			case 6:
				return bin("*", x, efloat(0))
			case 7:
				return bin("-", bin("+", x, y), y)
			case 8:
				return bin("/", bin("*", x, y), y)
			case 9:
				return bin("+", bin("*", x, y), bin("*", x, z))
			case 10:
				return bin("*", x, bin("/", eint(1), y))
			case 11:
				return bin("**", x, eint(2))
			case 12:
				return bin("**", bin("**", x, eint(2)), efloat(0.5))
			}
			return un("-", bin([]string{"+", "*", "/", "%"}[c.R.Intn(4)], x, y))
		}
		e := mk(1 + c.R.Intn(3))
		if c.R.Intn(3) == 0 {
			e = simple()
		}
		rec := func(z *V) *V {
			o := VObj("v", z)
			for i, k := range keys {
				w := *vals[i]
				o.Set(k, &w)
			}
			return o
		}
		doc := VArr(rec(VNull()))
		Number(doc)
		v, ok := tryExpr(doc, e, doc.Items[0])
		if !ok || v.k != rFloat {
			c.Skip("not a floating point value")
		}
		doc = VArr(rec(VFloat(v.f)), rec(VFloat(math.Nextafter(v.f, math.Inf(1)))), rec(VFloat(math.Nextafter(v.f, math.Inf(-1)))), rec(VFloat(-v.f)), rec(VFloat(float64(float32(v.f)))), rec(VFloat(math.Trunc(v.f))))
		at := epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "v"}}}})
		f := bin([]string{"==", "===", "==", "<=", ">"}[c.R.Intn(5)], e, at)
		if v.f == 0 || c.R.Intn(20) == 0 {
			f = bin("<", bin("**", e, un("-", eint(1))), eint(0))
			c.Count("signs looked at", 1)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: f}}}}
		text := style(c).path(q)
		differential(c, doc, q, text, diffOpts{})
		c.NonTrivial(text + doc.String())
	})
	// long chains of operators of one or two levels, and deep parentheses
	r.Cases("chains", r.N(4000, 100000), func(c *Case) {
		doc := VArr(VObj("n", VInt(c.R.Intn(7)-2), "m", VFloat(float64(c.R.Intn(9)-4)/2)))
		Number(doc)
		leaf := func() *Expr {
			switch c.R.Intn(6) {
			case 0:
				return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "n"}}}})
			case 1:
				return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "m"}}}})
			case 2:
				return efloat(float64(1+c.R.Intn(7)) / 2)
			}
			return eint(1 + c.R.Intn(9))
		}
		ops := [][]string{{"+", "-"}, {"-"}, {"*", "/"}, {"/"}, {"%", "*"}, {"+", "-", "*", "/"}}[c.R.Intn(6)]
		n := 3 + c.R.Intn(1<<uint(1+c.R.Intn(6)))
		e := leaf()
		mode := c.R.Intn(4)
		for i := 1; i < n; i++ {
			op := ops[c.R.Intn(len(ops))]
			switch {
			case mode == 0 || mode == 1 && c.R.Intn(2) == 0:
				e = bin(op, leaf(), e) // to the right: parentheses
			default:
				e = bin(op, e, leaf())
			}
			if c.R.Intn(20) == 0 {
				e = un("-", e)
			}
		}
		v, ok := tryExpr(doc, e, doc.Items[0])
		if !ok {
			c.Skip("no value")
		}
		lit := litRV(c.R, v)
		f := bin("==", e, lit)
		if c.R.Intn(3) == 0 {
			f = bin("==", lit, e)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: f}}}}
		c.Count(fmt.Sprintf("chains of %d operands or more", []int{3, 10, 20, 30}[min(3, n/10)]), 1)
		differential(c, doc, q, style(c).path(q), diffOpts{})
		c.NonTrivial(clip(fmt.Sprint(n, style(c).path(q))))
	})
	// comparison operators bind looser than arithmetic, tighter than && ||
	r.Cases("mixed precedence", r.N(14000, 300000), func(c *Case) {
		doc := VArr(VObj("n", VInt(c.R.Intn(5)-1), "m", VInt(c.R.Intn(4)), "f", VBool(c.R.Intn(2) == 0)), VObj("n", VInt(3), "m", VInt(1), "f", VBool(true)))
		num := func() *Expr {
			switch c.R.Intn(3) {
			case 0:
				return eint(c.R.Intn(5))
			case 1:
				return bin([]string{"+", "-", "*"}[c.R.Intn(3)], epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "n"}}}}), eint(c.R.Intn(4)))
			}
			return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: []string{"n", "m"}[c.R.Intn(2)]}}}})
		}
		var mk func(d int) *Expr
		mk = func(d int) *Expr {
			switch {
			case d == 0 || c.R.Intn(5) == 0:
				switch c.R.Intn(4) {
				case 0:
					return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "f"}}}})
				case 1:
					return bin("in", num(), &Expr{Kind: EArr, Elems: []*Expr{num(), num()}})
				}
				return bin(append(relOps, "==", "!=")[c.R.Intn(6)], num(), num())
			case c.R.Intn(6) == 0:
				return un("!", mk(d-1))
			case c.R.Intn(6) == 0:
				return bin([]string{"==", "!="}[c.R.Intn(2)], mk(d-1), mk(d-1))
			}
			return bin([]string{"&&", "||"}[c.R.Intn(2)], mk(d-1), mk(d-1))
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: mk(3)}}}}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
}

func tryExpr(root *V, e *Expr, cur *V) (v rv, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(unspec); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return (&ref{root: root, limit: 300_000}).expr(e, cur), true
}

// litRV writes a value as a literal, sometimes a slightly different one
func litRV(r *rand.Rand, v rv) *Expr {
	off := r.Intn(6) == 0
	switch v.k {
	case rInt:
		if v.i == math.MinInt {
			return eint(0)
		}
		if off {
			return eint(v.i + r.Intn(3) - 1)
		}
		return eint(v.i)
	case rFloat:
		if math.IsNaN(v.f) || math.IsInf(v.f, 0) || math.Abs(v.f) > 1e15 {
			return eint(1)
		}
		if off {
			return efloat(v.f + float64(r.Intn(3)-1)/4)
		}
		return efloat(v.f)
	case rBool:
		return &Expr{Kind: EBool, B: v.b}
	case rStr:
		return estr(v.s)
	}
	return &Expr{Kind: ENull}
}

// related returns an expression about what e is about
func related(c *Case, g *gen, e *Expr, sc scope) *Expr {
	if e.Kind != EBin || e.Op == "&&" || e.Op == "||" || e.Op == "in" || c.R.Intn(5) == 0 {
		switch c.R.Intn(4) {
		case 0:
			return e
		case 1:
			return un("!", un("!", e))
		}
		return un("!", e)
	}
	ops := relOps
	if e.Op[0] == '=' || e.Op[0] == '!' || c.R.Intn(8) == 0 {
		ops = eqOps
	}
	x := bin(ops[c.R.Intn(len(ops))], e.L, e.R)
	switch c.R.Intn(6) {
	case 0:
		x.L, x.R = x.R, x.L
	case 1:
		x.R = g.literal(sc)
	case 2:
		if x.R.Kind == EInt && x.R.I > 0 && x.R.I < 1<<40 {
			x.R = eint(x.R.I + c.R.Intn(3) - 1)
		}
	}
	if c.R.Intn(5) == 0 {
		return un("!", x)
	}
	return x
}

func checkC09(r *Run) {
	r.rule = diffRule("a filter of logical operators over operands of every kind and truth value; part table compares with truth tables computed in the harness, and checks De Morgan equivalences between two queries")
	r.assume = []string{diffAssume}
	leaf := func(c *Case) (*Expr, bool) {
		type l struct {
			e *Expr
			b bool
		}
		p := func(k string) *Expr {
			return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: k}}}})
		}
		ls := []l{
			{&Expr{Kind: EBool, B: true}, true}, {&Expr{Kind: EBool, B: false}, false}, {&Expr{Kind: ENull}, false},
			{eint(0), false}, {eint(3), true}, {efloat(0), false}, {efloat(0.5), true}, {estr(""), false}, {estr("a"), true}, {estr("false"), true},
			{p("t"), true}, {p("f"), false}, {p("z"), false}, {p("one"), true}, {p("zero"), false}, {p("missing"), false}, {p("arr"), true}, {p("obj"), true}, {p("s"), true}, {p("es"), false},
			{p("wide"), true}, {p("least"), true}, {p("tiny"), true}, {p("nzero"), false}, {p("blank"), true},
			{estr("0"), true}, {estr("null"), true}, {estr("0.0"), true}, {estr("-0"), true}, {estr("\t"), true}, {estr("\ufeff"), true}, {p("s0"), true},
			{efloat(5e-324), true}, {eint(1 << 32), true}, {estr(" "), true}, {un("-", eint(0)), false},
			{epath(&PathQ{Root: "@"}), true},
			{epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SWild}}}}), true},
			{bin("==", p("one"), eint(1)), true}, {bin("<", p("one"), eint(1)), false}, {bin("==", p("missing"), eint(1)), false}, {bin("!=", p("missing"), eint(1)), true},
			{epath(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SIndex, Index: 5}}}}), false},
			{epath(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SIndex, Index: 0}}}}), true},
		}
		x := ls[c.R.Intn(len(ls))]
		return x.e, x.b
	}
	mkDoc := func() *V {
		return VArr(VObj("t", VBool(true), "f", VBool(false), "z", VNull(), "one", VInt(1), "zero", VInt(0), "arr", VArr(), "obj", VObj(), "s", VStr("x"), "es", VStr(""),
			"wide", VInt(1<<32), "least", VInt(-1<<63), "tiny", VFloat(5e-324), "nzero", VFloat(math.Copysign(0, -1)), "blank", VStr("\x00"), "s0", VStr("0")))
	}
	r.Cases("table", r.N(24000, 800000), func(c *Case) {
		var mk func(d int) (*Expr, bool)
		mk = func(d int) (*Expr, bool) {
			if d == 0 || c.R.Intn(6) == 0 {
				return leaf(c)
			}
			switch c.R.Intn(6) {
			case 0:
				e, b := mk(d - 1)
				return un("!", e), !b
			case 5:
				// The result of a logical operator is a boolean
				e, b := mk(d - 1)
				if (e.Kind != EUnary || e.Op != "!") && (e.Kind != EBin || e.Op != "&&" && e.Op != "||") {
					e, b = un("!", e), !b
				}
				w := c.R.Intn(2) == 0
				op := []string{"==", "!=", "===", "!=="}[c.R.Intn(4)]
				x, y := e, &Expr{Kind: EBool, B: w}
				if c.R.Intn(3) == 0 {
					x, y = y, x
				}
				return bin(op, x, y), (b == w) == (op[0] == '=')
			case 1, 2:
				l, a := mk(d - 1)
				rr, b := mk(d - 1)
				return bin("&&", l, rr), a && b
			}
			l, a := mk(d - 1)
			rr, b := mk(d - 1)
			return bin("||", l, rr), a || b
		}
		e, want := mk(1 + c.R.Intn(4))
		doc := mkDoc()
		m := NewMon(doc, "ptr")
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: e}}}}
		text := style(c).path(q)
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		c.Note("expected: %v", want)
		if got := len(findMonText(c, m, text)); (got == 1) != want || got > 1 {
			c.Fail("selected %d elements", got)
		}
		c.Count("document model calls observed", int(m.total))
		c.Count(fmt.Sprintf("expressions that are %v", want), 1)
		c.NonTrivial(text)
		c.Sample(map[string]any{"query": text, "value": want})
	})
	r.Cases("chains", r.N(6000, 150000), func(c *Case) {
		// a || b && c ..., of which often only one operand decides
		n := 3 + c.R.Intn(1<<uint(1+c.R.Intn(6)))
		tval, fval := c.R.Intn(n), c.R.Intn(n)
		mode := c.R.Intn(4)
		i := -1
		next := func() (*Expr, bool) {
			i++
			for {
				e, b := leaf(c)
				switch {
				case mode == 0 && b != (i == tval), mode == 1 && b == (i == fval):
					continue
				}
				for c.R.Intn(10) == 0 {
					e = un("!", un("!", e))
				}
				return e, b
			}
		}
		main := "||"
		if mode == 1 || mode == 2 && c.R.Intn(2) == 0 {
			main = "&&"
		}
		e, want := next()
		for i < n-1 {
			x, b := next()
			op := main
			if mode == 3 {
				op = []string{"&&", "||"}[c.R.Intn(2)]
			}
			if mode == 2 && i < n-1 && c.R.Intn(3) == 0 {
				// a group of the other operator
				y, d := next()
				if main == "||" {
					x, b = bin("&&", x, y), b && d
				} else {
					x, b = bin("||", x, y), b || d
				}
			}
			if mode == 3 && c.R.Intn(4) == 0 {
				e, x, want, b = x, e, b, want
			}
			if op == "&&" {
				want = want && b
			} else {
				want = want || b
			}
			e = bin(op, e, x)
		}
		for k := c.R.Intn(3) * c.R.Intn(12); k > 0; k-- {
			e, want = un("!", e), !want
		}
		doc := mkDoc()
		m := NewMon(doc, "ptr")
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: e}}}}
		text := style(c).path(q)
		c.Note("document: %s", doc)
		c.Note("query: %s", clip(text))
		c.Note("expected: %v", want)
		if got := len(findMonText(c, m, text)); (got == 1) != want || got > 1 {
			c.Fail("selected %d elements", got)
		}
		c.Count("document model calls observed", int(m.total))
		c.Count(fmt.Sprintf("chains of %d operands or more", []int{3, 10, 20, 30}[min(3, n/10)]), 1)
		c.NonTrivial(text)
	})
	r.Cases("records", r.N(16000, 600000), func(c *Case) {
		doc := recDoc(c)
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			return bin([]string{"&&", "||"}[c.R.Intn(2)], g.anyBool(2, sc), g.anyBool(2, sc))
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("related", r.N(12000, 400000), func(c *Case) {
		// operands that share theirs: a < b || a >= b, a && !a, ...
		doc := recDoc(c)
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			var a *Expr
			switch c.R.Intn(4) {
			case 0:
				a = g.anyBool(1, sc)
			case 1:
				a = g.equality(1, sc)
			default:
				a = g.relational(1, sc)
				if c.R.Intn(2) == 0 {
					// of a node that may be missing
					p := epath(g.relPath(sc, nil))
					a = bin(relOps[c.R.Intn(4)], p, g.literal(sc))
					if c.R.Intn(3) == 0 {
						a.L, a.R = a.R, a.L
					}
				}
			}
			e := a
			for k := 1 + c.R.Intn(3); k > 0; k-- {
				b := related(c, g, a, sc)
				if c.R.Intn(2) == 0 {
					e, b = b, e
				}
				e = bin([]string{"&&", "||"}[c.R.Intn(2)], e, b)
			}
			if c.R.Intn(4) == 0 {
				e = un("!", e)
			}
			return e
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("de morgan", r.N(8000, 150000), func(c *Case) {
		doc := recDoc(c)
		var a, b *Expr
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			a, b = g.anyBool(2, sc), g.anyBool(2, sc)
			return un("!", bin("&&", a, b))
		}, doc)
		t1 := style(c).path(q)
		var set func(s *Sel)
		set = func(s *Sel) {
			if s.Kind == SFilter {
				s.Filter = bin("||", un("!", a), un("!", b))
			}
			for _, p := range s.Parts {
				set(p)
			}
		}
		for _, st := range q.Steps {
			set(st.Sel)
		}
		t2 := style(c).path(q)
		m := NewMon(doc, "ptr")
		c.Note("document: %s", doc)
		c.Note("query: %s", t1)
		c.Note("query: %s", t2)
		x, y := findMonText(c, m, t1), findMonText(c, m, t2)
		if !sameBag(x, y) {
			c.Fail("!(a && b) selects %s, !a || !b selects %s", locs(x), locs(y))
		}
		if len(x) > 0 {
			c.NonTrivial(t1 + doc.String())
		}
	})
}

func checkC10(r *Run) {
	r.rule = diffRule("a filter with in: literals and paths on the left, array literals, array nodes, several nodes, single values and missing nodes on the right")
	r.assume = []string{diffAssume}
	r.Cases("random", r.N(50000, 1200000), func(c *Case) {
		doc := recDoc(c)
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			e := g.inExpr(1, sc)
			switch c.R.Intn(6) {
			case 0:
				return un("!", e)
			case 1:
				return bin([]string{"&&", "||"}[c.R.Intn(2)], e, g.anyBool(1, sc))
			}
			return e
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("large", r.N(3000, 60000), func(c *Case) {
		// long lists with at most a few members that matter
		n := 1 + c.R.Intn(1<<uint(2+c.R.Intn(7)))
		huge := c.R.Intn(80) == 0
		if huge {
			n = []int{1000, 4097, 32769, 65537, 70000}[c.R.Intn(5)]
		}
		val := func(i int) *V {
			switch i % 4 {
			case 0:
				return VInt(i)
			case 1:
				return VStr("s" + strconv.Itoa(i))
			case 2:
				return VFloat(float64(i) + 0.5)
			}
			return VInt(-i)
		}
		kind := c.R.Intn(5) // 4: all kinds
		pos := func(i int) int {
			if kind == 4 {
				return i
			}
			return 4*i + kind
		}
		arr := VArr()
		for i := 0; i < n; i++ {
			arr.Items = append(arr.Items, val(pos(i)))
		}
		if c.R.Intn(3) == 0 {
			arr.Items[c.R.Intn(n)] = []*V{VNull(), VBool(true), VArr(VInt(4)), VObj("a", VInt(4)), VBool(false)}[c.R.Intn(5)]
		}
		c.R.Shuffle(n, func(i, j int) { arr.Items[i], arr.Items[j] = arr.Items[j], arr.Items[i] })
		var recs []*V
		for k := 0; k < 4; k++ {
			x := val(pos(c.R.Intn(n + n/2 + 1)))
			if k == 0 {
				y := *arr.Items[[]int{n - 1, 0, c.R.Intn(n)}[c.R.Intn(3)]]
				if x = &y; x.isContainer() {
					x = VInt(1)
				}
			}
			recs = append(recs, VObj("x", x))
		}
		recs[0].Set("r", arr)
		doc := VObj("r", recs[0].Get("r"), "c", &V{Kind: KArr, Items: recs})
		recs[0].Items, recs[0].Keys = recs[0].Items[:1], recs[0].Keys[:1]
		x := epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "x"}}}})
		var l *Expr
		as := c.R.Intn(3)
		if huge && as == 2 {
			as = 0
		}
		switch as {
		case 0:
			l = epath(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "r"}}}})
		case 1:
			l = epath(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "r"}}, {Sel: &Sel{Kind: SWild}}}})
		case 2:
			l = &Expr{Kind: EArr}
			for _, y := range arr.Items {
				if !y.isContainer() {
					l.Elems = append(l.Elems, litOf(y))
				}
			}
			if len(l.Elems) == 0 {
				c.Skip("an empty literal")
			}
		}
		e := bin("in", x, l)
		if c.R.Intn(3) == 0 {
			e = un("!", e)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "c"}}, {Sel: &Sel{Kind: SFilter, Filter: e}}}}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("kinds", r.N(20000, 300000), func(c *Case) {
		pool := []*V{VNull(), VBool(true), VBool(false), VInt(0), VInt(1), VFloat(1), VFloat(1.5), VInt(2), VStr(""), VStr("1"), VStr("a"), VStr("null"), VStr("true")}
		pickv := func() *V { v := *pool[c.R.Intn(len(pool))]; return &v }
		arr := VArr()
		for i := c.R.Intn(4); i > 0; i-- {
			arr.Items = append(arr.Items, pickv())
		}
		rec := VObj("x", pickv(), "r", arr)
		p := func(k ...string) *Expr {
			q := &PathQ{Root: "@"}
			for _, x := range k {
				if x == "*" {
					q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SWild}})
				} else {
					q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SName, Name: x}})
				}
			}
			return epath(q)
		}
		l := p("x")
		switch c.R.Intn(4) {
		case 0:
			l = litOf(pickv())
		case 1:
			l = p("missing")
		}
		var rr *Expr
		switch c.R.Intn(8) {
		case 6:
			rr = litOf(pickv()) // a list of itself; null is an empty one
		case 0:
			rr = p("r")
		case 1:
			rr = p("r", "*")
		case 2:
			rr = p("missing")
		case 3:
			rr = p("x")
		default:
			rr = &Expr{Kind: EArr}
			for _, x := range arr.Items {
				rr.Elems = append(rr.Elems, litOf(x))
			}
			if len(rr.Elems) == 0 || c.R.Intn(3) == 0 {
				rr.Elems = append(rr.Elems, p("x"))
			}
		}
		e := bin("in", l, rr)
		switch c.R.Intn(5) {
		case 0: // the result is a boolean
			e = bin("==", e, &Expr{Kind: EBool, B: c.R.Intn(2) == 0})
		case 1:
			e = un("!", e)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: e}}}}
		differential(c, VArr(rec, VObj("x", VInt(7))), q, style(c).path(q), diffOpts{})
	})
}

func checkC11(r *Run) {
	r.rule = diffRule("a filter that compares length(path) and path.length() with the number of elements; part other receivers: the same for array literals, values and expressions in their place")
	r.assume = []string{diffAssume, "the length of anything but an array node is 0; of several nodes is not specified"}
	r.Cases("random", r.N(40000, 800000), func(c *Case) {
		doc := recDoc(c)
		if c.R.Intn(2) == 0 {
			doc = genDoc(c.R, DocCfg{MaxDepth: 4, MaxWidth: 5, Budget: 60, Exotic: c.R.Intn(3) == 0})
		}
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			l := &Expr{Kind: ELen, Path: g.relPath(sc, func(v *V) bool { return v.Kind == KArr || c.R.Intn(8) == 0 }), Method: c.R.Intn(2) == 0}
			var e *Expr
			switch c.R.Intn(6) {
			case 0:
				return l
			case 1:
				e = bin(relOps[c.R.Intn(4)], l, epath(g.relPath(sc, isNum)))
			case 2:
				e = bin("==", bin("-", l, eint(1)), eint(c.R.Intn(4)))
			case 3:
				e = bin("in", l, &Expr{Kind: EArr, Elems: []*Expr{eint(c.R.Intn(4)), eint(c.R.Intn(4))}})
			default:
				e = bin(append(relOps, "==", "!=")[c.R.Intn(6)], l, eint(c.R.Intn(5)))
			}
			if c.R.Intn(5) == 0 {
				e = un("!", e)
			}
			return e
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("other receivers", r.N(8000, 120000), func(c *Case) {
		// x is written down: an array literal, a value, an expression
		a := VArr()
		for i := c.R.Intn(5); i > 0; i-- {
			a.Items = append(a.Items, genScalar(c.R))
		}
		doc := VArr(VObj("a", a, "s", VStr("abc"), "n", VInt(3), "z", VNull(), "o", VObj("length", VInt(7))))
		Number(doc)
		at := func(k string) *Expr {
			return epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: k}}}})
		}
		var x func(d int) (*Expr, int)
		x = func(d int) (*Expr, int) {
			switch c.R.Intn(10) {
			case 0:
				return at("a"), len(a.Items)
			case 1:
				return at([]string{"s", "n", "z", "o", "missing"}[c.R.Intn(5)]), 0
			case 2:
				return []*Expr{eint(2), efloat(1.5), estr("abc"), estr(""), {Kind: ENull}, {Kind: EBool, B: true}}[c.R.Intn(6)], 0
			case 3:
				return bin([]string{"+", "==", "&&", "<", "||", "%", "**"}[c.R.Intn(7)], at("n"), eint(c.R.Intn(4))), 0
			case 4:
				return un([]string{"!", "-"}[c.R.Intn(2)], at([]string{"a", "n"}[c.R.Intn(2)])), 0
			}
			e := &Expr{Kind: EArr}
			if d < 3 {
				for i := c.R.Intn(5); i > 0; i-- {
					y, _ := x(d + 1)
					e.Elems = append(e.Elems, y)
				}
			}
			return e, len(e.Elems)
		}
		e, n := x(0)
		st := &Style{R: c.R}
		t := st.expr(e, 0)
		forms := []string{"length(" + t + ")", "(" + t + ").length()", "((" + t + ")).length()", "length((" + t + "))", "length(" + t + ",1)", "(" + t + ").length('x')", "length(" + t + ",)"}
		if e.Kind == EArr || e.Kind == EStr || e.Kind == EPath {
			forms = append(forms, t+".length()", t+".length()", t+" . length()")
		}
		m := NewMon(doc, "ptr")
		for k := 0; k < 3; k++ {
			l := forms[c.R.Intn(len(forms))]
			w := n + c.R.Intn(3)*c.R.Intn(2)
			text := fmt.Sprintf("$[?(%s == %d)]", l, w)
			switch c.R.Intn(4) {
			case 0:
				text = fmt.Sprintf("$[?(%d === %s)]", w, l)
			case 1:
				text = fmt.Sprintf("$[?(-%s in [%d, -%d])]", l, n+1, w)
				if w == 0 {
					text = fmt.Sprintf("$[?(%s in [%d, %d])]", l, n+1, w)
				}
			}
			c.Note("document: %s", doc)
			c.Note("query: %s", text)
			if got := findMonText(c, m, text); (len(got) == 1) != (w == n) {
				c.Fail("the length %d of %s is taken for another, or %d for it", n, t, w)
			}
			c.NonTrivial(text + doc.String())
		}
		c.Sample(map[string]any{"x": t, "length": n})
	})
	r.Cases("receivers", r.N(3000, 60000), func(c *Case) {
		// the current node itself, and nodes of every kind
		doc := VArr()
		for i := 2 + c.R.Intn(8); i > 0; i-- {
			switch c.R.Intn(4) {
			case 0:
				doc.Items = append(doc.Items, genScalar(c.R))
			case 1:
				doc.Items = append(doc.Items, VObj("a", genDoc(c.R, DocCfg{MaxDepth: 2, MaxWidth: 4, Budget: 10}), "b", VArr(VInt(1), VInt(2))))
			default:
				a := VArr()
				for j := c.R.Intn(5); j > 0; j-- {
					a.Items = append(a.Items, genDoc(c.R, DocCfg{MaxDepth: 2, MaxWidth: 3, Budget: 6}))
				}
				doc.Items = append(doc.Items, a)
			}
		}
		p := &PathQ{Root: []string{"@", "@", "@", "$"}[c.R.Intn(4)]}
		for k := c.R.Intn(3); k > 0; k-- {
			s := &Sel{Kind: SIndex, Index: c.R.Intn(5) - 2}
			if c.R.Intn(3) == 0 {
				s = &Sel{Kind: SName, Name: []string{"a", "b", "none"}[c.R.Intn(3)]}
			}
			p.Steps = append(p.Steps, Step{Sel: s})
		}
		l := &Expr{Kind: ELen, Path: p, Method: c.R.Intn(2) == 0}
		if c.R.Intn(3) == 0 {
			// the first argument counts
			other := []*Expr{eint(1), estr("x"), epath(&PathQ{Root: "@"}), epath(&PathQ{Root: "$"}), {Kind: EArr, Elems: []*Expr{eint(1), eint(2)}}}
			for k := c.R.Intn(3); k >= 0; k-- {
				l.Elems = append(l.Elems, other[c.R.Intn(len(other))])
			}
		}
		q := &PathQ{Root: "$", Steps: []Step{{Desc: c.R.Intn(3) == 0, Sel: &Sel{Kind: SFilter, Filter: bin([]string{"==", ">", "<=", "!="}[c.R.Intn(4)], l, eint(c.R.Intn(5)))}}}}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("counts", r.N(4000, 40000), func(c *Case) {
		n := []int{0, 1, 2, 3, 9, 10, 127, 128, 255, 256, 500, 1025}[c.R.Intn(12)]
		if c.R.Intn(100) == 0 {
			n = 65534 + c.R.Intn(4)
		}
		a := VArr()
		for i := 0; i < n; i++ {
			a.Items = append(a.Items, genScalar(c.R))
		}
		doc := VArr(VObj("r", a, "length", VInt(-5)), VObj("r", VStr("abc"), "length", VInt(n)), VObj("length", VInt(n)))
		k := n
		if c.R.Intn(3) == 0 {
			k = n + c.R.Intn(3) - 1
		}
		l := &Expr{Kind: ELen, Method: c.R.Intn(2) == 0, Path: &PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "r"}}}}}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: bin("==", l, eint(k))}}}}
		if c.R.Intn(4) == 0 {
			// the key length, not the function
			q.Steps[0].Sel.Filter = bin("==", epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "length"}}}}), eint(n))
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
}

// ---- literals. The value of a literal is observed through the nodes it is
// equal to.

type strAtom struct {
	src string
	val string
}

// atoms of string literals, with what they stand for
func strAtoms(r *rand.Rand, q byte) strAtom {
	hx := func(n int, v int) string {
		s := fmt.Sprintf("%0*x", n, v)
		if r.Intn(2) == 0 {
			s = strings.ToUpper(s)
		}
		return s
	}
	switch r.Intn(15) {
	case 14:
		// halves of surrogate pairs that are not next to each other stand for no character each
		h, l := 0xd800+r.Intn(0x400), 0xdc00+r.Intn(0x400)
		e := []strAtom{
			{`\u` + hx(4, h) + "c", "\ufffdc"},
			{"c" + `\u` + hx(4, l), "c\ufffd"},
			{`\u` + hx(4, h) + "c" + `\u` + hx(4, l) + "d", "\ufffdc\ufffdd"},
			{`\u` + hx(4, h) + `\t\u` + hx(4, l), "\ufffd\t\ufffd"},
			{"c" + `\u` + hx(4, l) + `\u` + hx(4, h) + "d", "c\ufffd\ufffdd"},
		}
		return e[r.Intn(len(e))]
	case 13:
		// a line continuation; the letter keeps it apart from what follows
		e := []string{"\n", "\r\n", "\r", "\u2028", "\u2029", "\n\n", "\r\r"}
		return strAtom{"\\" + e[r.Intn(len(e))] + "c", "c"}
	case 0:
		e := []strAtom{{`\b`, "\b"}, {`\f`, "\f"}, {`\n`, "\n"}, {`\r`, "\r"}, {`\t`, "\t"}, {`\v`, "\v"}, {`\\`, "\\"}, {`\'`, "'"}, {`\"`, "\""}}
		return e[r.Intn(len(e))]
	case 1:
		v := r.Intn(256)
		return strAtom{`\x` + hx(2, v), string(rune(v))}
	case 2:
		v := r.Intn(0xd800)
		if r.Intn(3) == 0 {
			v = 0xe000 + r.Intn(0x2000)
		}
		return strAtom{`\u` + hx(4, v), string(rune(v))}
	case 3:
		v := 0x10000 + r.Intn(0x100000)
		h, l := 0xd800+(v-0x10000)>>10, 0xdc00+(v-0x10000)&0x3ff
		return strAtom{`\u` + hx(4, h) + `\u` + hx(4, l), string(rune(v))}
	case 4:
		v := r.Intn(0x10ffff)
		if v >= 0xd800 && v < 0xe000 {
			v = 0x41
		}
		if r.Intn(2) == 0 {
			v = r.Intn(0x300)
		}
		n := 1 + r.Intn(6)
		if r.Intn(6) == 0 {
			n = 6 + r.Intn(40) // leading zeros
		}
		return strAtom{`\u{` + hx(n, v) + `}`, string(rune(v))}
	case 5:
		// not an escape: the character itself
		if r.Intn(2) == 0 {
			k := rune(0x20 + r.Intn(0x5f))
			if r.Intn(4) == 0 {
				k = rune(r.Intn(0x3000))
			}
			if !strings.ContainsRune("bfnrtvxu0123456789\n\r\u2028\u2029", k) {
				return strAtom{`\` + string(k), string(k)}
			}
		}
		x := []string{"a", "c", "d", "e", "g", "z", "A", "N", "T", "$", "/", " ", "é", "日", "(", "]", "\U0001F600"}[r.Intn(17)]
		return strAtom{`\` + x, x}
	case 6:
		return strAtom{"\\0", "\x00"}
	case 7:
		if q == '"' {
			return strAtom{"'", "'"}
		}
		return strAtom{`"`, `"`}
	case 8:
		x := []string{"é", "日本", "\U0001F600", "\u2028", "\u00a0", "\t", "\x01", "\x7f", "/", "[", "]", ")", "$", "@", "*", ".", "..", " ", "?(", ","}
		s := x[r.Intn(len(x))]
		return strAtom{s, s}
	}
	s := string("abcxuntfrvb0129{}_AEF"[r.Intn(21)])
	return strAtom{s, s}
}

func strLiteral(r *rand.Rand) (src, val string) {
	q := "'\""[r.Intn(2)]
	var a, b strings.Builder
	a.WriteByte(q)
	for n := r.Intn(6); n > 0; n-- {
		x := strAtoms(r, q)
		a.WriteString(x.src)
		b.WriteString(x.val)
	}
	if r.Intn(20) == 0 {
		// half of a surrogate pair at the end, or nothing else
		if r.Intn(3) == 0 {
			a.Reset()
			b.Reset()
			a.WriteByte(q)
		}
		v := 0xd800 + r.Intn(0x400)
		if b.Len() == 0 && r.Intn(2) == 0 {
			v += 0x400
		}
		fmt.Fprintf(&a, `\u%04x`, v)
		b.WriteString("\ufffd")
	}
	a.WriteByte(q)
	return a.String(), b.String()
}

func checkC12(r *Run) {
	r.rule = "Case k: a string literal is put together from atoms whose values are known (plain characters, every escape form, surrogate pairs, escaped non-escape characters), and used as a key (in brackets, after . and .., in a union, in a simple path) and in a filter, on a document that has the value and near misses as keys and values. The only selected node has to be the one with the literal's value. All cases with an escape are non-trivial; distinct by literal and position."
	r.assume = []string{"escape sequences mean what they mean in JavaScript strings, whose grammar the lexer copies"}
	near := func(v string) []string {
		out := []string{v + "x", "x" + v, "", "\x00", "\\" + v}
		if v != "" {
			_, n := utf8.DecodeRuneInString(v)
			out = append(out, v[n:])
			_, n = utf8.DecodeLastRuneInString(v)
			out = append(out, v[:len(v)-n])
		}
		return out
	}
	one := func(c *Case, src, val string) {
		doc := VObj()
		doc.Set(val, VInt(1))
		for _, x := range near(val) {
			if x != val {
				doc.Set(x, VInt(0))
			}
		}
		pos := c.R.Intn(7)
		text := ""
		switch pos {
		case 0:
			text = "$[" + src + "]"
		case 1:
			text = "$." + src
		case 2:
			text = "$.." + src
		case 3:
			text = "$[" + src + ",'nokey']"
		case 4:
			text = "/" + src
		case 5, 6:
			// as a value
			a := VArr()
			for _, k := range doc.Keys {
				a.Items = append(a.Items, VObj("v", VStr(k), "ok", doc.Get(k)))
			}
			doc = a
			text = "$[?(@.v == " + src + ")].ok"
			if pos == 6 {
				text = "$[?(@.v in [" + src + ", 7])].ok"
			}
		}
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		c.Note("value of the literal: %q", val)
		m := NewMon(doc, "ptr")
		got := findMonText(c, m, text)
		if len(got) != 1 || got[0].I != 1 {
			c.Fail("selected %s", locs(got))
		}
		c.Count(fmt.Sprintf("position %d", pos), 1)
		if strings.Contains(src, `\`) {
			c.NonTrivial(fmt.Sprint(pos, src))
		}
		if c.N < 50 {
			c.Sample(map[string]any{"query": text, "value": val})
		}
	}
	r.Cases("literals", r.N(60000, 1200000), func(c *Case) {
		src, val := strLiteral(c.R)
		one(c, src, val)
	})
	r.Cases("long", r.N(2500, 50000), func(c *Case) {
		// long literals, with few or many escapes
		q := "'\""[c.R.Intn(2)]
		var a, b strings.Builder
		a.WriteByte(q)
		plain := c.R.Intn(40)
		for n := c.R.Intn(1 << uint(3+c.R.Intn(7))); n > 0; n-- {
			if c.R.Intn(40) < plain {
				ch := "abcxyz 019_\u00e9\u65e5"
				k := []rune(ch)[c.R.Intn(13)]
				a.WriteString(string(k))
				b.WriteString(string(k))
				continue
			}
			x := strAtoms(c.R, q)
			a.WriteString(x.src)
			b.WriteString(x.val)
		}
		a.WriteByte(q)
		one(c, a.String(), b.String())
	})
	r.Cases("every rune", r.N(0x3000, 0x110000), func(c *Case) {
		v := rune(c.N)
		if !utf8.ValidRune(v) {
			v = 'a'
		}
		st := &Style{R: c.R}
		s := "'" + st.escapeRune(v) + "'"
		if c.R.Intn(2) == 0 && v != '\\' && v != '\'' && v != '\n' && v != '\r' {
			s = "'" + string(v) + "'"
		}
		one(c, s, string(v))
	})
	r.Cases("every escaped character", 0x80*6, func(c *Case) {
		k := c.N / 6
		val, ok := map[int]string{'b': "\b", 'f': "\f", 'n': "\n", 'r': "\r", 't': "\t", 'v': "\v", '0': "\x00"}[k]
		switch {
		case ok:
		case k == 'x' || k == 'u' || k == '\n' || k == '\r' || k >= '1' && k <= '9':
			c.Skip("starts another kind of escape, or is not one")
		default:
			val = string(rune(k))
		}
		// followed by what could be taken as a part of it
		tail := []string{"", "41", "{41}", "0041", "x41", "u0041"}[c.N%6]
		one(c, "'"+`\`+string(rune(k))+tail+"'", val+tail)
		one(c, `"\`+string(rune(k))+tail+`"`, val+tail)
	})
	r.Cases("quoted", r.N(15000, 300000), func(c *Case) {
		// any string survives quoting with any mix of escapes
		v := randString(c.R, 6)
		st := &Style{R: c.R}
		one(c, st.quote(v), v)
	})
}

// zeros at the beginning of an exponent
func zeros(r *rand.Rand) string {
	if r.Intn(5) > 0 {
		return ""
	}
	return strings.Repeat("0", 1+r.Intn(1<<uint(r.Intn(7))))
}

func checkC13(r *Run) {
	r.rule = "Case k: a numeric literal is written from a number (decimal, with separators, fraction, exponent, hexadecimal, octal, binary), and compared in a filter with documents that hold the exact value and its neighbours, and, for integers, used as an array index and slice bound. Distinct by literal and use."
	r.assume = []string{"_ in a number separates digits; integers that do not fit in an int are floats"}
	sep := func(rd *rand.Rand, s string) string {
		// separators after the first digit
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			b.WriteByte(s[i])
			if rd.Intn(6) == 0 {
				b.WriteByte('_')
			}
		}
		return b.String()
	}
	r.Cases("values", r.N(150000, 2400000), func(c *Case) {
		var src string
		isFloat := false
		var iv int
		var fv float64
		v := int64(c.R.Intn(300))
		switch c.R.Intn(4) {
		case 0:
			v = c.R.Int63() >> uint(c.R.Intn(63))
		case 1:
			v = math.MaxInt64 - int64(c.R.Intn(3))
		}
		iv = int(v)
		switch c.R.Intn(9) {
		case 0, 1:
			src = strconv.FormatInt(v, 10)
			if v > 9 && c.R.Intn(2) == 0 {
				src = sep(c.R, src)
			}
		case 2:
			src = "0" + []string{"x", "X"}[c.R.Intn(2)]
			h := strconv.FormatInt(v, 16)
			if c.R.Intn(2) == 0 {
				h = strings.ToUpper(h)
			}
			if c.R.Intn(3) == 0 {
				h = sep(c.R, h)
			}
			src += h
		case 3:
			src = "0" + []string{"o", "O"}[c.R.Intn(2)] + strconv.FormatInt(v, 8)
			if c.R.Intn(3) == 0 {
				src = src[:2] + sep(c.R, src[2:])
			}
		case 4:
			src = "0" + []string{"b", "B"}[c.R.Intn(2)] + strconv.FormatInt(v, 2)
			if c.R.Intn(3) == 0 {
				src = src[:2] + sep(c.R, src[2:])
			}
		case 5, 6:
			isFloat = true
			d := strconv.Itoa(c.R.Intn(2000))
			f := fmt.Sprintf("%0*d", 1+c.R.Intn(4), c.R.Intn(1000))
			src = d + "." + f
			if c.R.Intn(3) == 0 {
				src += []string{"e", "E"}[c.R.Intn(2)] + []string{"", "+", "-"}[c.R.Intn(3)] + zeros(c.R) + strconv.Itoa(c.R.Intn(30))
			}
			fv, _ = strconv.ParseFloat(src, 64)
			if c.R.Intn(4) == 0 {
				p := strings.Index(src, ".")
				src = src[:p+2] + sep(c.R, src[p+2:len(d)+1+len(f)]) + src[len(d)+1+len(f):]
				if d[0] != '0' && c.R.Intn(2) == 0 {
					src = sep(c.R, d) + src[p:]
				}
			}
		case 7:
			isFloat = true
			src = strconv.Itoa(c.R.Intn(500)) + []string{"e", "E"}[c.R.Intn(2)] + []string{"", "+", "-"}[c.R.Intn(3)] + zeros(c.R) + strconv.Itoa(c.R.Intn(25))
			fv, _ = strconv.ParseFloat(src, 64)
			if c.R.Intn(3) == 0 {
				// separators in the exponent, and before it
				p := strings.IndexAny(src, "eE")
				e := p + 1
				if src[e] == '+' || src[e] == '-' {
					e++
				}
				m := src[:p]
				if m[0] != '0' && c.R.Intn(2) == 0 {
					m = sep(c.R, m)
				}
				src = m + src[p:e] + sep(c.R, src[e:])
			}
		case 8:
			isFloat = true
			src = strconv.FormatUint(uint64(math.MaxInt64)+1+uint64(c.R.Int63n(1<<40))*4096, 10) + strings.Repeat("0", c.R.Intn(4))
			fv, _ = strconv.ParseFloat(src, 64)
			if c.R.Intn(2) == 0 {
				// 64 to 180 bits, in another base
				b := new(big.Int).Lsh(big.NewInt(1), uint(63+c.R.Intn(117)))
				if c.R.Intn(3) > 0 {
					b.Add(b, new(big.Int).Rand(c.R, b))
				}
				base := []int{16, 8, 2}[c.R.Intn(3)]
				src = b.Text(base)
				if c.R.Intn(3) == 0 {
					src = sep(c.R, src)
				}
				src = map[int][]string{16: {"0x", "0X"}, 8: {"0o", "0O"}, 2: {"0b", "0B"}}[base][c.R.Intn(2)] + src
				fv, _ = new(big.Float).SetInt(b).Float64()
			}
		}
		if src == "0_" {
			src = "0"
		}
		a := VArr()
		add := func(x *V, ok bool) { a.Items = append(a.Items, VObj("v", x, "ok", VBool(ok))) }
		if isFloat {
			add(VFloat(fv), true)
			add(VFloat(math.Nextafter(fv, 1e308)), false)
			add(VFloat(math.Nextafter(fv, -1e308)), false)
			add(VStr(src), false)
			if fv != 0 {
				add(VFloat(-fv), false)
			}
		} else {
			add(VInt(iv), true)
			if iv < math.MaxInt64 {
				add(VInt(iv+1), false)
			}
			add(VInt(iv-1), false)
			add(VStr(src), false)
		}
		add(VStr(""), false)
		add(VNull(), false)
		text := "$[?(@.v == " + src + ")]"
		switch c.R.Intn(3) {
		case 0:
			text = "$[?(" + src + " == @.v)]"
		case 1:
			text = "$[?(@.v in [" + src + "])]"
		}
		c.Note("document: %s", a)
		c.Note("query: %s", text)
		m := NewMon(a, "ptr")
		got := findMonText(c, m, text)
		if len(got) != 1 || got[0] != a.Items[0] {
			c.Fail("selected %s", locs(got))
		}
		c.Count("document model calls observed", int(m.total))
		c.NonTrivial(text)
		if c.N < 50 {
			c.Sample(map[string]any{"query": text})
		}
	})
	r.Cases("long", r.N(6000, 100000), func(c *Case) {
		// many digits
		digits := func(n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + c.R.Intn(10))
			}
			return string(b)
		}
		var src string
		var v *V
		switch c.R.Intn(4) {
		case 0: // leading zeros
			x := c.R.Int63() >> uint(c.R.Intn(63))
			k := c.R.Intn(3)
			src = []string{"0x", "0o", "0b"}[k] + strings.Repeat("0", c.R.Intn(80)) + strconv.FormatInt(x, []int{16, 8, 2}[k])
			v = VInt(int(x))
		case 1: // a long fraction
			src = strconv.Itoa(c.R.Intn(1000)) + "." + digits(1+c.R.Intn(1<<uint(1+c.R.Intn(9))))
		case 2: // leading zeros of the fraction, or trailing ones
			src = strconv.Itoa(c.R.Intn(3)) + "." + strings.Repeat("0", c.R.Intn(60)) + digits(1+c.R.Intn(20)) + strings.Repeat("0", c.R.Intn(60))
		case 3: // a long whole part, and an exponent that makes up for it
			n := 1 + c.R.Intn(200)
			src = strconv.Itoa(1+c.R.Intn(9)) + digits(n) + "." + digits(1+c.R.Intn(5)) + "e-" + strconv.Itoa(n+c.R.Intn(20))
		}
		if v == nil {
			f, err := strconv.ParseFloat(src, 64)
			if err != nil {
				panic(harnessBug("not a number: " + src))
			}
			v = VFloat(f)
		}
		a := VArr(VObj("v", v))
		if v.Kind == KInt {
			a.Items = append(a.Items, VObj("v", VInt(v.I-1)), VObj("v", VInt(v.I>>4)))
			if v.I < math.MaxInt64>>4 {
				a.Items = append(a.Items, VObj("v", VInt(v.I<<4+1)))
			}
		} else {
			a.Items = append(a.Items, VObj("v", VFloat(math.Nextafter(v.F, 1e308))), VObj("v", VFloat(math.Nextafter(v.F, -1e308))))
		}
		text := []string{"$[?(@.v == " + src + ")]", "$[?(" + src + " == @.v)]", "$[?(@.v in [" + src + ", null])]", "$[?(!(@.v != " + src + "))]"}[c.R.Intn(4)]
		c.Note("document: %s", a)
		c.Note("query: %s", text)
		m := NewMon(a, "ptr")
		got := findMonText(c, m, text)
		if len(got) != 1 || got[0] != a.Items[0] {
			if v.Kind == KInt && v.I == 0 && len(got) == 2 {
				c.Skip("zero twice")
			}
			c.Fail("selected %s", locs(got))
		}
		c.Count("document model calls observed", int(m.total))
		c.NonTrivial(text)
	})
	r.Cases("as index", r.N(45000, 600000), func(c *Case) {
		n := 1 + c.R.Intn(70)
		a := VArr()
		for k := 0; k < n; k++ {
			a.Items = append(a.Items, VInt(k))
		}
		lit := func(i int) string {
			if i < 0 {
				return strconv.Itoa(i)
			}
			switch c.R.Intn(5) {
			case 0:
				return fmt.Sprintf("0x%x", i)
			case 1:
				return fmt.Sprintf("0b%b", i)
			case 2:
				return fmt.Sprintf("0o%o", i)
			}
			return strconv.Itoa(i)
		}
		i := c.R.Intn(n + 3)
		var text string
		var want []int
		switch c.R.Intn(4) {
		case 0:
			text = "$[" + lit(i) + "]"
			if i < n {
				want = []int{i}
			}
		case 1:
			text = "$.." + "[" + lit(i) + "]"
			if i < n {
				want = []int{i}
			}
		case 2:
			text = "$[" + lit(i) + ",'nokey']"
			if i < n {
				want = []int{i}
			}
		case 3:
			j := c.R.Intn(n + 3)
			s := 1 + c.R.Intn(5)
			text = "$[" + lit(i) + ":" + lit(j) + ":" + lit(s) + "]"
			want = sliceIndexes(n, [3]*int{&i, &j, &s})
		}
		c.Note("array of %d elements, each its own index", n)
		c.Note("query: %s", text)
		m := NewMon(a, "ptr")
		got := findMonText(c, m, text)
		gi := []int{}
		for _, x := range got {
			gi = append(gi, x.I)
		}
		if fmt.Sprint(gi) != fmt.Sprint(append([]int{}, want...)) {
			c.Fail("selected %v, expected %v", gi, want)
		}
		if len(want) > 0 {
			c.NonTrivial(fmt.Sprint(n, text))
		}
	})
}

var _ = gp.Find

// ---- C30

// badCall is a call of a function that does not exist
func badCall(c *Case, path *PathQ) *Expr {
	e := &Expr{Kind: EBad, S: []string{"nosuch", "noSuchFunction", "LENGTH", "_f", "length_", "$f"}[c.R.Intn(6)], Path: path, Method: c.R.Intn(2) == 0}
	if !e.Method && c.R.Intn(3) == 0 {
		e.Path = nil
	}
	for k := c.R.Intn(6) - 3; k > 0; k-- {
		e.Elems = append(e.Elems, []*Expr{eint(1), estr("x"), epath(&PathQ{Root: "@"}), {Kind: EArr, Elems: []*Expr{eint(2)}}}[c.R.Intn(4)])
	}
	return e
}

// slots are the places of an expression where another one can be put
func slots(x **Expr, out *[]**Expr) {
	if *x == nil {
		return
	}
	*out = append(*out, x)
	slots(&(*x).L, out)
	slots(&(*x).R, out)
	for i := range (*x).Elems {
		slots(&(*x).Elems[i], out)
	}
	if p := (*x).Path; p != nil {
		for _, st := range p.Steps {
			if st.Sel.Kind == SFilter {
				slots(&st.Sel.Filter, out)
			}
		}
	}
}

func checkC30(r *Run) {
	r.rule = "Case k: a random query with a call of a function that does not exist at a random place of one of its filter expressions (operand of any operator, element of a list, argument, receiver, filter of a nested path). If the reference evaluator gets to the call on the document, Find, Search and ParseAndFind have to return an error (or Parse did); if no filter gets there, they have to return none, and the selected nodes. Afterwards the same path has to be usable with a document for which it does not fail, and other queries on the same document. Non-trivial if the call is evaluated, at a place below the top of the expression; distinct by (query, document)."
	r.assume = []string{"whether the operand of && or || that does not decide the outcome is evaluated is not specified", "that Parse reports the unknown function would be as good"}
	r.Cases("failing calls", r.N(30000, 800000), func(c *Case) {
		doc := recDoc(c)
		depth := 0
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			e := g.anyBool(1+c.R.Intn(4), sc)
			if c.R.Intn(5) == 0 {
				// lists, arguments
				n := &Expr{Kind: ELen, Method: c.R.Intn(2) == 0, Path: g.relPath(sc, nil), Elems: []*Expr{e, eint(1)}}
				e = bin("in", n, &Expr{Kind: EArr, Elems: []*Expr{eint(3), g.literal(sc), epath(g.relPath(sc, nil))}})
			}
			if c.R.Intn(5) == 0 {
				// a path that selects something before its filter fails
				p := g.relPath(sc, func(v *V) bool { return len(v.Items) > 1 })
				if len(p.Steps) == 0 && len(sc.nodes) > 0 && c.R.Intn(2) == 0 {
					p.Root = "@"
				}
				first := []*Sel{{Kind: SIndex}, {Kind: SName, Name: "n"}, {Kind: SName, Name: "s"}}[c.R.Intn(3)]
				var f *Expr = badCall(c, &PathQ{Root: "@"})
				if c.R.Intn(2) == 0 {
					f = bin([]string{"==", "<", ">=", "+", "&&"}[c.R.Intn(5)], f, eint(1))
				}
				p.Steps = append(p.Steps, Step{Desc: c.R.Intn(4) == 0, Sel: &Sel{Kind: SUnion, Parts: []*Sel{first, {Kind: SFilter, Filter: f}}}})
				depth = 1
				switch c.R.Intn(3) {
				case 0:
					return un("!", epath(p))
				case 1:
					return bin("in", eint(1), epath(p))
				}
				return epath(p)
			}
			var all []**Expr
			slots(&e, &all)
			depth = c.R.Intn(len(all))
			*all[depth] = badCall(c, g.relPath(sc, nil))
			return e
		}, doc)
		text := style(c).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		Number(doc)
		want, fails, why, ok := refFails(doc, q)
		if !ok {
			c.Skip(why)
		}
		p, err := gp.Parse(text)
		if err != nil {
			if strings.HasPrefix(err.Error(), "Syntax") {
				c.Fail("Parse: %v", err)
			}
			c.Count("reported by Parse", 1)
			return
		}
		m := NewMon(doc, "ptr")
		res, err := gp.Find(m, p)
		err2 := gp.Search(m, p, func(gp.DocPath) {})
		_, err3 := gp.ParseAndFind(m, text)
		if fails {
			if err == nil || err2 == nil || err3 == nil {
				c.Fail("the function does not exist, but Find, Search and ParseAndFind return the errors %v, %v, %v", err, err2, err3)
			}
			c.Count("errors returned", 3)
			if depth > 0 {
				c.NonTrivial(text + doc.String())
				c.Sample(map[string]any{"query": clip(text), "error": err.Error()})
			}
		} else {
			if err != nil || err2 != nil || err3 != nil {
				c.Fail("nothing calls the function, but Find, Search and ParseAndFind return the errors %v, %v, %v", err, err2, err3)
			}
			got := make([]*V, len(res))
			for i, x := range res {
				got[i] = m.V(x)
			}
			if !sameBag(got, want) {
				c.Fail("selected: %s, expected: %s", locs(got), locs(want))
			}
			c.Count("not evaluated", 1)
		}
		// what comes after is not affected
		other := recDoc(c)
		if c.R.Intn(2) == 0 {
			other = VArr()
		}
		Number(other)
		if want, fails, _, ok := refFails(other, q); ok {
			m := NewMon(other, "ptr")
			res, err := gp.Find(m, p)
			if fails != (err != nil) {
				c.Fail("then, with %s: the error is %v", clip(other.String()), err)
			}
			if !fails {
				got := make([]*V, len(res))
				for i, x := range res {
					got[i] = m.V(x)
				}
				if !sameBag(got, want) {
					c.Fail("then, with %s, selected: %s, expected: %s", clip(other.String()), locs(got), locs(want))
				}
				c.Count("same path, other document, without error", 1)
			}
		}
		if c.R.Intn(4) == 0 {
			q2 := newGen(c.R, doc, allCfg()).query()
			differential(c, doc, q2, style(c).path(q2), diffOpts{})
		}
	})
}
