package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() {
	register("C01", "child selection", checkC01)
	register("C02", "slices", checkC02)
	register("C03", "unions", checkC03)
	register("C04", "recursive descent", checkC04)
	register("C05", "filters", checkC05)
	register("C06", "root in filters", checkC06)
}

const diffAssume = "the reference evaluator (harness/ref.go) is the specification; cases it leaves unspecified are skipped and counted"

func diffRule(what string) string {
	return "Case k of a part is generated from PRNG(seed, property, part, k): a document, and " + what +
		", rendered in a random notation. Find runs on a monitored pointer-node model or on MapModel (native or encoding/json numbers), and its results are compared with an independent reference evaluator. A case is non-trivial if it selects some but not all nodes; distinct by (part, query text, document)."
}

func checkC01(r *Run) {
	r.rule = diffRule("a query of key, index and wildcard steps (plain, after .., and inside single-selector brackets)")
	r.assume = []string{diffAssume}
	base := QCfg{MaxSteps: 5, Name: 6, Wild: 2, Index: 4, DotNum: 1}
	r.Cases("steps", r.N(60000, 1500000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 2 + c.R.Intn(4), MaxWidth: 2 + c.R.Intn(4), Exotic: c.R.Intn(2) == 0})
		q := newGen(c.R, doc, base).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("descendants", r.N(25000, 600000), func(c *Case) {
		cfg := base
		cfg.Desc = 50
		cfg.MaxDesc = 1
		cfg.MaxSteps = 3
		doc := genDoc(c.R, DocCfg{MaxDepth: 2 + c.R.Intn(4), MaxWidth: 2 + c.R.Intn(4), Exotic: c.R.Intn(2) == 0})
		q := newGen(c.R, doc, cfg).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("indexes", r.N(8000, 100000), func(c *Case) {
		// every index around the edges of an array of n, in all three routes
		n := c.N % 12
		i := (c.N/12)%(2*n+7) - n - 3
		arr := &V{Kind: KArr}
		for k := 0; k < n; k++ {
			arr.Items = append(arr.Items, VObj("v", VInt(k)))
		}
		doc := VObj("x", arr, "y", VArr(VArr(), VNull(), VObj()))
		sel := &Sel{Kind: SIndex, Index: i}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "x"}}, {Sel: sel}}}
		switch c.R.Intn(4) {
		case 0:
			q.Steps = []Step{{Desc: true, Sel: sel}}
		case 1:
			q.Steps[1].Sel = &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SName, Name: "nokey"}}}
		case 2:
			q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SName, Name: "v"}})
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("targeted", r.N(10000, 200000), func(c *Case) {
		// The way to a certain node of a document that can be large
		doc := genDoc(c.R, DocCfg{MaxDepth: 3 + c.R.Intn(6), MaxWidth: 3 + c.R.Intn(20), Budget: 20 + c.R.Intn(300), Exotic: c.R.Intn(2) == 0})
		all := Number(doc)
		if len(all) < 2 {
			c.Skip("the root only")
		}
		q := &PathQ{Root: "$", Steps: stepsTo(c.R, all[1+c.R.Intn(len(all)-1)])}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("wide", r.N(1500, 30000), func(c *Case) {
		doc := wideDoc(c.R, 20+c.R.Intn(400))
		all := Number(doc)
		v := all[1+c.R.Intn(len(all)-1)]
		q := &PathQ{Root: "$", Steps: stepsTo(c.R, v)}
		switch last := q.Steps[len(q.Steps)-1].Sel; c.R.Intn(6) {
		case 0:
			*last = Sel{Kind: SIndex, Index: []int{-1, 0, 1, len(v.Parent.Items) - 1, len(v.Parent.Items), -len(v.Parent.Items), -len(v.Parent.Items) - 1}[c.R.Intn(7)]}
		case 1:
			*last = Sel{Kind: SWild}
		case 2:
			q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SWild}})
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("long paths", r.N(800, 15000), func(c *Case) {
		doc := deepDoc(c.R, 20+c.R.Intn(240), c.R.Intn(3))
		all := Number(doc)
		v := all[len(all)-1-c.R.Intn(20)]
		q := &PathQ{Root: "$", Steps: stepsTo(c.R, v)}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("huge", r.N(60, 1500), func(c *Case) {
		// indexes and keys beyond the small integers
		n := []int{255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073}[c.R.Intn(11)] + c.R.Intn(3)
		v := &V{Kind: KArr, Items: make([]*V, n)}
		obj := c.R.Intn(4) == 0
		if obj {
			v.Kind, v.Keys = KObj, make([]string, n)
		}
		for i := range v.Items {
			v.Items[i] = VInt(i)
			if obj {
				v.Keys[i] = "k" + strconv.Itoa(i)
			}
		}
		i := []int{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, n - 1, n, n + 1, n - 65536, n - 32768, c.R.Intn(n)}[c.R.Intn(16)]
		sel := &Sel{Kind: SIndex, Index: i}
		if c.R.Intn(3) == 0 {
			sel.Index = i - n
		}
		if obj {
			sel = &Sel{Kind: SName, Name: "k" + strconv.Itoa(i)}
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "x"}}, {Sel: sel}}}
		switch c.R.Intn(6) {
		case 0:
			q.Steps = []Step{{Desc: true, Sel: sel}}
		case 1:
			q.Steps[1].Sel = &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SName, Name: "nokey"}}}
		case 2:
			q.Steps[0].Sel = &Sel{Kind: SWild}
		case 3:
			q.Steps[1].Sel = &Sel{Kind: SWild}
		}
		differential(c, VObj("x", v), q, style(c).path(q), diffOpts{})
	})
	r.Cases("long keys", r.N(6000, 120000), func(c *Case) {
		// members whose keys differ in one place
		n := []int{1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300, 1024}[c.R.Intn(18)]
		base := []byte(strings.Repeat("abcdefgh", n/8+1))[:n]
		pool := []string{string(base), string(base[:n-1]), string(base) + "a"}
		for i := 2 + c.R.Intn(6); i > 0; i-- {
			b := append([]byte(nil), base...)
			at := []int{0, n / 2, n - 1, c.R.Intn(n)}[c.R.Intn(4)]
			switch c.R.Intn(5) {
			case 0:
				b[at] -= 32 // other case
			case 1:
				b = append(b[:at:at], b[at+1:]...)
			case 2:
				b[at], b[n-1] = b[n-1], b[at]
			default:
				b[at] = "xyz_0"[c.R.Intn(5)]
				if at == 0 {
					b[0] = 'x'
				}
			}
			pool = append(pool, string(b))
		}
		doc := VObj()
		at := VArr(doc, VObj())
		for i, k := range pool {
			if c.R.Intn(4) > 0 {
				doc.Set(k, VInt(i))
			}
		}
		at.Items[1].Set(pool[c.R.Intn(len(pool))], VObj(pool[c.R.Intn(len(pool))], VNull()))
		sel := &Sel{Kind: SName, Name: pool[c.R.Intn(len(pool))]}
		if c.R.Intn(5) == 0 {
			sel = &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SName, Name: pool[c.R.Intn(len(pool))]}}}
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SWild}}, {Sel: sel}}}
		if c.R.Intn(3) == 0 {
			q.Steps = []Step{{Desc: true, Sel: sel}}
		}
		differential(c, at, q, style(c).path(q), diffOpts{})
	})
	r.Cases("near keys", r.N(12000, 250000), func(c *Case) {
		// members whose keys could be taken for each other
		k := randKey(c.R)
		if c.R.Intn(3) == 0 {
			k = exoticKeys[c.R.Intn(len(exoticKeys))]
		}
		pool := nearKeys(k)
		c.R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		doc := VObj()
		for i, x := range pool[:1+c.R.Intn(len(pool))] {
			doc.Set(x, VInt(i))
		}
		if c.R.Intn(2) == 0 {
			doc.Set(k, VStr("it"))
		}
		sel := &Sel{Kind: SName, Name: k}
		if c.R.Intn(3) == 0 {
			sel = &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SName, Name: "nokey"}}}
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "x"}}, {Sel: sel}}}
		if c.R.Intn(3) == 0 {
			q.Steps = []Step{{Desc: true, Sel: sel}}
		}
		differential(c, VObj("x", doc), q, style(c).path(q), diffOpts{})
	})
	r.Cases("beyond int", r.N(2000, 40000), func(c *Case) {
		// indexes that do not fit into an integer
		const far = 7777777777777
		arr := func(n int) *V {
			a := &V{Kind: KArr}
			for ; n > 0; n-- {
				a.Items = append(a.Items, VInt(n))
			}
			return a
		}
		doc := VArr(arr(c.R.Intn(5)), arr(c.R.Intn(5)), VStr("abc"), arr(c.R.Intn(2)))
		sel := &Sel{Kind: SIndex, Index: far - c.R.Intn(2)*2*far}
		q := &PathQ{Root: "$"}
		switch c.R.Intn(5) {
		case 0:
			q.Steps = []Step{{Sel: &Sel{Kind: SWild}}, {Sel: sel}}
		case 1:
			q.Steps = []Step{{Desc: true, Sel: sel}}
		case 2:
			q.Steps = []Step{{Desc: c.R.Intn(2) == 0, Sel: &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SIndex, Index: c.R.Intn(4) - 2}}}}}
		case 3:
			q.Steps = []Step{{Sel: &Sel{Kind: SFilter, Filter: &Expr{Kind: EUnary, Op: "!", L: epath(&PathQ{Root: "@", Steps: []Step{{Sel: sel}}})}}}}
		default:
			q.Steps = []Step{{Sel: sel}}
		}
		differential(c, doc, q, farText(c.R, q, far), diffOpts{})
	})
	r.Cases("null and empty", r.N(6000, 60000), func(c *Case) {
		// present but null, false, 0, "" against missing
		vals := []*V{VNull(), VBool(false), VInt(0), VStr(""), VArr(), VObj(), VFloat(0)}
		keys := []string{"a", "b", "", "c", "0x", " ", "é", "null"}
		doc := VObj()
		for _, k := range keys {
			if c.R.Intn(2) == 0 {
				v := *vals[c.R.Intn(len(vals))]
				doc.Set(k, &v)
			}
		}
		w := &V{Kind: KArr, Items: []*V{doc, VNull(), VObj("a", VNull())}}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SWild}}, {Sel: &Sel{Kind: SName, Name: keys[c.R.Intn(len(keys))]}}}}
		if c.R.Intn(3) == 0 {
			q.Steps = []Step{{Desc: true, Sel: q.Steps[1].Sel}}
		}
		if c.R.Intn(3) == 0 {
			q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: []SelKind{SWild, SName}[c.R.Intn(2)], Name: "a"}})
		}
		differential(c, w, q, style(c).path(q), diffOpts{})
	})
}

func sliceOf(n, a, b, s int) *Sel {
	// a, b: 0 is absent, others are shifted
	x := &Sel{Kind: SSlice, Colons: 1}
	if a > 0 {
		x.Slice[0] = pi(a - 1 - (n + 2))
	}
	if b > 0 {
		x.Slice[1] = pi(b - 1 - (n + 2))
	}
	if s > 0 {
		x.Colons = 2
		if s > 1 {
			x.Slice[2] = pi(s - 2 - 4)
		}
	}
	return x
}

// hugeInt is an integer literal that does not fit into an integer
func hugeInt(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return "9223372036854775808"
	case 1:
		return []string{"0x", "0X"}[r.Intn(2)] + "1" + strings.Repeat("0", 16+r.Intn(30))
	case 2:
		return "0b1" + strings.Repeat("01", 32+r.Intn(20))
	case 3:
		return "1_" + strings.Repeat("000_", 6+r.Intn(10)) + "0"
	}
	return strconv.Itoa(1+r.Intn(9)) + strings.Repeat(strconv.Itoa(r.Intn(10)), 19+r.Intn(100))
}

// farText is the text of q with the number far replaced by numbers that do
// not fit into an integer
func farText(r *rand.Rand, q *PathQ, far int) string {
	parts := strings.Split((&Style{Plain: true}).path(q), strconv.Itoa(far))
	if len(parts) == 1 {
		panic(harnessBug("no far number in the query"))
	}
	text := parts[0]
	for _, x := range parts[1:] {
		text += hugeInt(r) + x
	}
	return text
}

func checkC02(r *Run) {
	r.rule = diffRule("a slice") + " Part exhaustive enumerates all start, end, step combinations (absent and around the edges) of all arrays of up to 5 (thorough: 8) elements, in the plain route, after .., in a union and in an expression."
	r.assume = []string{diffAssume, "slices follow RFC 9535 (Python) semantics; a step of 0 selects nothing"}
	maxN := r.N(5, 8)
	type combo struct{ n, a, b, s int }
	var combos []combo
	for n := 0; n <= maxN; n++ {
		for a := 0; a <= 2*n+5; a++ {
			for b := 0; b <= 2*n+5; b++ {
				for s := 0; s <= 10; s++ {
					combos = append(combos, combo{n, a, b, s})
				}
			}
		}
	}
	r.Cases("exhaustive", len(combos)*4, func(c *Case) {
		k := combos[c.N/4]
		sel := sliceOf(k.n, k.a, k.b, k.s)
		arr := &V{Kind: KArr}
		for i := 0; i < k.n; i++ {
			arr.Items = append(arr.Items, VInt(i*10))
		}
		doc := VObj("x", arr, "y", VObj("0", VInt(1), "1", VInt(2)), "z", VStr("abc"))
		q := &PathQ{Root: "$"}
		switch c.N % 4 {
		case 0:
			q.Steps = []Step{{Sel: &Sel{Kind: SName, Name: "x"}}, {Sel: sel}}
		case 1:
			q.Steps = []Step{{Desc: true, Sel: sel}}
		case 2:
			q.Steps = []Step{{Sel: &Sel{Kind: SWild}}, {Sel: &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SName, Name: "nokey"}}}}}
		case 3:
			// 20 in @[slice]
			q.Steps = []Step{{Sel: &Sel{Kind: SFilter, Filter: bin("in", eint(20), epath(&PathQ{Root: "@", Steps: []Step{{Sel: sel}}}))}}}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("random", r.N(40000, 1000000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 3, MaxWidth: 8, Budget: 80})
		q := newGen(c.R, doc, QCfg{MaxSteps: 4, Desc: 15, Name: 2, Wild: 2, Index: 1, Slice: 10, Union: 2, BigSlices: true}).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("large", r.N(2000, 30000), func(c *Case) {
		n := []int{127, 128, 129, 1000, 4097}[c.R.Intn(5)]
		if c.R.Intn(60) == 0 {
			n = []int{32767, 32769, 65535, 65537, 70000}[c.R.Intn(5)]
		}
		arr := &V{Kind: KArr}
		for i := 0; i < n; i++ {
			arr.Items = append(arr.Items, VInt(i))
		}
		sel := &Sel{Kind: SSlice, Colons: 2}
		b := func() *int {
			switch c.R.Intn(5) {
			case 0:
				return nil
			case 1:
				return pi(bigInts[c.R.Intn(len(bigInts))])
			}
			return pi(c.R.Intn(2*n+20) - n - 10)
		}
		sel.Slice = [3]*int{b(), b(), b()}
		if c.R.Intn(2) == 0 {
			sel.Slice[2] = pi(c.R.Intn(40) - 20)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: sel}}}
		if c.R.Intn(3) == 0 {
			q.Steps[0].Desc = true
		}
		differential(c, arr, q, style(c).path(q), diffOpts{})
	})
	r.Cases("beyond int", r.N(4000, 60000), func(c *Case) {
		// Bounds that do not fit into an integer are beyond every array.
		// In the reference they are a number that is, too.
		const far = 7777777777777
		n := c.R.Intn(7)
		arr := &V{Kind: KArr}
		for i := 0; i < n; i++ {
			arr.Items = append(arr.Items, VInt(i))
		}
		used := false
		bound := func() *int {
			switch c.R.Intn(4) {
			case 0:
				return nil
			case 1:
				return pi(c.R.Intn(2*n+4) - n - 2)
			}
			used = true
			return pi(far - c.R.Intn(2)*2*far)
		}
		sel := &Sel{Kind: SSlice, Colons: 1 + c.R.Intn(2)}
		sel.Slice = [3]*int{bound(), bound()}
		if sel.Colons == 2 {
			if sel.Slice[2] = bound(); sel.Slice[2] == nil && c.R.Intn(2) == 0 {
				sel.Slice[2] = pi(1 - c.R.Intn(2)*2)
			}
		}
		if !used {
			sel.Slice[c.R.Intn(2)] = pi(far - c.R.Intn(2)*2*far)
		}
		doc, q := arr, &PathQ{Root: "$"}
		switch c.R.Intn(5) {
		case 0:
			doc, q.Steps = VObj("x", arr), []Step{{Sel: &Sel{Kind: SName, Name: "x"}}, {Sel: sel}}
		case 1:
			doc, q.Steps = VObj("x", arr, "y", VArr(VInt(1), VInt(2))), []Step{{Desc: true, Sel: sel}}
		case 2:
			q.Steps = []Step{{Sel: &Sel{Kind: SUnion, Parts: []*Sel{sel, {Kind: SName, Name: "nokey"}}}}}
		case 3:
			doc, q.Steps = VArr(arr, VInt(1)), []Step{{Sel: &Sel{Kind: SFilter, Filter: bin("in", eint(c.R.Intn(n+1)), epath(&PathQ{Root: "@", Steps: []Step{{Sel: sel}}}))}}}
		default:
			q.Steps = []Step{{Sel: sel}}
		}
		differential(c, doc, q, farText(c.R, q, far), diffOpts{})
	})
}

func checkC03(r *Run) {
	r.rule = diffRule("a query with bracketed unions of keys, indexes, slices, wildcards and filters, whose parts overlap or miss")
	r.assume = []string{diffAssume}
	r.Cases("random", r.N(60000, 1500000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 3 + c.R.Intn(2), MaxWidth: 5, Budget: 60, Exotic: c.R.Intn(3) == 0, Typed: c.R.Intn(2) == 0})
		q := newGen(c.R, doc, QCfg{MaxSteps: 3, Desc: 20, Name: 4, Wild: 1, Index: 3, Slice: 2, Union: 12, Filter: 1, FDepth: 1, EDepth: 1}).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("overlap", r.N(20000, 300000), func(c *Case) {
		// all parts select from the same few elements
		n := 1 + c.R.Intn(6)
		arr := &V{Kind: KArr}
		obj := &V{Kind: KObj}
		for i := 0; i < n; i++ {
			arr.Items = append(arr.Items, VInt(i))
			obj.Set(plainKeys[i], VInt(i))
		}
		u := &Sel{Kind: SUnion}
		for k := 2 + c.R.Intn(4); k > 0; k-- {
			switch c.R.Intn(6) {
			case 0:
				u.Parts = append(u.Parts, &Sel{Kind: SWild})
			case 1:
				u.Parts = append(u.Parts, sliceOf(n, c.R.Intn(2*n+6), c.R.Intn(2*n+6), c.R.Intn(11)))
			case 2, 3:
				u.Parts = append(u.Parts, &Sel{Kind: SIndex, Index: c.R.Intn(2*n+2) - n - 1})
			case 4:
				u.Parts = append(u.Parts, &Sel{Kind: SName, Name: plainKeys[c.R.Intn(len(plainKeys))]})
			case 5:
				u.Parts = append(u.Parts, &Sel{Kind: SFilter, Filter: bin(relOps[c.R.Intn(4)], epath(&PathQ{Root: "@"}), eint(c.R.Intn(n)))})
			}
		}
		doc := VObj("x", arr, "y", obj)
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SWild}}, {Sel: u}}}
		if c.R.Intn(3) == 0 {
			q.Steps = []Step{{Desc: true, Sel: u}}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("ranges", r.N(25000, 400000), func(c *Case) {
		// parts that are slices and indexes of one array
		n := c.R.Intn(9)
		arr := &V{Kind: KArr}
		for i := 0; i < n; i++ {
			arr.Items = append(arr.Items, VInt(i))
		}
		bound := func() *int {
			if c.R.Intn(6) == 0 {
				return nil
			}
			i := c.R.Intn(2*n+5) - n - 2
			return &i
		}
		u := &Sel{Kind: SUnion}
		for k := 2 + c.R.Intn(3); k > 0; k-- {
			p := &Sel{Kind: SSlice, Slice: [3]*int{bound(), bound()}}
			switch c.R.Intn(8) {
			case 0:
				p = &Sel{Kind: SIndex, Index: c.R.Intn(2*n+2) - n - 1}
			case 1:
				step := c.R.Intn(7) - 3
				p.Slice[2] = &step
			}
			u.Parts = append(u.Parts, p)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: u}}}
		doc := arr
		if c.R.Intn(3) == 0 {
			doc = VArr(arr, VArr(VInt(7), arr))
			q.Steps[0].Desc = true
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("large", r.N(2500, 50000), func(c *Case) {
		// many parts, of collections with many children
		n := 2 + c.R.Intn(1<<uint(1+c.R.Intn(9)))
		arr := &V{Kind: KArr}
		obj := &V{Kind: KObj}
		for i := 0; i < n; i++ {
			arr.Items = append(arr.Items, VObj("v", VInt(i)))
			obj.Keys = append(obj.Keys, "k"+strconv.Itoa(i))
			obj.Items = append(obj.Items, VObj("v", VInt(i)))
		}
		kind := c.R.Intn(3) // keys, indexes, both
		u := &Sel{Kind: SUnion}
		for k := 2 + c.R.Intn(1<<uint(1+c.R.Intn(6))); k > 0; k-- {
			x := c.R.Intn(40)
			switch {
			case x == 0:
				u.Parts = append(u.Parts, &Sel{Kind: SWild})
			case x == 1:
				v := epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "v"}}}})
				u.Parts = append(u.Parts, &Sel{Kind: SFilter, Filter: bin(relOps[c.R.Intn(4)], v, eint(c.R.Intn(n)))})
			case x < 6 && kind > 0:
				a := c.R.Intn(2*n) - n
				u.Parts = append(u.Parts, &Sel{Kind: SSlice, Colons: 2, Slice: [3]*int{pi(a), pi(a + c.R.Intn(9)), pi(1 + c.R.Intn(3))}})
			case kind == 0 || kind == 2 && x%2 == 0:
				u.Parts = append(u.Parts, &Sel{Kind: SName, Name: "k" + strconv.Itoa(c.R.Intn(n+2))})
			default:
				u.Parts = append(u.Parts, &Sel{Kind: SIndex, Index: c.R.Intn(2*n+2) - n - 1})
			}
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SWild}}, {Sel: u}}}
		switch c.R.Intn(4) {
		case 0:
			q.Steps = []Step{{Desc: true, Sel: u}}
		case 1:
			q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SName, Name: "v"}})
		}
		c.Count(fmt.Sprintf("unions of %d parts or more", []int{2, 10, 20, 30}[min(3, len(u.Parts)/10)]), 1)
		differential(c, VObj("x", arr, "y", obj), q, style(c).path(q), diffOpts{})
	})
}

// ancestors of a node, and itself, from the root
func ancestors(v *V) []*V {
	var out []*V
	for ; v != nil; v = v.Parent {
		out = append([]*V{v}, out...)
	}
	return out
}

// selFor returns a selector that selects the node, and perhaps others
func selFor(r *rand.Rand, v *V) *Sel {
	var s *Sel
	if v.Parent.Kind == KObj {
		s = &Sel{Kind: SName, Name: v.Key}
	} else {
		n := len(v.Parent.Items)
		switch r.Intn(4) {
		case 0, 1:
			s = &Sel{Kind: SIndex, Index: v.Idx}
		case 2:
			s = &Sel{Kind: SIndex, Index: v.Idx - n}
		case 3:
			s = &Sel{Kind: SSlice, Colons: 1, Slice: [3]*int{pi(v.Idx), pi(v.Idx + 1)}}
		}
	}
	switch r.Intn(8) {
	case 0:
		return &Sel{Kind: SWild}
	case 1:
		return &Sel{Kind: SUnion, Parts: []*Sel{{Kind: SName, Name: "zz"}, s}}
	}
	return s
}

// stepsTo makes steps that lead from the root to the node, and perhaps to others
func stepsTo(r *rand.Rand, v *V) []Step {
	var out []Step
	for _, x := range ancestors(v)[1:] {
		out = append(out, Step{Sel: selFor(r, x)})
	}
	return out
}

func checkC04(r *Run) {
	r.rule = diffRule("a query with one to three recursive descents, followed by any selector, at the start, middle or end")
	r.assume = []string{diffAssume, "with nested recursive descents a node is reported once per way the path reaches it, as RFC 9535"}
	r.Cases("single", r.N(50000, 1200000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 2 + c.R.Intn(5), MaxWidth: 3 + c.R.Intn(2), Budget: 60, Exotic: c.R.Intn(4) == 0})
		g := newGen(c.R, doc, QCfg{MaxSteps: 3, Name: 6, Wild: 3, Index: 3, Slice: 2, Union: 2, Filter: 1, FDepth: 1, EDepth: 1})
		q := g.query()
		q.Steps[c.R.Intn(len(q.Steps))].Desc = true
		for i := range q.Steps {
			if q.Steps[i].Sel.Kind == SDotNum {
				q.Steps[i].Sel.Kind = SIndex
			}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("nested", r.N(20000, 400000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 2 + c.R.Intn(4), MaxWidth: 3, Budget: 30})
		q := newGen(c.R, doc, QCfg{MaxSteps: 4, Desc: 60, Name: 6, Wild: 3, Index: 3, Slice: 1, Union: 1}).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("many", r.N(12000, 300000), func(c *Case) {
		// A descent to a certain node in many steps, of which most are descents
		var doc *V
		if c.R.Intn(2) == 0 {
			doc = genDoc(c.R, DocCfg{MaxDepth: 5 + c.R.Intn(5), MaxWidth: 2, Budget: 30, Keys: []string{"a", "b", "c"}})
		} else {
			doc = deepDoc(c.R, 4+c.R.Intn(6), 1)
		}
		all := Number(doc)
		deep := 0
		v := all[c.R.Intn(len(all))]
		for i := 0; i < 4; i++ {
			if x := all[c.R.Intn(len(all))]; len(ancestors(x)) > len(ancestors(v)) {
				v = x
			}
		}
		q := &PathQ{Root: "$"}
		skipped := false
		for _, x := range ancestors(v)[1:] {
			if x != v && c.R.Intn(4) == 0 {
				skipped = true
				continue
			}
			st := Step{Desc: skipped || c.R.Intn(3) > 0, Sel: selFor(c.R, x)}
			if st.Desc {
				if deep++; deep > 6 {
					c.Skip("too many descents")
				}
			}
			skipped = false
			q.Steps = append(q.Steps, st)
		}
		if len(q.Steps) == 0 {
			c.Skip("the root")
		}
		c.Count(fmt.Sprintf("queries with %d descents", deep), 1)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("deep", r.N(600, 15000), func(c *Case) {
		doc := deepDoc(c.R, 60+c.R.Intn(240), c.R.Intn(2))
		q := newGen(c.R, doc, QCfg{MaxSteps: 3, Desc: 50, MaxDesc: 1, Name: 4, Wild: 3, Index: 2, Slice: 2, Union: 2}).query()
		if c.R.Intn(2) == 0 {
			all := Number(doc)
			q = &PathQ{Root: "$", Steps: []Step{{Desc: true, Sel: selFor(c.R, all[1+c.R.Intn(len(all)-1)])}}}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("all nodes", r.N(6000, 100000), func(c *Case) {
		// $..* is every node but the root, each once
		doc := genDoc(c.R, DocCfg{MaxDepth: 1 + c.R.Intn(8), MaxWidth: 3 + c.R.Intn(3), Budget: 150})
		q := &PathQ{Root: "$", Steps: []Step{{Desc: true, Sel: &Sel{Kind: SWild}}}}
		text := []string{"$..*", "$..", "$..[*]"}[c.R.Intn(3)]
		all := Number(doc)
		if want, _, _ := refEval(doc, q); len(want) != len(all)-1 {
			panic(harnessBug("the reference is wrong"))
		}
		differential(c, doc, q, text, diffOpts{})
		c.NonTrivial(doc.String())
	})
}

func recDoc(c *Case) *V {
	if c.R.Intn(4) == 0 {
		return genDoc(c.R, DocCfg{MaxDepth: 3 + c.R.Intn(2), MaxWidth: 5, Budget: 50, Typed: true})
	}
	return genRecords(c.R, 1+c.R.Intn(6))
}

func checkC05(r *Run) {
	r.rule = diffRule("a query with filters: existence tests, truthiness of every kind of value, comparisons, nested filters, filters after .. and in unions")
	r.assume = []string{diffAssume}
	r.Cases("random", r.N(36000, 1500000), func(c *Case) {
		doc := recDoc(c)
		q := newGen(c.R, doc, QCfg{MaxSteps: 3, Desc: 15, Name: 4, Wild: 2, Index: 1, Slice: 1, Union: 1, Filter: 9, FDepth: 2, EDepth: 2}).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("large", r.N(2500, 60000), func(c *Case) {
		// many records, so that what one of them leaves behind would reach others
		doc := genRecords(c.R, 20+c.R.Intn(1<<uint(5+c.R.Intn(5))))
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			g.cfg.FDepth, g.cfg.MaxSteps, g.cfg.Desc = 1, 2, 5
			return g.anyBool(c.R.Intn(3), scope{sc.nodes, 0})
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("deep", r.N(2000, 40000), func(c *Case) {
		// filters at every level of a deep document
		doc := deepDoc(c.R, 10+c.R.Intn(200), 1+c.R.Intn(2))
		all := Number(doc)
		v := all[1+c.R.Intn(len(all)-1)]
		way := ancestors(v)
		at := way[c.R.Intn(len(way)-1)] // the filter is on the children of it
		f := epath(&PathQ{Root: "@"})
		for _, x := range ancestors(v)[at.Depth-way[0].Depth+2:] {
			if len(f.Path.Steps) > 12 {
				break
			}
			f.Path.Steps = append(f.Path.Steps, Step{Sel: selFor(c.R, x)})
		}
		g := newGen(c.R, doc, allCfg())
		switch c.R.Intn(5) {
		case 0:
			f = un("!", f)
		case 1:
			f = bin(append(relOps, eqOps...)[c.R.Intn(10)], f, g.literal(scope{[]*V{v}, 0}))
		case 2:
			f = &Expr{Kind: ELen, Path: f.Path, Method: c.R.Intn(2) == 0}
		}
		q := &PathQ{Root: "$", Steps: append(stepsTo(c.R, at), Step{Sel: &Sel{Kind: SFilter, Filter: f}})}
		if c.R.Intn(3) == 0 {
			q.Steps = []Step{{Desc: true, Sel: &Sel{Kind: SFilter, Filter: f}}}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("truth", r.N(15000, 200000), func(c *Case) {
		// every kind of value, as @, as a member, as a negated member, deep
		mk := func() *V {
			v := *[]*V{VNull(), VBool(false), VBool(true), VInt(0), VInt(1), VInt(-1), VFloat(0), VFloat(0.5), VStr(""), VStr("a"), VStr("false"), VStr("0"), VArr(), VArr(VInt(0)), VArr(VNull(), VNull()), VObj(), VObj("a", VNull()), VInt(1 << 32), VInt(-1 << 63), VInt(1 << 8), VFloat(1e-300), VFloat(5e-324), VFloat(-0.25), VFloat(math.Copysign(0, -1)), VStr(" "), VStr("\x00"), VStr("null")}[c.R.Intn(27)]
			return &v
		}
		var doc *V
		if c.R.Intn(2) == 0 {
			doc = VArr()
			for i := c.R.Intn(6); i >= 0; i-- {
				doc.Items = append(doc.Items, mk())
			}
		} else {
			doc = VObj()
			for i := c.R.Intn(6); i >= 0; i-- {
				doc.Set(plainKeys[i], mk())
			}
		}
		for i, x := range doc.Items {
			if c.R.Intn(2) == 0 {
				o := VObj("n", x)
				if c.R.Intn(3) == 0 {
					o = VObj("n", VArr(x, mk()))
				}
				doc.Items[i] = o
			}
		}
		f := epath(&PathQ{Root: "@"})
		switch c.R.Intn(5) {
		case 0:
			f.Path.Steps = []Step{{Sel: &Sel{Kind: SName, Name: "n"}}}
		case 1:
			f.Path.Steps = []Step{{Sel: &Sel{Kind: SName, Name: "n"}}, {Sel: &Sel{Kind: SWild}}}
		case 2:
			f.Path.Steps = []Step{{Desc: true, Sel: &Sel{Kind: SWild}}}
		case 3:
			f.Path.Steps = []Step{{Sel: &Sel{Kind: SName, Name: "n"}}, {Sel: &Sel{Kind: SIndex, Index: c.R.Intn(3) - 1}}}
		}
		for c.R.Intn(3) == 0 {
			f = un("!", f)
		}
		q := &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SFilter, Filter: f}}}}
		if c.R.Intn(3) == 0 {
			q.Steps[0].Desc = true
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("nested", r.N(9000, 300000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 5, MaxWidth: 4, Budget: 60, Typed: c.R.Intn(2) == 0})
		q := newGen(c.R, doc, QCfg{MaxSteps: 2, Desc: 15, Name: 3, Wild: 2, Index: 1, Filter: 12, FDepth: 3, EDepth: 1}).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
}

func nonZero(v *V) bool {
	return v.isContainer() || v.Kind == KBool && v.B || v.Kind == KInt && v.I != 0
}

func checkC06(r *Run) {
	r.rule = diffRule("a query whose filter expressions use $ paths, at any depth of filter nesting, next to @ paths of the same shape")
	r.assume = []string{diffAssume}
	r.Cases("random", r.N(26000, 1000000), func(c *Case) {
		doc := recDoc(c)
		cfg := QCfg{MaxSteps: 3, Desc: 20, Name: 4, Wild: 2, Index: 1, Union: 1, Filter: 9, FDepth: 3, EDepth: 2}
		cfg.Bool = func(g *gen, d int, sc scope) *Expr {
			root := scope{[]*V{g.doc}, sc.depth}
			abs := func(want func(*V) bool) *Expr {
				p := g.relPath(root, want)
				p.Root = "$"
				return epath(p)
			}
			switch g.r.Intn(9) {
			case 0:
				return abs(nil)
			case 7: // both within function calls
				l := func(p *PathQ) *Expr { return &Expr{Kind: ELen, Path: p, Method: g.r.Intn(2) == 0} }
				return bin(append(relOps, "==", "!=")[g.r.Intn(6)], l(g.relPath(sc, func(v *V) bool { return v.Kind == KArr })), l(abs(func(v *V) bool { return v.Kind == KArr }).Path))
			case 8: // the current node, and the root, as they are
				x := &Expr{Kind: ELen, Path: &PathQ{Root: []string{"@", "@", "$"}[g.r.Intn(3)]}, Method: g.r.Intn(2) == 0}
				if g.r.Intn(2) == 0 {
					return x
				}
				return bin(append(relOps, "==", "!=")[g.r.Intn(6)], x, eint(g.r.Intn(4)))
			case 1:
				return bin(eqOps[g.r.Intn(2)], abs(isNum), epath(g.relPath(sc, isNum)))
			case 2:
				return bin(relOps[g.r.Intn(4)], epath(g.relPath(sc, isNum)), abs(isNum))
			case 3:
				return bin("in", epath(g.relPath(sc, func(v *V) bool { return !v.isContainer() })), abs(func(v *V) bool { return v.Kind == KArr }))
			case 4:
				return bin("&&", abs(nil), epath(g.relPath(sc, nil)))
			case 5:
				return bin("==", &Expr{Kind: ELen, Path: abs(func(v *V) bool { return v.Kind == KArr }).Path}, eint(g.r.Intn(4)))
			}
			return un("!", abs(nil))
		}
		q := newGen(c.R, doc, cfg).query()
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("large", r.N(2000, 50000), func(c *Case) {
		// many records, each compared with nodes that are far from it
		doc := genRecords(c.R, 20+c.R.Intn(1<<uint(4+c.R.Intn(5))))
		all := Number(doc)
		pick := func(want func(*V) bool) *V {
			for i := 0; i < 60; i++ {
				if v := all[c.R.Intn(len(all))]; v.Parent != nil && want(v) {
					return v
				}
			}
			return all[len(all)-1]
		}
		q := placeFilter(c, func(g *gen, sc scope) *Expr {
			sc.depth = 0
			abs := func(want func(*V) bool) *Expr {
				if v := pick(want); v.Parent != nil {
					return epath(&PathQ{Root: "$", Steps: pathTo(v)})
				}
				return epath(&PathQ{Root: "$"})
			}
			want := []func(*V) bool{isNum, isStr}[g.r.Intn(2)]
			rel := epath(g.relPath(sc, want))
			if len(rel.Path.Steps) > 0 && rel.Path.Steps[len(rel.Path.Steps)-1].Desc {
				rel.Path.Steps[len(rel.Path.Steps)-1].Desc = false
			}
			switch g.r.Intn(6) {
			case 0:
				return bin("in", rel, abs(func(v *V) bool { return v.Kind == KArr }))
			case 1:
				return bin("&&", abs(nonZero), rel)
			case 2:
				return bin("==", &Expr{Kind: ELen, Path: g.relPath(sc, func(v *V) bool { return v.Kind == KArr })}, &Expr{Kind: ELen, Path: abs(func(v *V) bool { return v.Kind == KArr }).Path, Method: true})
			}
			return bin(append(relOps, eqOps...)[g.r.Intn(10)], rel, abs(want))
		}, doc)
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("deep", r.N(1500, 30000), func(c *Case) {
		// the root is far away
		doc := deepDoc(c.R, 10+c.R.Intn(200), 2)
		g := newGen(c.R, doc, allCfg())
		v := g.all[1+c.R.Intn(len(g.all)-1)]
		w := g.all[1+c.R.Intn(len(g.all)-1)]
		for i := 0; i < 20 && w.isContainer() != v.isContainer(); i++ {
			w = g.all[1+c.R.Intn(len(g.all)-1)]
		}
		f := epath(&PathQ{Root: "$", Steps: pathTo(w)})
		switch {
		case c.R.Intn(4) == 0:
			f = bin("&&", f, epath(&PathQ{Root: "@"}))
		case !w.isContainer():
			f = bin(append(relOps, eqOps...)[c.R.Intn(10)], epath(&PathQ{Root: "@"}), f)
		case w.Kind == KArr:
			f = bin(append(relOps, eqOps...)[c.R.Intn(10)], &Expr{Kind: ELen, Path: &PathQ{Root: "@"}, Method: c.R.Intn(2) == 0}, &Expr{Kind: ELen, Path: f.Path, Method: c.R.Intn(2) == 0})
		}
		q := &PathQ{Root: "$", Steps: append(stepsTo(c.R, v.Parent), Step{Sel: &Sel{Kind: SFilter, Filter: f}})}
		if c.R.Intn(2) == 0 {
			q.Steps = []Step{{Desc: true, Sel: &Sel{Kind: SFilter, Filter: f}}}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
	r.Cases("same shape", r.N(9000, 200000), func(c *Case) {
		// The same key at every level of the document, with different values
		depth := 2 + c.R.Intn(4)
		var mk func(d int) *V
		mk = func(d int) *V {
			o := VObj("v", VInt(c.R.Intn(3)))
			if c.R.Intn(4) == 0 {
				o = VObj()
			}
			if d > 0 {
				a := VArr()
				for i := c.R.Intn(3); i >= 0; i-- {
					a.Items = append(a.Items, mk(d-1))
				}
				o.Set("c", a)
			}
			return o
		}
		doc := mk(depth)
		v := func(root string) *PathQ {
			return &PathQ{Root: root, Steps: []Step{{Sel: &Sel{Kind: SName, Name: "v"}}}}
		}
		f := bin([]string{"==", "!=", "<", ">="}[c.R.Intn(4)], epath(v("@")), epath(v("$")))
		q := &PathQ{Root: "$"}
		for i := 0; i < 1+c.R.Intn(depth); i++ {
			q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SName, Name: "c"}}, Step{Sel: &Sel{Kind: SWild}})
		}
		q.Steps[len(q.Steps)-1].Sel = &Sel{Kind: SFilter, Filter: f}
		if c.R.Intn(3) == 0 {
			q.Steps = []Step{{Desc: true, Sel: &Sel{Kind: SFilter, Filter: f}}}
		}
		if c.R.Intn(3) == 0 {
			// wrap: a filter within a filter
			inner := &PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "c"}}, {Sel: &Sel{Kind: SFilter, Filter: f}}}}
			q = &PathQ{Root: "$", Steps: []Step{{Desc: true, Sel: &Sel{Kind: SFilter, Filter: epath(inner)}}}}
		}
		differential(c, doc, q, style(c).path(q), diffOpts{})
	})
}

// nearKeys are keys that could be taken for k
func nearKeys(k string) []string {
	near := []string{"'" + k + "'", "\"" + k + "\"", "[" + k + "]", "['" + k + "']", "$" + k, "$." + k, "@." + k, "." + k, k + ".", "/" + k, k + "/",
		" " + k, k + " ", "\t" + k, k + "\n", k + k, k + "x", "x" + k, "_" + k, k + "_", "-" + k, k + "-", "0" + k, k + "0", k + ".0", "+" + k,
		strings.ToUpper(k), strings.ToLower(k), strings.Title(k), k + "\x00", "\x00" + k, k + "\u0301", "\ufeff" + k, k + "\u200b", k + "\u00a0",
		"\\" + k, k + "\\", strings.ReplaceAll(k, "_", "-"), strings.ReplaceAll(k, "-", "_"), strings.ReplaceAll(k, " ", ""), strings.ReplaceAll(k, "-", ""),
		strings.TrimSpace(k), strings.Trim(k, "'\""), strings.Trim(k, "$@"), strings.ReplaceAll(k, "\\", ""), "~" + k, k + "~", "%" + k, strconv.Quote(k)}
	for i, r := range k {
		near = append(near, k[:i]+k[i+utf8.RuneLen(r):])
		near = append(near, k[:i]+fmt.Sprintf("\\u%04x", r)+k[i+utf8.RuneLen(r):])
		near = append(near, k[:i]+string(r^0x20)+k[i+utf8.RuneLen(r):], k[:i]+string(r+1)+k[i+utf8.RuneLen(r):], k[:i]+string(r&0xff)+k[i+utf8.RuneLen(r):], k[:i]+string(r|0x10000)+k[i+utf8.RuneLen(r):])
		if i > 12 {
			break
		}
	}
	seen := map[string]bool{k: true}
	out := near[:0]
	for _, x := range near {
		if !seen[x] && utf8.ValidString(x) {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}
