package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	gp "github.com/bserdar/gojsonpath"
)

func init() {
	register("C19", "path constructors", checkC19)
	register("C20", "captured paths are chains", checkC20)
	register("C21", "order and agreement", checkC21)
	register("C22", "paths are persistent values", checkC22)
	register("C24", "no history", checkC24)
	register("C25", "document model contract", checkC25)
	register("C26", "model independence", checkC26)
	register("C27", "MapModel", checkC27)
}

// randDoc: any of the kinds of documents
func randDoc(c *Case) *V {
	switch c.R.Intn(3) {
	case 0:
		return recDoc(c)
	case 1:
		return genDoc(c.R, DocCfg{MaxDepth: 5, MaxWidth: 4, Budget: 60, Typed: true})
	}
	return genDoc(c.R, DocCfg{MaxDepth: 2 + c.R.Intn(5), MaxWidth: 2 + c.R.Intn(4), Budget: 60, Exotic: c.R.Intn(2) == 0})
}

// bigDoc makes documents with more children, members or levels than randDoc
func bigDoc(c *Case) *V {
	switch c.R.Intn(4) {
	case 0:
		return genRecords(c.R, 10+c.R.Intn(1<<uint(4+c.R.Intn(4))))
	case 1:
		return wideDoc(c.R, 20+c.R.Intn(280))
	case 2:
		return deepDoc(c.R, 10+c.R.Intn(90), c.R.Intn(3))
	}
	return genDoc(c.R, DocCfg{MaxDepth: 3 + c.R.Intn(6), MaxWidth: 3 + c.R.Intn(20), Budget: 50 + c.R.Intn(300), Exotic: c.R.Intn(3) == 0})
}

// bigQuery makes queries that can be run on them in reasonable time
func bigQuery(c *Case, doc *V) *PathQ {
	all := Number(doc)
	if c.R.Intn(2) == 0 && len(all) > 1 {
		// the way to a node, perhaps generalized
		steps := stepsTo(c.R, all[1+c.R.Intn(len(all)-1)])
		for k := c.R.Intn(3); k > 0; k-- {
			switch i := c.R.Intn(len(steps)); c.R.Intn(3) {
			case 0:
				steps[i].Sel = &Sel{Kind: SWild}
			case 1:
				steps = steps[i:]
				steps[0].Desc = true
			case 2:
				steps = steps[:i+1]
			}
		}
		return &PathQ{Root: "$", Steps: steps}
	}
	return newGen(c.R, doc, QCfg{MaxSteps: 4, Desc: 20, MaxDesc: 1, Name: 6, Wild: 3, Index: 3, Slice: 3, Union: 3, Filter: 3, FDepth: 1, EDepth: 1}).query()
}

// ---- C19

type built struct {
	p    gp.Path
	q    PathQ
	desc bool // the last selector is marked as a recursive descent
	src  string
}

// oddKeys are names with the looks of something else
var oddKeys = []string{`"a"`, `'a'`, `"a`, `'`, `"`, "*", "..", ".", "$", "@", "$.a", "@.a", "[0]", "['a']", "[*]", "a.b", ".a", "a ", " a", "/a", "a/b", "length()", "", "?(@)", "a,b", "0:1", `\a`, `\u0061`, "a\x00"}

func checkC19(r *Run) {
	r.rule = "Case k: a random graph of paths is built with constructors, Append and RecursiveDescent, where pieces are shared by many paths (also parsed ones), all kept alive. After everything is built, every path is evaluated and compared with the reference for the steps it is made of, and with Parse of the same steps. Non-trivial if it selects something; distinct by (path, document)."
	r.assume = []string{diffAssume, "KeySelectorPath of a number on an array is not specified"}
	r.Cases("graphs", r.N(6000, 200000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 4, MaxWidth: 4, Budget: 50, Exotic: c.R.Intn(3) == 0})
		all := Number(doc)
		var pool []built
		root := built{p: gp.SelectRootPath, src: "Root"}
		pool = append(pool, root)
		keys := plainKeys
		for _, n := range all {
			for _, k := range n.Keys {
				if !isNumericName(k) {
					keys = append(keys[:len(keys):len(keys)], k)
				}
			}
		}
		if c.R.Intn(3) == 0 {
			// names that would be something else in a text
			keys = append(keys[:len(keys):len(keys)], oddKeys...)
			for _, n := range all {
				if n.Kind == KObj && c.R.Intn(2) == 0 {
					for k := 1 + c.R.Intn(4); k > 0; k-- {
						n.Set(oddKeys[c.R.Intn(len(oddKeys))], VInt(c.R.Intn(100)))
					}
				}
			}
			all = Number(doc)
		}
		var pieces []built
		one := func(s *Sel) PathQ { return PathQ{Steps: []Step{{Sel: s}}} }
		for i := 0; i < 6; i++ {
			switch c.R.Intn(4) {
			case 0, 1:
				k := keys[c.R.Intn(len(keys))]
				pieces = append(pieces, built{p: gp.KeySelectorPath(k), q: one(&Sel{Kind: SName, Name: k}), src: fmt.Sprintf("Key(%q)", k)})
			case 2:
				n := c.R.Intn(6) - 2
				if c.R.Intn(8) == 0 {
					n = bigInts[c.R.Intn(len(bigInts))]
				}
				pieces = append(pieces, built{p: gp.IndexSelectorPath(n), q: one(&Sel{Kind: SIndex, Index: n}), src: fmt.Sprintf("Index(%d)", n)})
			case 3:
				pieces = append(pieces, built{p: gp.WildcardPath, q: one(&Sel{Kind: SWild}), src: "Wildcard"})
			}
		}
		// A parsed prefix
		g := newGen(c.R, doc, QCfg{MaxSteps: 3, Desc: 20, Name: 5, Wild: 2, Index: 2, Slice: 2, Union: 1})
		pq := g.query()
		text := (&Style{Plain: true}).path(pq)
		pool = append(pool, built{p: parse(c, text), q: *pq, src: "Parse(" + text + ")"})
		if c.R.Intn(2) == 0 {
			pq := g.query()
			text := (&Style{Plain: true}).path(pq) + ".."
			q := PathQ{Steps: append(append([]Step(nil), pq.Steps...), Step{Desc: true, Sel: &Sel{Kind: SWild}})}
			pool = append(pool, built{p: parse(c, text), q: q, src: "Parse(" + text + ")"})
		}
		for n := 8 + c.R.Intn(20); n > 0; n-- {
			b := pool[c.R.Intn(len(pool))]
			switch c.R.Intn(6) {
			case 0:
				if !b.desc {
					pool = append(pool, built{p: gp.RecursiveDescent(b.p), q: b.q, desc: true, src: "RecursiveDescent(" + b.src + ")"})
				}
			default:
				args := []gp.Path{b.p}
				nb := built{q: PathQ{Steps: append([]Step(nil), b.q.Steps...)}, src: "Append(" + b.src}
				desc := b.desc
				most := 3
				if c.R.Intn(4) == 0 {
					most = 8
				}
				for k := 1 + c.R.Intn(most); k > 0; k-- {
					x := pieces[c.R.Intn(len(pieces))]
					switch c.R.Intn(12) {
					case 0:
						// Adds nothing
						args = append(args, gp.Path{})
						nb.src += ", Path{}"
						continue
					case 1, 2:
						x.p, x.desc, x.src = gp.RecursiveDescent(x.p), true, "RecursiveDescent("+x.src+")"
					case 3:
						y := pieces[c.R.Intn(len(pieces))]
						x = built{p: gp.Append(x.p, y.p), q: PathQ{Steps: []Step{x.q.Steps[0], y.q.Steps[0]}}, src: "Append(" + x.src + ", " + y.src + ")"}
						if c.R.Intn(3) == 0 {
							x.p, x.desc, x.src = gp.RecursiveDescent(x.p), true, "RecursiveDescent("+x.src+")"
						}
					}
					args = append(args, x.p)
					for i, st := range x.q.Steps {
						if i == 0 {
							st.Desc = desc
						}
						nb.q.Steps = append(nb.q.Steps, st)
					}
					desc = x.desc
					nb.src += ", " + x.src
				}
				nb.desc = desc
				nb.src += ")"
				nb.p = gp.Append(args...)
				pool = append(pool, nb)
			}
		}
		c.Note("document: %s", doc)
		m := NewMon(doc, "ptr")
		notes := len(c.desc)
		for _, b := range pool {
			q := &PathQ{Root: "$", Steps: append([]Step(nil), b.q.Steps...)}
			if b.desc {
				q.Steps = append(q.Steps, Step{Desc: true, Sel: &Sel{Kind: SWild}})
			}
			nd := 0
			for _, s := range q.Steps {
				if s.Desc {
					nd++
				}
			}
			if nd > 3 {
				continue
			}
			c.Note("path: %s", clip(b.src))
			want, why, ok := refEval(doc, q)
			if !ok {
				c.Count("skipped paths: "+why, 1)
				continue
			}
			text := (&Style{Plain: true}).path(q)
			c.Note("as text: %s", clip(text))
			c.Note("expected: %s", locs(want))
			if got := findMon(c, m, b.p); !sameBag(got, want) {
				c.Fail("selected: %s", locs(got))
			}
			if got := findMonText(c, m, text); !sameBag(got, want) {
				c.Fail("parsed: %s", locs(got))
			}
			c.Count("paths compared", 1)
			if len(want) > 0 && len(q.Steps) > 0 {
				c.NonTrivial(text + doc.String())
				c.Sample(map[string]any{"path": clip(b.src), "text": clip(text), "selected": len(want)})
			}
			c.desc = c.desc[:notes]
		}
	})
	r.Cases("long", r.N(2500, 50000), func(c *Case) {
		// the way to a node of a deep document, put together in any grouping
		doc := deepDoc(c.R, 5+c.R.Intn(1<<uint(2+c.R.Intn(5))), c.R.Intn(3))
		if c.R.Intn(3) == 0 {
			doc = genDoc(c.R, DocCfg{MaxDepth: 8, MaxWidth: 4, Budget: 120})
		}
		all := Number(doc)
		if len(all) < 2 {
			c.Skip("the root only")
		}
		v := all[1+c.R.Intn(len(all)-1)]
		for i := 0; i < 4; i++ {
			if w := all[c.R.Intn(len(all))]; w.Depth > v.Depth {
				v = w
			}
		}
		q := &PathQ{Root: "$"}
		var pieces []gp.Path
		nd := 0
		src := ""
		desc := false // the next step is one of descent
		for _, x := range ancestors(v)[1:] {
			if desc && c.R.Intn(2) == 0 && x != v {
				continue
			}
			st := Step{Desc: desc}
			desc = false
			switch {
			case c.R.Intn(8) == 0 && nd < 3:
				st.Sel = &Sel{Kind: SWild}
				src += " *"
				pieces = append(pieces, gp.WildcardPath)
			case x.Parent.Kind == KArr:
				i := x.Idx
				if c.R.Intn(2) == 0 {
					i -= len(x.Parent.Items)
				}
				st.Sel = &Sel{Kind: SIndex, Index: i}
				src += fmt.Sprintf(" [%d]", i)
				pieces = append(pieces, gp.IndexSelectorPath(i))
			default:
				st.Sel = &Sel{Kind: SName, Name: x.Key}
				src += fmt.Sprintf(" %q", x.Key)
				pieces = append(pieces, gp.KeySelectorPath(x.Key))
			}
			if c.R.Intn(8) == 0 && nd < 2 && x != v {
				nd++
				pieces[len(pieces)-1] = gp.RecursiveDescent(pieces[len(pieces)-1])
				desc = true
				src += " .."
			}
			q.Steps = append(q.Steps, st)
		}
		if desc {
			q.Steps = append(q.Steps, Step{Desc: true, Sel: &Sel{Kind: SWild}})
		}
		pieces = append([]gp.Path{gp.SelectRootPath}, pieces...)
		// join neighbours until one is left
		var kept [][2]any
		for len(pieces) > 1 {
			i := c.R.Intn(len(pieces) - 1)
			k := 2 + c.R.Intn(min(3, len(pieces)-i-1))
			if c.R.Intn(4) == 0 {
				i = 0
				k = 2 + c.R.Intn(len(pieces)-1)
			}
			src += fmt.Sprintf(" %d+%d", i, k)
			joined := gp.Append(pieces[i : i+k]...)
			if i == 0 && c.R.Intn(4) == 0 {
				kept = append(kept, [2]any{joined, gp.Append(pieces[i : i+k]...)})
			}
			pieces = append(append(append([]gp.Path(nil), pieces[:i]...), joined), pieces[i+k:]...)
		}
		c.Note("document: %s", clip(doc.String()))
		c.Note("pieces: %s", clip(src))
		want, why, ok := refEval(doc, q)
		if !ok {
			c.Skip(why)
		}
		c.Note("expected: %s", clip(locs(want)))
		m := NewMon(doc, "ptr")
		if got := findMon(c, m, pieces[0]); !sameBag(got, want) {
			c.Fail("selected: %s", clip(locs(got)))
		}
		text := style(c).path(q)
		if got := findMonText(c, m, text); !sameBag(got, want) {
			c.Fail("parsed from %s: %s", clip(text), clip(locs(got)))
		}
		for _, k := range kept {
			if a, b := findMon(c, m, k[0].(gp.Path)), findMon(c, m, k[1].(gp.Path)); !sameOrder(a, b) {
				c.Fail("a path made in between selects %s, one made of the same pieces %s", clip(locs(a)), clip(locs(b)))
			}
		}
		c.Count(fmt.Sprintf("paths of %d steps or more", []int{1, 10, 20, 30}[min(3, len(q.Steps)/10)]), 1)
		if len(want) > 0 {
			c.NonTrivial(src + doc.String())
		}
	})
	r.Cases("common prefix", r.N(6000, 100000), func(c *Case) {
		// Paths that extend one prefix do not disturb each other, or it
		doc := VObj()
		for _, k := range plainKeys {
			o := VObj()
			for _, l := range plainKeys {
				o.Set(l, VStr(k+l))
			}
			doc.Set(k, o)
		}
		k := plainKeys[c.R.Intn(len(plainKeys))]
		m := NewMon(doc, "ptr")
		prefix := gp.Append(gp.SelectRootPath, gp.KeySelectorPath(k))
		for i := c.R.Intn(3); i > 0; i-- {
			prefix = gp.Append(prefix)
		}
		if c.R.Intn(2) == 0 {
			prefix = parse(c, "$."+k)
		}
		var ext []gp.Path
		for _, l := range plainKeys {
			ext = append(ext, gp.Append(prefix, gp.KeySelectorPath(l)))
		}
		rd := gp.RecursiveDescent(prefix)
		for i, l := range plainKeys {
			got := findMon(c, m, ext[i])
			if len(got) != 1 || got[0].S != k+l {
				c.Fail("$.%s.%s selects %s after other paths were built", k, l, locs(got))
			}
		}
		if got := findMon(c, m, prefix); len(got) != 1 || got[0].Key != k {
			c.Fail("the prefix $.%s selects %s", k, locs(got))
		}
		if got := findMon(c, m, rd); len(got) != len(plainKeys) {
			c.Fail("$.%s..* selects %s", k, locs(got))
		}
		if got := findMon(c, m, gp.SelectRootPath); len(got) != 1 || got[0] != doc {
			c.Fail("SelectRootPath selects %s", locs(got))
		}
		if got := findMon(c, m, gp.Append(gp.SelectRootPath, gp.WildcardPath)); len(got) != len(plainKeys) {
			c.Fail("$.* selects %s", locs(got))
		}
		c.Count("paths compared", len(plainKeys)+4)
		c.NonTrivial(fmt.Sprint(c.N))
	})
	r.Cases("empty", 1, func(c *Case) {
		m := NewMon(VObj("a", VInt(1)), "ptr")
		for i, p := range []gp.Path{{}, gp.Append(), gp.Append(gp.Path{}, gp.Append()), gp.RecursiveDescent(gp.Path{})} {
			if got := findMon(c, m, p); len(got) != 0 {
				c.Fail("empty path %d selects %s", i, locs(got))
			}
		}
		c.NonTrivial("empty")
	})
}

// ---- C20

// checkChain says what is wrong with a captured path, "" if nothing
func checkChain(m *MonModel, dp gp.DocPath) string {
	if len(dp.P) == 0 {
		return "empty path"
	}
	if dp.Len() != len(dp.P) {
		return fmt.Sprintf("Len is %d, there are %d segments", dp.Len(), len(dp.P))
	}
	if x := m.V(dp.P[0].Node); x != m.nodes[0] {
		return "the path does not start at the root"
	}
	for i, s := range dp.P {
		v := m.V(s.Node)
		if v == nil {
			return fmt.Sprintf("segment %d: %T is not a node", i, s.Node)
		}
		if s.Type != nodeType(v) {
			return fmt.Sprintf("segment %d (%s) has type %d", i, v.Loc(), s.Type)
		}
		if i == 0 {
			if s.Name != "" || s.Index != 0 {
				return fmt.Sprintf("the root has name %q, index %d", s.Name, s.Index)
			}
			continue
		}
		par := m.V(dp.P[i-1].Node)
		if v.Parent != par {
			return fmt.Sprintf("segment %d (%s) is not a child of segment %d (%s)", i, v.Loc(), i-1, par.Loc())
		}
		name, index := v.Key, 0
		if par.Kind == KArr {
			name, index = "", v.Idx
		}
		if s.Name != name || s.Index != index {
			return fmt.Sprintf("segment %d (%s) has name %q, index %d", i, v.Loc(), s.Name, s.Index)
		}
	}
	last := dp.Last()
	if m.V(last.Node) != m.V(dp.P[len(dp.P)-1].Node) || last.Name != dp.P[len(dp.P)-1].Name || last.Index != dp.P[len(dp.P)-1].Index {
		return "Last is not the last segment"
	}
	return ""
}

func segs(m *MonModel, dp gp.DocPath) string {
	var b strings.Builder
	for _, s := range dp.P {
		fmt.Fprintf(&b, "{%s type=%d name=%q index=%d}", m.V(s.Node).Loc(), s.Type, s.Name, s.Index)
	}
	return b.String()
}

func checkC20(r *Run) {
	r.rule = "Case k: a random query (all selectors) on a random document. Every path given to the capture function, during the call and again after the search has ended, has to start at the root, every segment has to be the child of the previous one under the key or index it carries, with its node type, and to end at the node Find returns. Non-trivial if a captured path has three or more segments; distinct by (query, document)."
	r.assume = []string{"the document model is the harness' own, so that every node's place is known"}
	var bodyQ func(c *Case, doc *V, q *PathQ)
	body := func(c *Case, doc *V, cfg QCfg) { bodyQ(c, doc, newGen(c.R, doc, cfg).query()) }
	bodyQ = func(c *Case, doc *V, q *PathQ) {
		text := style(c).path(q)
		m := NewMon(doc, []string{"ptr", "int"}[c.R.Intn(2)])
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		p := parse(c, text)
		var kept []gp.DocPath
		var ends []*V
		long := false
		err := gp.Search(m, p, func(dp gp.DocPath) {
			ends = append(ends, m.V(dp.Last().Node))
			if s := checkChain(m, dp); s != "" {
				c.Fail("captured path: %s", s)
			}
			long = long || len(dp.P) >= 3
			kept = append(kept, dp)
		})
		if err != nil {
			c.Fail("Search: %v", err)
		}
		found := justFind(c, m, p)
		if len(found) != len(kept) {
			c.Fail("Search captures %d paths, Find %d nodes", len(kept), len(found))
		}
		for i, dp := range kept {
			if s := checkChain(m, dp); s != "" {
				c.Fail("captured path %d, after the search: %s: %s", i, s, segs(m, dp))
			}
			if v := m.V(dp.Last().Node); v != ends[i] {
				c.Fail("captured path %d ended at %s, after the search it ends at %s", i, ends[i].Loc(), v.Loc())
			}
		}
		if c.R.Intn(2) == 0 {
			// Extending some of them does not change the others
			for n := 3; n > 0 && len(kept) > 0; n-- {
				i := c.R.Intn(len(kept))
				switch c.R.Intn(3) {
				case 0:
					_ = append(kept[i].P, gp.Segment{Name: "mine", Index: -1}, gp.Segment{Name: "mine"})
				case 1:
					kept[i].Push(gp.Segment{Name: "mine"})
				case 2:
					kept[i].Pop().Key("mine", nil, gp.ObjectNode)
				}
			}
			for i, dp := range kept {
				if s := checkChain(m, dp); s != "" {
					c.Fail("captured path %d, after others were extended: %s: %s", i, s, segs(m, dp))
				}
			}
		}
		last := make([]*V, len(kept))
		for i := range kept {
			last[i] = m.V(kept[i].Last().Node)
		}
		if !sameBag(last, found) {
			c.Fail("paths end at %s, Find returns %s", locs(last), locs(found))
		}
		c.Count("captured paths checked", len(kept))
		if long {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": text, "path": segs(m, kept[0])})
		}
	}
	r.Cases("random", r.N(60000, 900000), func(c *Case) {
		doc := randDoc(c)
		switch c.R.Intn(3) {
		case 0:
			doc = genDoc(c.R, DocCfg{MaxDepth: 9, MaxWidth: 3, Budget: 90, Keys: []string{"a", "b", "n"}})
		case 1:
			doc = deepDoc(c.R, 4+c.R.Intn(8), 2)
		}
		cfg := allCfg()
		cfg.MaxSteps = 5
		cfg.EDepth = 1
		cfg.Filter = 2
		cfg.Desc = 45
		if c.R.Intn(2) == 0 {
			cfg.Wild, cfg.Index, cfg.Slice = 8, 1, 2
		}
		body(c, doc, cfg)
	})
	r.Cases("large", r.N(3000, 60000), func(c *Case) {
		doc := bigDoc(c)
		bodyQ(c, doc, bigQuery(c, doc))
	})
	r.Cases("very deep", r.N(80, 3000), func(c *Case) {
		// a chain, on some levels of which there is something to select
		doc := VObj("z", VInt(1))
		n := 100 + c.R.Intn(1500)
		for i := 0; i < n; i++ {
			if c.R.Intn(7) > 0 {
				if c.R.Intn(3) == 0 {
					doc = VArr(doc)
				} else {
					doc = VObj("a", doc)
				}
				continue
			}
			o := VObj()
			for _, j := range c.R.Perm(3) {
				if j == 0 {
					o.Set("a", doc)
				} else if c.R.Intn(5) > 0 {
					o.Set([]string{"", "z", "y"}[j], VInt(i))
				}
			}
			if o.Get("a") == nil {
				panic(harnessBug("chain"))
			}
			doc = o
		}
		q := &PathQ{Root: "$", Steps: []Step{{Desc: true, Sel: &Sel{Kind: SName, Name: "z"}}}}
		switch c.R.Intn(3) {
		case 0:
			q.Steps[0].Sel = &Sel{Kind: SUnion, Parts: []*Sel{{Kind: SName, Name: "z"}, {Kind: SName, Name: "y"}}}
		case 1:
			q.Steps[0].Sel = &Sel{Kind: SFilter, Filter: bin(">", epath(&PathQ{Root: "@"}), eint(0))}
		}
		bodyQ(c, doc, q)
	})
	r.Cases("deep", r.N(700, 20000), func(c *Case) {
		doc := deepDoc(c.R, 10+c.R.Intn(190), c.R.Intn(2))
		cfg := QCfg{MaxSteps: 3, Desc: 60, MaxDesc: 1, Name: 3, Wild: 4, Index: 2, Slice: 3, Union: 1}
		if c.R.Intn(4) == 0 {
			cfg.Filter, cfg.FDepth, cfg.EDepth = 2, 1, 1
		}
		body(c, doc, cfg)
	})
}

// ---- C21

func checkC21(r *Run) {
	r.rule = "Case k: a random query on a random document; the results of Find, in order, are compared with the traversal order of the reference (elements ascending or in the direction of the slice, members in the model's key order, the rest of the path before deeper descendants), and Find, Search, ParseAndFind and a second run have to agree exactly. Non-trivial if two or more nodes are selected; distinct by (query, document)."
	r.assume = []string{diffAssume, "members of an object are visited in the order DocModel.Keys gives"}
	var bodyQ func(c *Case, doc *V, q *PathQ)
	body := func(c *Case, doc *V, cfg QCfg) { bodyQ(c, doc, newGen(c.R, doc, cfg).query()) }
	bodyQ = func(c *Case, doc *V, q *PathQ) {
		text := style(c).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		m := NewMon(doc, "ptr")
		p := parse(c, text)
		got := justFind(c, m, p)
		want, _, ok := refEval(doc, q)
		if ok {
			c.Note("expected: %s", locs(want))
			if !sameOrder(got, want) {
				c.Fail("Find returns (in order) %s", locs(got))
			}
		} else {
			c.Count("outcome not specified, only agreement checked", 1)
		}
		var cap []*V
		if err := gp.Search(m, p, func(dp gp.DocPath) { cap = append(cap, m.V(dp.Last().Node)) }); err != nil {
			c.Fail("Search: %v", err)
		}
		if !sameOrder(got, cap) {
			c.Fail("Find returns %s, Search captures %s", locs(got), locs(cap))
		}
		pf, err := gp.ParseAndFind(m, text)
		if err != nil {
			c.Fail("ParseAndFind: %v", err)
		}
		var pfn []*V
		for _, x := range pf {
			pfn = append(pfn, m.V(x))
		}
		if !sameOrder(got, pfn) {
			c.Fail("Find returns %s, ParseAndFind %s", locs(got), locs(pfn))
		}
		if again := justFind(c, m, p); !sameOrder(got, again) {
			c.Fail("Find returns %s, then %s", locs(got), locs(again))
		}
		c.Count("nodes compared", len(got))
		if len(got) > 1 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": text, "document": clip(doc.String()), "order": clip(locs(got))})
		}
	}
	r.Cases("random", r.N(18000, 700000), func(c *Case) { body(c, randDoc(c), allCfg()) })
	r.Cases("many results", r.N(9000, 300000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 5, MaxWidth: 6, Budget: 120})
		body(c, doc, QCfg{MaxSteps: 4, Desc: 35, Name: 2, Wild: 6, Index: 1, Slice: 6, Union: 3})
	})
	r.Cases("large", r.N(2500, 60000), func(c *Case) {
		doc := bigDoc(c)
		bodyQ(c, doc, bigQuery(c, doc))
	})
	r.Cases("wide", r.N(1500, 40000), func(c *Case) {
		// many children, keys in no order
		doc := &V{Kind: []Kind{KObj, KArr}[c.R.Intn(2)]}
		n := 5 + c.R.Intn(60)
		for _, i := range c.R.Perm(n) {
			if doc.Kind == KObj {
				doc.Keys = append(doc.Keys, "k"+strconv.Itoa(i))
			}
			x := genScalar(c.R)
			if c.R.Intn(6) == 0 {
				x = genDoc(c.R, DocCfg{MaxDepth: 2, MaxWidth: 3, Budget: 8})
			}
			doc.Items = append(doc.Items, x)
		}
		switch c.R.Intn(4) {
		case 0:
			doc = VObj("z", VInt(1), "a", doc, "m", genScalar(c.R))
		case 1:
			doc = VArr(genScalar(c.R), doc, VObj("a", genScalar(c.R)))
		}
		body(c, doc, QCfg{MaxSteps: 3, Desc: 30, Name: 3, Wild: 4, Index: 1, Slice: 4, Union: 4, Filter: 4, FDepth: 1, EDepth: 1})
	})
	r.Cases("map model", r.N(8000, 100000), func(c *Case) {
		// MapModel has no order of keys, but arrays do, and all three agree
		doc := randDoc(c)
		q := newGen(c.R, doc, allCfg()).query()
		text := style(c).path(q)
		mm := gp.MapModel{Doc: doc.Go(c.R.Intn(2) == 0)}
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		p := parse(c, text)
		res, err := gp.Find(mm, p)
		if err != nil {
			c.Fail("Find: %v", err)
		}
		if res == nil {
			c.Fail("Find returns a nil list without an error")
		}
		pf, err := gp.ParseAndFind(mm, text)
		if err != nil {
			c.Fail("ParseAndFind: %v", err)
		}
		var sr []any
		if err := gp.Search(mm, p, func(dp gp.DocPath) { sr = append(sr, dp.Last().Node) }); err != nil {
			c.Fail("Search: %v", err)
		}
		bag := func(x []any) string {
			var s []string
			for _, y := range x {
				s = append(s, goString(y))
			}
			sort.Strings(s)
			return strings.Join(s, " ")
		}
		if a, b, d := bag(res), bag(pf), bag(sr); a != b || a != d {
			c.Fail("Find %s, ParseAndFind %s, Search %s", a, b, d)
		}
		if len(res) > 1 {
			c.NonTrivial(text + doc.String())
		}
	})
	r.Cases("errors", r.N(3000, 30000), func(c *Case) {
		// ParseAndFind fails exactly when Parse or Find does, with the same error
		s := mutate(c.R, anyQueryText(c))
		if nestedFilters(s) > 4 {
			c.Skip("beyond the bounds")
		}
		c.Note("input: %q", s)
		model := gp.MapModel{Doc: map[string]any{"a": []any{1}}}
		p, e1 := gp.Parse(s)
		res, e2 := gp.ParseAndFind(model, s)
		if e1 != nil && len(res) > 0 {
			c.Fail("results with an error")
		}
		if e1 == nil {
			_, e1 = gp.Find(model, p)
		}
		if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
			c.Fail("Parse and Find: %v, ParseAndFind: %v", e1, e2)
		}
		if e1 != nil {
			c.NonTrivial(s)
		}
	})
}

// ---- C22

func checkC22(r *Run) {
	r.rule = "Case k: either a random history of DocPath operations (Key, Index, Push, Pop on any path made so far), where every path is compared with an immutable list after every operation; or a search whose captured paths are kept, extended and cut by the caller while the search goes on, and have to be what they were when captured, without changing what is captured later. Distinct by history."
	r.assume = []string{"Pop and Last of an empty path, and writing to elements of P, are not covered"}
	type seg struct {
		node any
		t    gp.NodeType
		name string
		idx  int
	}
	r.Cases("history", r.N(15000, 300000), func(c *Case) {
		type pv struct {
			dp   gp.DocPath
			want []seg
		}
		paths := []pv{{}}
		if c.R.Intn(2) == 0 {
			paths[0].dp.P = make([]gp.Segment, 0, c.R.Intn(20))
		}
		same := func(p pv) string {
			if p.dp.Len() != len(p.want) {
				return fmt.Sprintf("Len is %d, not %d", p.dp.Len(), len(p.want))
			}
			for i, w := range p.want {
				s := p.dp.P[i]
				if s.Node != w.node || s.Type != w.t || s.Name != w.name || s.Index != w.idx {
					return fmt.Sprintf("segment %d is %+v, not %+v", i, s, w)
				}
			}
			if n := len(p.want); n > 0 {
				s, w := p.dp.Last(), p.want[n-1]
				if s.Node != w.node || s.Type != w.t || s.Name != w.name || s.Index != w.idx {
					return fmt.Sprintf("Last is %+v, not %+v", s, w)
				}
			}
			return ""
		}
		hist := ""
		for n := 5 + c.R.Intn(40); n > 0; n-- {
			i := c.R.Intn(len(paths))
			if c.R.Intn(2) == 0 {
				i = len(paths) - 1
			}
			b := paths[i]
			var node any = c.R.Intn(1000)
			if c.R.Intn(6) == 0 {
				node = []any{nil, "", "x", 1.5, true, (*int)(nil), [2]int{1, 2}, struct{}{}}[c.R.Intn(8)]
			}
			t := gp.NodeType(c.R.Intn(3))
			var nb pv
			switch c.R.Intn(4) {
			case 0:
				k := randKey(c.R)
				nb = pv{b.dp.Key(k, node, t), append(b.want[:len(b.want):len(b.want)], seg{node, t, k, 0})}
				hist += fmt.Sprintf("p%d=p%d.Key(%q,%v,%d) ", len(paths), i, k, node, t)
			case 1:
				x := c.R.Intn(10)
				if c.R.Intn(8) == 0 {
					x = []int{-1, 0, 255, 256, 65536, math.MaxInt, math.MinInt}[c.R.Intn(7)]
				}
				nb = pv{b.dp.Index(x, node, t), append(b.want[:len(b.want):len(b.want)], seg{node, t, "", x})}
				hist += fmt.Sprintf("p%d=p%d.Index(%d,%v,%d) ", len(paths), i, x, node, t)
			case 2:
				name, x := []string{"x", "x", "", "long name"}[c.R.Intn(4)], c.R.Intn(4)
				nb = pv{b.dp.Push(gp.Segment{Node: node, Type: t, Name: name, Index: x}), append(b.want[:len(b.want):len(b.want)], seg{node, t, name, x})}
				hist += fmt.Sprintf("p%d=p%d.Push(%v,%d,%q,%d) ", len(paths), i, node, t, name, x)
			case 3:
				if len(b.want) == 0 {
					continue
				}
				nb = pv{b.dp.Pop(), b.want[: len(b.want)-1 : len(b.want)-1]}
				hist += fmt.Sprintf("p%d=p%d.Pop() ", len(paths), i)
			}
			paths = append(paths, nb)
			for j, p := range paths {
				if s := same(p); s != "" {
					c.Note("history: %s", hist)
					c.Fail("p%d: %s", j, s)
				}
			}
		}
		c.Count("operations", len(paths)-1)
		c.NonTrivial(hist)
		c.Sample(hist)
	})
	r.Cases("long", r.N(800, 20000), func(c *Case) {
		// Long paths, that go up and down by many segments
		type pv struct {
			dp   gp.DocPath
			want []seg
		}
		var kept []pv
		cur := pv{}
		if c.R.Intn(2) == 0 {
			cur.dp.P = make([]gp.Segment, 0, c.R.Intn(200))
		}
		same := func(what string, p pv) {
			if len(p.dp.P) != len(p.want) {
				c.Fail("%s: Len is %d, not %d", what, len(p.dp.P), len(p.want))
			}
			for i, w := range p.want {
				s := p.dp.P[i]
				if s.Node != w.node || s.Type != w.t || s.Name != w.name || s.Index != w.idx {
					c.Fail("%s: segment %d of %d is %+v, not %+v", what, i, len(p.want), s, w)
				}
			}
		}
		hist := ""
		ops := 0
		for n := 4 + c.R.Intn(8); n > 0; n-- {
			if len(kept) > 0 && c.R.Intn(3) == 0 {
				i := c.R.Intn(len(kept))
				cur = kept[i]
				hist += fmt.Sprintf("from path %d; ", i)
			}
			up, k := c.R.Intn(2) == 0, 1+c.R.Intn(150)
			if up && k > len(cur.want)-1 {
				k = len(cur.want) - 1
			}
			hist += fmt.Sprintf("up=%v %d times; ", up, k)
			for ; k > 0; k-- {
				ops++
				if up {
					cur = pv{cur.dp.Pop(), cur.want[: len(cur.want)-1 : len(cur.want)-1]}
				} else if x := ops; c.R.Intn(2) == 0 {
					cur = pv{cur.dp.Index(x, -x, gp.ArrayNode), append(cur.want[:len(cur.want):len(cur.want)], seg{-x, gp.ArrayNode, "", x})}
				} else if c.R.Intn(5) == 0 {
					// nothing but zero values: a null, under the key "" or the index 0
					cur = pv{cur.dp.Push(gp.Segment{}), append(cur.want[:len(cur.want):len(cur.want)], seg{})}
				} else {
					name := fmt.Sprint("k", x)
					cur = pv{cur.dp.Key(name, -x, gp.ObjectNode), append(cur.want[:len(cur.want):len(cur.want)], seg{-x, gp.ObjectNode, name, 0})}
				}
				if c.R.Intn(16) == 0 {
					kept = append(kept, cur)
				}
				if c.R.Intn(8) == 0 {
					// several paths from this one
					for k := 2 + c.R.Intn(2); k > 0; k-- {
						sib := pv{cur.dp.Push(gp.Segment{}), append(cur.want[:len(cur.want):len(cur.want)], seg{})}
						switch c.R.Intn(4) {
						case 0:
							name := fmt.Sprint("s", k)
							sib = pv{cur.dp.Push(gp.Segment{Name: name}), append(cur.want[:len(cur.want):len(cur.want)], seg{nil, 0, name, 0})}
						case 1:
							sib = pv{cur.dp.Index(k, nil, gp.ArrayNode), append(cur.want[:len(cur.want):len(cur.want)], seg{nil, gp.ArrayNode, "", k})}
						}
						kept = append(kept, sib)
					}
				}
				if ops%8 == 0 || len(cur.want) < 12 {
					c.desc = c.desc[:0]
					c.Note("%s", hist)
					same("the path", cur)
				}
			}
		}
		c.Note("%s", hist)
		for i, p := range kept {
			same(fmt.Sprint("kept path ", i), p)
		}
		c.Count("operations", ops)
		c.NonTrivial(hist)
	})
	captures := func(c *Case, doc *V, cfg QCfg) {
		if c.R.Intn(3) == 0 {
			cfg.Filter, cfg.FDepth, cfg.EDepth = 3, 1, 1
		}
		q := newGen(c.R, doc, cfg).query()
		text := style(c).path(q)
		m := NewMon(doc, "ptr")
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		p := parse(c, text)
		var plain [][]seg
		conv := func(dp gp.DocPath) []seg {
			out := make([]seg, len(dp.P))
			for i, s := range dp.P {
				v := m.V(s.Node)
				if v == nil {
					c.Fail("segment %d of %d: %T is not a node of the document", i, len(dp.P), s.Node)
				}
				out[i] = seg{v.ID, s.Type, s.Name, s.Index}
			}
			return out
		}
		gp.Search(m, p, func(dp gp.DocPath) { plain = append(plain, conv(dp)) })
		// again, with a caller that uses what it gets
		var kept, derived []gp.DocPath
		var wantDerived [][]seg
		n := 0
		gp.Search(m, p, func(dp gp.DocPath) {
			if n >= len(plain) || !reflect.DeepEqual(conv(dp), plain[n]) {
				c.Fail("capture %d differs from the one of the same search with an idle caller: %s", n, segs(m, dp))
			}
			n++
			kept = append(kept, dp)
			var d gp.DocPath
			switch c.R.Intn(5) {
			case 0:
				d = dp.Key("k", m.node(doc), gp.ValueNode)
			case 1:
				d = dp.Index(7, m.node(doc), gp.ValueNode)
			case 2:
				d = dp.Push(gp.Segment{Node: m.node(doc), Name: "pushed"})
			case 3:
				d = dp.Pop().Key("replaced", m.node(doc), gp.ObjectNode)
			case 4:
				d = dp
				if c.R.Intn(2) == 0 {
					d.P = append(d.P, gp.Segment{Node: m.node(doc), Name: "appended"})
				}
			}
			derived = append(derived, d)
			wantDerived = append(wantDerived, conv(d))
		})
		if n != len(plain) {
			c.Fail("%d captures, %d with an idle caller", n, len(plain))
		}
		for i := range kept {
			if !reflect.DeepEqual(conv(kept[i]), plain[i]) {
				c.Fail("captured path %d has changed: %s", i, segs(m, kept[i]))
			}
			if !reflect.DeepEqual(conv(derived[i]), wantDerived[i]) {
				c.Fail("path derived from captured path %d has changed: %s", i, segs(m, derived[i]))
			}
		}
		c.Count("captured paths", n)
		if n > 1 {
			c.NonTrivial(text + doc.String())
		}
	}
	r.Cases("captures", r.N(15000, 300000), func(c *Case) {
		captures(c, genDoc(c.R, DocCfg{MaxDepth: 5, MaxWidth: 5, Budget: 80}), QCfg{MaxSteps: 4, Desc: 40, Name: 3, Wild: 6, Index: 1, Slice: 2, Union: 2})
	})
	r.Cases("deep captures", r.N(400, 10000), func(c *Case) {
		captures(c, deepDoc(c.R, 10+c.R.Intn(190), c.R.Intn(2)), QCfg{MaxSteps: 3, Desc: 60, MaxDesc: 1, Name: 3, Wild: 4, Index: 2, Slice: 3, Union: 1})
	})
}

// ---- C24

func checkC24(r *Run) {
	r.rule = "Case k: a history of 20 to 50 operations on a pool of documents and compiled paths: Find and Search in any order, Parse of the same and of malformed text, building further paths, searches inside a capture function, capture functions and document models that panic in the middle. Every result is compared with the result the same path gave on the same document, freshly parsed, before the history started (in order), and documents have to be unchanged. Part similar texts: 3 to 6 texts that differ from one another in one name, operator or constant are compiled and evaluated in random order, against the reference. Distinct by history."
	r.assume = []string{"a panic of the caller's own code (model or capture function) goes through to the caller"}
	r.Cases("histories", r.N(2500, 50000), func(c *Case) {
		type dm struct {
			m    *MonModel
			doc  *V
			text string
		}
		var docs []dm
		for i := 0; i < 3; i++ {
			d := randDoc(c)
			docs = append(docs, dm{NewMon(d, reprs[c.R.Intn(len(reprs))]), d, d.String()})
		}
		var texts []string
		var paths []gp.Path
		for i := 0; i < 4; i++ {
			d := docs[i%3]
			q := newGen(c.R, d.doc, allCfg()).query()
			Number(d.doc)
			texts = append(texts, style(c).path(q))
		}
		want := map[[2]int][]*V{}
		for i, d := range docs {
			for j := range texts {
				want[[2]int{i, j}] = findMonText(c, d.m, texts[j])
			}
		}
		for j := range texts {
			paths = append(paths, parse(c, texts[j]))
		}
		c.Note("queries: %q", texts)
		for i := range docs {
			c.Note("document %d: %s", i, clip(docs[i].text))
		}
		hist := ""
		verify := func(what string, i, j int, got []*V) {
			if !sameOrder(got, want[[2]int{i, j}]) {
				c.Note("history: %s", hist)
				c.Fail("%s: query %d on document %d selects %s, at first %s", what, j, i, locs(got), locs(want[[2]int{i, j}]))
			}
		}
		nonempty := 0
		search := func(i, j int, f func(k int)) []*V {
			var out []*V
			gp.Search(docs[i].m, paths[j], func(dp gp.DocPath) {
				out = append(out, docs[i].m.V(dp.Last().Node))
				if f != nil {
					f(len(out) - 1)
				}
			})
			return out
		}
		for n := 20 + c.R.Intn(30); n > 0; n-- {
			i, j := c.R.Intn(len(docs)), c.R.Intn(len(texts))
			op := c.R.Intn(9)
			hist += fmt.Sprintf("%d:%d,%d ", op, i, j)
			switch op {
			case 0, 1:
				verify("Find", i, j, justFind(c, docs[i].m, paths[j]))
			case 2:
				verify("Search", i, j, search(i, j, nil))
			case 3:
				verify("new Parse", i, j, findMonText(c, docs[i].m, texts[j]))
			case 4:
				// failed parses
				s := mutate(c.R, texts[c.R.Intn(len(texts))])
				if nestedFilters(s) <= 4 {
					gp.Parse(s)
				}
				gp.Parse("$[?(@.a ==")
				gp.Parse("$['x")
			case 5:
				// nested searches: while one is going on, others run
				i2, j2 := c.R.Intn(len(docs)), c.R.Intn(len(texts))
				verify("outer Search", i, j, search(i, j, func(k int) {
					if k < 4 {
						verify("Find in a capture function", i2, j2, findMon(c, docs[i2].m, paths[j2]))
						if k == 0 {
							verify("the same search in a capture function", i, j, search(i, j, nil))
						}
					}
				}))
			case 6:
				// the capture function panics
				at := c.R.Intn(3)
				func() {
					defer func() {
						x := recover()
						if x != nil && x != "capture panics" {
							panic(x)
						}
					}()
					search(i, j, func(k int) {
						if k == at {
							panic("capture panics")
						}
					})
				}()
				verify("Find after a panic", i, j, findMon(c, docs[i].m, paths[j]))
			case 7:
				// the document model panics
				m2 := NewMon(docs[i].doc, docs[i].m.repr)
				m2.budget = int64(1 + c.R.Intn(60))
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(budgetExceeded); !ok {
								panic(x)
							}
						}
					}()
					gp.Find(m2, paths[j])
				}()
				verify("Find after a panic of the model", i, j, findMon(c, docs[i].m, paths[j]))
			case 8:
				// make other paths of it
				gp.Append(paths[j], gp.KeySelectorPath("a"), gp.WildcardPath)
				rd := gp.RecursiveDescent(paths[j])
				gp.Append(rd, gp.WildcardPath)
				x := gp.Append(paths[j])
				verify("Append(path)", i, j, findMon(c, docs[i].m, x))
			}
			nonempty += len(want[[2]int{i, j}])
		}
		for i, d := range docs {
			if d.doc.String() != d.text {
				c.Fail("document %d has changed: %s", i, d.doc)
			}
			for j := range texts {
				verify("at the end", i, j, findMon(c, d.m, paths[j]))
			}
		}
		c.Count("results compared", nonempty)
		if nonempty > 0 {
			c.NonTrivial(fmt.Sprint(texts) + hist)
			c.Sample(map[string]any{"queries": texts, "history": hist})
		}
	})
	r.Serial("similar texts", r.N(1500, 30000), func(c *Case) {
		// Texts that differ in one place, one after the other
		names := []string{"ab", "ac", "bb", "aé", "a0"}
		doc := VArr()
		for i := 0; i < 6; i++ {
			o := VObj("i", VInt(i))
			for _, k := range names {
				if c.R.Intn(4) > 0 {
					o.Set(k, VInt(c.R.Intn(4)))
				}
			}
			doc.Items = append(doc.Items, o)
		}
		Number(doc)
		type term struct {
			name string
			op   string
			k    int
			and  bool
		}
		ts := make([]term, 1+c.R.Intn(12))
		any1 := func() term {
			return term{names[c.R.Intn(len(names))], []string{"==", "!=", ">=", "<="}[c.R.Intn(4)], c.R.Intn(4), c.R.Intn(2) == 0}
		}
		for i := range ts {
			ts[i] = any1()
		}
		pre := c.R.Intn(3)
		mk := func(ts []term, idx int) *PathQ {
			var e *Expr
			for i, t := range ts {
				x := bin(t.op, epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: t.name}}}}), eint(t.k))
				if i == 0 {
					e = x
				} else if t.and {
					e = bin("&&", e, x)
				} else {
					e = bin("||", e, x)
				}
			}
			steps := []Step{{Sel: &Sel{Kind: SFilter, Filter: e}}, {Sel: &Sel{Kind: SName, Name: names[idx]}}}
			if pre == 1 {
				steps[0].Desc = true
			}
			return &PathQ{Root: "$", Steps: steps}
		}
		type variant struct {
			text string
			want []*V
			p    gp.Path
		}
		var vs []variant
		m := NewMon(doc, "ptr")
		lens := map[int]bool{}
		for n := 3 + c.R.Intn(4); n > 0; n-- {
			us := append([]term(nil), ts...)
			u := &us[c.R.Intn(len(us))]
			x := any1()
			idx := 0
			switch c.R.Intn(5) {
			case 0:
				u.name = x.name
			case 1:
				u.op = x.op
			case 2:
				u.k = x.k
			case 3:
				u.and = x.and
			case 4:
				idx = c.R.Intn(len(names))
			}
			q := mk(us, idx)
			want, why, ok := refEval(doc, q)
			if !ok {
				c.Skip(why)
			}
			v := variant{text: (&Style{Plain: true}).path(q), want: want}
			lens[len(v.text)] = true
			v.p = parse(c, v.text)
			vs = append(vs, v)
			c.Note("query: %s", v.text)
		}
		c.Note("document: %s", doc)
		got := 0
		for n := 0; n < 3*len(vs); n++ {
			v := vs[c.R.Intn(len(vs))]
			p, what := v.p, "compiled before"
			if c.R.Intn(2) == 0 {
				p, what = parse(c, v.text), "compiled again"
			}
			res := findMon(c, m, p)
			if !sameOrder(res, v.want) {
				c.Fail("%s, %s, selects %s, expected %s", v.text, what, locs(res), locs(v.want))
			}
			got += len(res)
		}
		c.Count("similar texts", len(vs))
		if got > 0 {
			c.NonTrivial(vs[0].text + doc.String())
			c.Sample(map[string]any{"first query": vs[0].text, "texts": len(vs), "lengths": len(lens)})
		}
	})
	r.Cases("documents are not modified", r.N(12000, 200000), func(c *Case) {
		doc := randDoc(c)
		q := newGen(c.R, doc, allCfg()).query()
		text := style(c).path(q)
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		g := doc.Go(false)
		if c.R.Intn(3) == 0 {
			g = foreign(c.R, g)
			c.Count("documents with values of other Go types", 1)
		}
		var spare [][]any
		g = withSpare(g, &spare)
		before := goString(g)
		ids := containerIDs(g)
		p := parse(c, text)
		res, _ := gp.Find(gp.MapModel{Doc: g}, p)
		gp.Search(gp.MapModel{Doc: g}, p, func(gp.DocPath) {})
		if after := goString(g); after != before {
			c.Fail("the document is now %s", after)
		}
		if !reflect.DeepEqual(ids, containerIDs(g)) {
			c.Fail("the document's maps or slices were replaced")
		}
		for _, a := range spare {
			for _, x := range a[len(a):cap(a)] {
				if x != "spare" {
					c.Fail("behind the elements of a slice of the document there is now %s", goString(x))
				}
			}
		}
		c.Count("slices with room checked", len(spare))
		m := NewMon(doc, "ptr")
		m.own = make(map[*V][]string)
		gp.Find(m, p)
		gp.Search(m, p, func(gp.DocPath) {})
		if s := m.keysChanged(); s != "" {
			c.Fail("%s", s)
		}
		c.Count("lists of keys checked", len(m.own))
		// what Find returns is not shared with what it returns next
		if len(res) > 0 {
			first := goString(any(res))
			_ = first
			res2, _ := gp.Find(gp.MapModel{Doc: g}, p)
			for i := range res {
				res[i] = "overwritten"
			}
			for _, x := range res2 {
				if x == "overwritten" {
					c.Fail("the results of two calls share storage")
				}
			}
			c.NonTrivial(text + doc.String())
		}
	})
	r.Cases("native documents that change", r.N(8000, 120000), func(c *Case) {
		// The same maps and slices, with other contents
		doc := randDoc(c)
		q := newGen(c.R, doc, allCfg()).query()
		if c.R.Intn(3) == 0 {
			// something is computed of the arrays, on which the verdict depends
			doc = genDoc(c.R, DocCfg{MaxDepth: 3, MaxWidth: 5, Budget: 40, Typed: true})
			q = placeFilter(c, func(g *gen, sc scope) *Expr {
				arr := g.relPath(sc, func(v *V) bool { return v.Kind == KArr })
				switch c.R.Intn(4) {
				case 0:
					return bin("in", g.literal(sc), epath(arr))
				case 1:
					return epath(&PathQ{Root: arr.Root, Steps: append(arr.Steps[:len(arr.Steps):len(arr.Steps)], Step{Sel: &Sel{Kind: SIndex, Index: -1 - c.R.Intn(2)}})})
				}
				l := &Expr{Kind: ELen, Path: arr, Method: c.R.Intn(2) == 0}
				return bin([]string{"==", "<", ">=", "!="}[c.R.Intn(4)], l, eint(c.R.Intn(4)))
			}, doc)
		}
		text := style(c).path(q)
		p := parse(c, text)
		c.Note("query: %s", text)
		g := doc.Go(false)
		changed := false
		for k := 0; k < 5; k++ {
			all := Number(doc)
			if want, why, ok := refEval(doc, q); ok {
				var got, exp []string
				res, err := gp.Find(gp.MapModel{Doc: g}, p)
				if err != nil {
					c.Fail("Find: %v", err)
				}
				for _, x := range res {
					got = append(got, goString(x))
				}
				for _, x := range want {
					exp = append(exp, goString(x.Go(false)))
				}
				sort.Strings(got)
				sort.Strings(exp)
				if strings.Join(got, "\x00") != strings.Join(exp, "\x00") {
					c.Note("document after %d changes: %s", k, clip(doc.String()))
					c.Fail("selected %s, expected %s", clip(strings.Join(got, " ")), clip(strings.Join(exp, " ")))
				}
				if k > 0 && len(want) > 0 {
					changed = true
				}
			} else {
				c.Count("skipped: "+why, 1)
			}
			if c.R.Intn(4) == 0 {
				// a search that does not come to its end
				func() {
					defer func() { recover() }()
					gp.Search(gp.MapModel{Doc: g}, p, func(gp.DocPath) { panic("enough") })
				}()
			}
			for n := 1 + c.R.Intn(3); n > 0; n-- {
				n := all[c.R.Intn(len(all))]
				for i := 0; i < 3 && !n.isContainer(); i++ {
					n = all[c.R.Intn(len(all))]
				}
				switch x := c.R.Intn(4); {
				case len(n.Items) == 0:
					if !n.isContainer() {
						*n = *genScalar(c.R)
					}
				case x == 0 && n.Kind == KObj:
					// another key for the same value
					i, k := c.R.Intn(len(n.Keys)), plainKeys[c.R.Intn(len(plainKeys))]
					if n.Get(k) == nil {
						n.Keys[i] = k
					}
				case x == 1:
					// swapped
					i, j := c.R.Intn(len(n.Items)), c.R.Intn(len(n.Items))
					n.Items[i], n.Items[j] = n.Items[j], n.Items[i]
				case x == 2:
					// one less
					n.Items = n.Items[:len(n.Items)-1]
					if n.Kind == KObj {
						n.Keys = n.Keys[:len(n.Items)]
					}
				default:
					n.Items[c.R.Intn(len(n.Items))] = genScalar(c.R)
				}
				all = Number(doc)
			}
			g = updated(g, doc)
		}
		if changed {
			c.NonTrivial(text + doc.String())
		}
	})
	r.Cases("documents that change", r.N(8000, 120000), func(c *Case) {
		// A compiled path sees the document as it is
		doc := randDoc(c)
		g := newGen(c.R, doc, allCfg())
		q := g.query()
		text := style(c).path(q)
		p := parse(c, text)
		m := NewMon(doc, []string{"ptr", "int"}[c.R.Intn(2)])
		c.Note("query: %s", text)
		changed := false
		for k := 0; k < 4; k++ {
			m.nodes = Number(doc)
			want, why, ok := refEval(doc, q)
			if ok {
				got := findMon(c, m, p)
				if !sameBag(got, want) {
					c.Note("document after %d changes: %s", k, doc)
					c.Note("expected: %s", locs(want))
					c.Fail("selected: %s", locs(got))
				}
				if k > 0 && len(want) > 0 {
					changed = true
				}
			} else {
				c.Count("skipped: "+why, 1)
			}
			// change something
			n := m.nodes[c.R.Intn(len(m.nodes))]
			switch {
			case n.Kind == KArr && c.R.Intn(2) == 0:
				n.Items = append(n.Items, genScalar(c.R))
			case n.Kind == KArr && len(n.Items) > 0:
				n.Items = n.Items[:len(n.Items)-1]
			case n.Kind == KObj && c.R.Intn(2) == 0:
				n.Set(plainKeys[c.R.Intn(len(plainKeys))], genScalar(c.R))
			case n.Kind == KObj && len(n.Items) > 0:
				n.Items = n.Items[:len(n.Items)-1]
				n.Keys = n.Keys[:len(n.Keys)-1]
			default:
				*n = *genScalar(c.R)
			}
		}
		if changed {
			c.NonTrivial(text + doc.String())
		}
	})
}

// foreign replaces some of the values by values of other Go types
func foreign(r *rand.Rand, x any) any {
	switch v := x.(type) {
	case map[string]any:
		for k, y := range v {
			v[k] = foreign(r, y)
		}
		return v
	case []any:
		for i, y := range v {
			v[i] = foreign(r, y)
		}
		return v
	case int:
		return []any{x, x, int64(v), int32(v), uint(v), float32(v), json.Number(strconv.Itoa(v)), uint8(v), int8(v)}[r.Intn(9)]
	case float64:
		return []any{x, x, float32(v), json.Number(fmt.Sprint(v))}[r.Intn(4)]
	case string:
		return []any{x, x, []byte(v), []string{v, "b"}, map[string]string{v: v}, json.RawMessage(v), []map[string]any{{v: v}}, []rune(v)}[r.Intn(8)]
	}
	if r.Intn(4) == 0 {
		return []any{[]int{2, 1}, map[string]int{"a": 1}, map[any]any{"a": 1}, &[]any{1}, struct{ A []int }{[]int{1}}}[r.Intn(5)]
	}
	return x
}

// withSpare gives slices room for more elements, where something is already
func withSpare(x any, spare *[][]any) any {
	switch v := x.(type) {
	case map[string]any:
		for k, y := range v {
			v[k] = withSpare(y, spare)
		}
	case []any:
		a := make([]any, 0, len(v)+2)
		for _, y := range v {
			a = append(a, withSpare(y, spare))
		}
		for i := len(v); i < cap(a); i++ {
			a[:cap(a)][i] = "spare"
		}
		*spare = append(*spare, a)
		return a
	}
	return x
}

// updated makes a Go value present v, with the same maps and slices as far
// as possible
func updated(x any, v *V) any {
	switch o := x.(type) {
	case map[string]any:
		if v.Kind != KObj {
			break
		}
		for k := range o {
			if v.Get(k) == nil {
				delete(o, k)
			}
		}
		for i, k := range v.Keys {
			o[k] = updated(o[k], v.Items[i])
		}
		return o
	case []any:
		if v.Kind != KArr {
			break
		}
		for i, y := range v.Items {
			if i < len(o) {
				o[i] = updated(o[i], y)
			} else {
				o = append(o, y.Go(false))
			}
		}
		return o[:len(v.Items)]
	}
	return v.Go(false)
}

func containerIDs(x any) (out []uintptr) {
	switch v := x.(type) {
	case map[string]any:
		out = append(out, reflect.ValueOf(v).Pointer())
		ks := make([]string, 0)
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, containerIDs(v[k])...)
		}
	case []any:
		out = append(out, reflect.ValueOf(v).Pointer())
		for _, y := range v {
			out = append(out, containerIDs(y)...)
		}
	}
	return
}

// ---- C25

func checkC25(r *Run) {
	r.rule = "Case k: a valid, mutated or random query that Parse accepts, run by Find and Search on a document model that checks every call: the argument is a node this model returned, Key and Keys are called for object nodes, Elem for array nodes with 0 <= index < Len, Len for objects and arrays, Value for value nodes. Evidence counts the observed calls by method. Non-trivial if Len, Key, Elem or Value was called; distinct by (query, document)."
	r.assume = []string{"the contract is the one in the comments of DocModel"}
	body := func(c *Case, s string, doc *V) {
		if nestedFilters(s) > 4 {
			c.Skip("beyond the bounds")
		}
		p, err := gp.Parse(s)
		if err != nil {
			c.Count("rejected", 1)
			return
		}
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %q", clip(s))
		m := NewMon(doc, reprs[c.R.Intn(len(reprs))])
		check := func() {
			if len(m.breach) > 0 {
				c.Fail("%s", strings.Join(m.breach, "; "))
			}
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					check()
					panic(x)
				}
			}()
			gp.Find(m, p)
			gp.Search(m, p, func(gp.DocPath) {})
			if c.R.Intn(3) == 0 {
				gp.ParseAndFind(m, s)
			}
		}()
		check()
		for i, n := range m.calls {
			if n > 0 {
				c.Count(callNames[i]+" calls", int(n))
			}
		}
		if m.calls[2]+m.calls[3]+m.calls[5]+m.calls[6] > 0 {
			c.NonTrivial(s + doc.String())
			if c.N < 100 {
				c.Sample(map[string]any{"query": s, "document": clip(doc.String()), "calls": fmt.Sprint(m.calls)})
			}
		}
	}
	r.Cases("queries", r.N(24000, 900000), func(c *Case) {
		doc := randDoc(c)
		q := newGen(c.R, doc, allCfg()).query()
		body(c, style(c).path(q), doc)
	})
	r.Cases("large", r.N(2500, 60000), func(c *Case) {
		doc := bigDoc(c)
		body(c, style(c).path(bigQuery(c, doc)), doc)
	})
	r.Cases("mismatched", r.N(20000, 400000), func(c *Case) {
		// the query was made for another document
		q := newGen(c.R, randDoc(c), allCfg()).query()
		body(c, style(c).path(q), randDoc(c))
	})
	r.Cases("hostile", r.N(16000, 500000), func(c *Case) {
		s := hostile(c.R)
		if c.R.Intn(2) == 0 {
			s = derive(c.R, 0)
		}
		body(c, s, randDoc(c))
	})
	r.Cases("bounds", r.N(10000, 200000), func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 3, MaxWidth: 5, Budget: 40})
		q := newGen(c.R, doc, QCfg{MaxSteps: 3, Desc: 20, Name: 1, Wild: 2, Index: 6, Slice: 8, Union: 4, DotNum: 1, BigSlices: true}).query()
		body(c, style(c).path(q), doc)
	})
}

// ---- C26

func checkC26(r *Run) {
	r.rule = "Case k: one document behind eight document models: pointer nodes, pointer nodes of which one (as a rule the root) is nil, integer nodes, string nodes, struct nodes that cannot be compared and are new on every call, nodes that look like maps, slices and numbers with another content, MapModel, and a model that has the members of objects in the opposite order. Find has to select the same nodes on all (by location, in order for all but the last two). Part shared nodes: documents with equal parts in several places, behind a model in which equal nodes are one node, and as Go maps and slices that are used in several places; Search has to capture the same locations as with a node for every place. Non-trivial if nodes are selected; distinct by (query, document)."
	r.assume = []string{"object and array nodes of a model need not be comparable, nor be the same value on every call"}
	models := func(c *Case, doc *V, q *PathQ) {
		text := style(c).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		p := parse(c, text)
		base := findMon(c, NewMon(doc, "ptr"), p)
		for _, repr := range reprs[1:] {
			if got := findMon(c, NewMon(doc, repr), p); !sameOrder(got, base) {
				c.Fail("pointer nodes: %s, %s nodes: %s", locs(base), repr, locs(got))
			}
		}
		bag := func(s []string) string { sort.Strings(s); return strings.Join(s, " ") }
		want := []string{}
		for _, v := range base {
			want = append(want, v.Loc())
		}
		var got []string
		mm := gp.MapModel{Doc: doc.Go(false)}
		if err := gp.Search(mm, p, func(dp gp.DocPath) { got = append(got, locOf(dp)) }); err != nil {
			c.Fail("Search: %v", err)
		}
		if a, b := bag(want), bag(got); a != b {
			c.Fail("pointer nodes: %s, MapModel: %s", a, b)
		}
		rev := reversed(doc)
		Number(rev)
		got = nil
		for _, v := range findMon(c, NewMon(rev, "ptr"), p) {
			got = append(got, v.Loc())
		}
		if a, b := bag(want), bag(got); a != b {
			c.Fail("one order of keys: %s, the opposite order: %s", a, b)
		}
		c.Count("models compared", 7)
		c.Count("nodes selected", len(base))
		if len(base) > 0 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": clip(text), "document": clip(doc.String()), "selected": clip(locs(base))})
		}
	}
	r.Cases("random", r.N(30000, 600000), func(c *Case) {
		doc := randDoc(c)
		models(c, doc, newGen(c.R, doc, allCfg()).query())
	})
	r.Cases("large", r.N(1500, 40000), func(c *Case) {
		doc := bigDoc(c)
		models(c, doc, bigQuery(c, doc))
	})
	r.Cases("shared nodes", r.N(12000, 300000), func(c *Case) {
		var doc *V
		var q *PathQ
		if c.R.Intn(10) == 0 {
			doc = graft(c.R, bigDoc(c))
			q = bigQuery(c, doc)
		} else {
			doc = graft(c.R, randDoc(c))
			q = newGen(c.R, doc, allCfg()).query()
		}
		text := style(c).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		p := parse(c, text)
		Number(doc)
		base := findMon(c, NewMon(doc, "ptr"), p)
		want := []string{}
		for _, v := range base {
			want = append(want, v.Loc())
		}
		table := make(map[string]*V)
		one := interned(doc, table)
		var got []string
		capture := func(dp gp.DocPath) { got = append(got, locOf(dp)) }
		if err := gp.Search(internModel{one}, p, capture); err != nil {
			c.Fail("Search: %v", err)
		}
		if a, b := strings.Join(want, " "), strings.Join(got, " "); a != b {
			c.Fail("a node for every place: %s; equal nodes are one node: %s", a, b)
		}
		got = nil
		if err := gp.Search(gp.MapModel{Doc: sharedGo(one, make(map[*V]any))}, p, capture); err != nil {
			c.Fail("Search: %v", err)
		}
		sort.Strings(want)
		sort.Strings(got)
		if a, b := strings.Join(want, " "), strings.Join(got, " "); a != b {
			c.Fail("a node for every place: %s; equal maps and slices are one: %s", a, b)
		}
		c.Count("models compared", 3)
		c.Count("nodes selected", len(base))
		c.Count("places that share a node with another", doc.size()-len(table))
		if len(base) > 0 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": text, "document": clip(doc.String()), "selected": clip(locs(base)), "distinct nodes": len(table), "places": doc.size()})
		}
	})
}

// graft puts copies of some containers of the document in other places
func graft(r *rand.Rand, doc *V) *V {
	all := Number(doc)
	var cont, slots []*V
	for _, v := range all {
		if v.isContainer() && len(v.Items) > 0 {
			slots = append(slots, v)
			if v != doc && v.size() <= 12 {
				cont = append(cont, v)
			}
		}
	}
	if len(cont) == 0 {
		x := VObj("a", VInt(1), "b", VArr(VInt(1), VObj("a", VNull())))
		return VObj("a", x, "b", doc, "c", VArr(x.copy(), x.copy()))
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		x := cont[r.Intn(len(cont))].copy()
		s := slots[r.Intn(len(slots))]
		if s.Kind == KArr && r.Intn(2) == 0 {
			s.Items = append(s.Items, x)
		} else {
			s.Items[r.Intn(len(s.Items))] = x
		}
	}
	return doc
}

func (v *V) size() int {
	n := 1
	for _, c := range v.Items {
		n += c.size()
	}
	return n
}

func (v *V) copy() *V {
	w := *v
	w.Keys = append([]string(nil), v.Keys...)
	w.Items = make([]*V, len(v.Items))
	for i, c := range v.Items {
		w.Items[i] = c.copy()
	}
	return &w
}

// interned is the document with equal nodes being one node
func interned(v *V, table map[string]*V) *V {
	w := *v
	w.Items = make([]*V, len(v.Items))
	for i, c := range v.Items {
		w.Items[i] = interned(c, table)
	}
	k := w.String()
	if x, ok := table[k]; ok {
		return x
	}
	table[k] = &w
	return &w
}

// sharedGo is v as nested Go maps and slices, with a map or slice that
// stands for a node of v used wherever the node is
func sharedGo(v *V, memo map[*V]any) any {
	if !v.isContainer() {
		return v.Go(false)
	}
	if x, ok := memo[v]; ok {
		return x
	}
	var ret any
	if v.Kind == KArr {
		a := make([]any, len(v.Items))
		for i, c := range v.Items {
			a[i] = sharedGo(c, memo)
		}
		ret = a
	} else {
		o := make(map[string]any)
		for i, c := range v.Items {
			o[v.Keys[i]] = sharedGo(c, memo)
		}
		ret = o
	}
	memo[v] = ret
	return ret
}

// internModel is a document whose equal nodes are one node
type internModel struct{ root *V }

func (m internModel) Root() any              { return m.root }
func (m internModel) Type(n any) gp.NodeType { return nodeType(n.(*V)) }
func (m internModel) Len(n any) int          { return len(n.(*V).Items) }
func (m internModel) Keys(n any) []string    { return append([]string(nil), n.(*V).Keys...) }
func (m internModel) Elem(n any, i int) any  { return n.(*V).Items[i] }
func (m internModel) Value(n any) any        { return n.(*V).Go(false) }
func (m internModel) Key(n any, k string) (any, bool) {
	if x := n.(*V).Get(k); x != nil {
		return x, true
	}
	return nil, false
}

func reversed(v *V) *V {
	w := *v
	w.Items = make([]*V, len(v.Items))
	for i, x := range v.Items {
		w.Items[i] = reversed(x)
	}
	if v.Kind == KObj {
		w.Keys = append([]string(nil), v.Keys...)
		for i, j := 0, len(w.Keys)-1; i < j; i, j = i+1, j-1 {
			w.Keys[i], w.Keys[j] = w.Keys[j], w.Keys[i]
			w.Items[i], w.Items[j] = w.Items[j], w.Items[i]
		}
	}
	return &w
}

// locOf is the location a captured path spells
func locOf(dp gp.DocPath) string {
	s := "$"
	for i, x := range dp.P {
		if i == 0 {
			continue
		}
		if dp.P[i-1].Type == gp.ObjectNode {
			s += "[" + quoteJSON(x.Name) + "]"
		} else {
			s += fmt.Sprintf("[%d]", x.Index)
		}
	}
	return s
}

// ---- C27

func goTree(r *rand.Rand, d int) any {
	if d > 0 && r.Intn(3) > 0 {
		n := r.Intn(5)
		if r.Intn(2) == 0 {
			if r.Intn(12) == 0 {
				return []any(nil)
			}
			a := make([]any, 0, n+r.Intn(3))
			for i := 0; i < n; i++ {
				a = append(a, goTree(r, d-1))
			}
			return a
		}
		if r.Intn(12) == 0 {
			return map[string]any(nil)
		}
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[keyFor(r)] = goTree(r, d-1)
		}
		return m
	}
	leaves := []any{nil, true, false, 0, 1, -5, 1.5, 0.0, "", "x", json.Number("12"), int64(7), uint8(3), float32(1.5), []string{"a", "b"}, map[string]string{"a": "b"}, map[string]int{}, struct{ A int }{1}, []byte("x"), errors.New("e"), map[any]any{"a": 1}, [2]int{1, 2}}
	return leaves[r.Intn(len(leaves))]
}

func checkC27(r *Run) {
	r.rule = "Case k: a random tree of Go values (maps, slices, nil maps and slices, null members, values of other Go types) in MapModel. Every node is compared with the tree: Root, Type, Len, Keys (each key once), Key (present, also if null, and absent), Elem and Value, and Find with $..* returns the very maps and slices of the document. Distinct by document; non-trivial if it has five or more nodes."
	r.assume = []string{"values that are neither map[string]any nor []any are value nodes"}
	r.Cases("trees", r.N(25000, 500000), func(c *Case) {
		root := goTree(c.R, 1+c.R.Intn(4))
		if c.R.Intn(100) == 0 {
			// many members or elements
			n := 20 + c.R.Intn(300)
			o, a := map[string]any{}, []any{}
			for i := 0; i < n; i++ {
				o[keyFor(c.R)+strconv.Itoa(i)] = goTree(c.R, 0)
				a = append(a, goTree(c.R, 0))
			}
			root = []any{map[string]any{"o": o, "a": a}, []any{a, root}, map[string]any{"r": root, "o": o}}[c.R.Intn(3)]
		}
		m := gp.MapModel{Doc: root}
		c.Note("document: %s", clip(fmt.Sprintf("%#v", root)))
		same := func(a, b any) bool {
			switch x := a.(type) {
			case map[string]any:
				y, ok := b.(map[string]any)
				return ok && reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer()
			case []any:
				y, ok := b.([]any)
				return ok && len(x) == len(y) && reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer()
			}
			return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(a, b)
		}
		if !same(m.Root(), root) {
			c.Fail("Root is %#v", m.Root())
		}
		nodes := 0
		var below []any
		var walk func(x any)
		walk = func(x any) {
			nodes++
			switch v := x.(type) {
			case map[string]any:
				if t := m.Type(x); t != gp.ObjectNode {
					c.Fail("Type(%#v) is %d", x, t)
				}
				if n := m.Len(x); n != len(v) {
					c.Fail("Len(%#v) is %d", x, n)
				}
				ks := append([]string{}, m.Keys(x)...)
				if len(ks) != len(v) {
					c.Fail("Keys(%#v) is %q", x, ks)
				}
				seen := map[string]bool{}
				for _, k := range ks {
					if _, ok := v[k]; !ok || seen[k] {
						c.Fail("Keys(%#v) is %q", x, ks)
					}
					seen[k] = true
				}
				for k, y := range v {
					z, ok := m.Key(x, k)
					if !ok || !same(y, z) {
						c.Fail("Key(%#v, %q) is %#v, %v", x, k, z, ok)
					}
					below = append(below, y)
					walk(y)
				}
				for _, k := range []string{keyFor(c.R), "missing key", ""} {
					if _, has := v[k]; !has {
						if z, ok := m.Key(x, k); ok {
							c.Fail("Key(%#v, %q) is %#v, %v", x, k, z, ok)
						}
					}
				}
			case []any:
				if t := m.Type(x); t != gp.ArrayNode {
					c.Fail("Type(%#v) is %d", x, t)
				}
				if n := m.Len(x); n != len(v) {
					c.Fail("Len(%#v) is %d", x, n)
				}
				for i, y := range v {
					if z := m.Elem(x, i); !same(y, z) {
						c.Fail("Elem(%#v, %d) is %#v", x, i, z)
					}
					below = append(below, y)
					walk(y)
				}
				if _, ok := m.Key(x, "0"); ok {
					c.Fail("Key of an array")
				}
			default:
				if t := m.Type(x); t != gp.ValueNode {
					c.Fail("Type(%#v) is %d", x, t)
				}
				if z := m.Value(x); !same(x, z) {
					c.Fail("Value(%#v) is %#v", x, z)
				}
				if _, ok := m.Key(x, "a"); ok {
					c.Fail("Key of a value")
				}
			}
		}
		walk(root)
		res, err := gp.ParseAndFind(m, "$..*")
		if err != nil || len(res) != len(below) {
			c.Fail("$..* selects %d nodes of %d, %v", len(res), len(below), err)
		}
		used := make([]bool, len(below))
	next:
		for _, x := range res {
			for i, y := range below {
				if !used[i] && same(x, y) {
					used[i] = true
					continue next
				}
			}
			c.Fail("$..* selects %#v, which is not in the document", x)
		}
		if res, err := gp.ParseAndFind(m, "$"); err != nil || len(res) != 1 || !same(res[0], root) {
			c.Fail("$ selects %#v, %v", res, err)
		}
		c.Count("nodes compared", nodes)
		if nodes >= 5 {
			c.NonTrivial(fmt.Sprintf("%#v", root))
			c.Sample(clip(fmt.Sprintf("%#v", root)))
		}
	})
}
