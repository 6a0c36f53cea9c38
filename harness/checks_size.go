package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"

	gp "github.com/bserdar/gojsonpath"
)

func init() {
	register("C28", "bounded work", checkC28)
	register("C29", "size independence", checkC29)
}

// ---- C28

// What evaluation may cost, per node that has to be looked at. The current
// tree needs less than 4 model calls and 600 bytes per node; the bound
// leaves room for implementations that look at nodes several times, but
// not for one whose cost grows faster than the number of nodes.
const (
	callsPerNode  = 16
	callsBase     = 150
	bytesPerNode  = 8000
	bytesBase     = 40000
	bytesPerLevel = 200 // of the document, per node
	cpuLimit      = 6   // seconds, for a compilation that takes milliseconds
)

var maxRatio atomic.Int64

func checkC28(r *Run) {
	r.rule = "Part model calls: a query with a document of up to several thousand nodes, deep, wide or bushy; the monitored model counts every call, and the count has to stay below a fixed multiple of the number of nodes the reference evaluator has to look at (children of every node a step is applied to, once per alternative of a union, and the values used in filters). Part long filters: the same for chains and trees of operators; part nested filters: for filters in filters, up to 7 deep. Part nested operators: the same for each form of expression nested in itself, 10 to 21 deep, and for costly operands. Part constructed paths: the same for paths that are put together from keys, indexes and wildcards. Part allocations: the same for bytes allocated by Find (where a copy of the path is allowed per node). Part compile: CPU time (limit 6 s, where milliseconds are needed) and heap allocations of the first Parse of a process, for texts of a family (long paths, unions, operator chains, nesting, also malformed), at sizes n and 2n; allocations may grow by a factor of at most 32. Part compile random: the same limit for random queries. Non-trivial: more than 200 nodes looked at, or a text of more than 20 characters."
	r.assume = []string{"work is counted in calls to the document model and in allocations, not in time", "the bound is generous (the current tree needs a small fraction of it): it separates growth laws, not constant factors"}
	big := func(c *Case) *V {
		switch c.R.Intn(6) {
		case 0:
			return deepDoc(c.R, 50+c.R.Intn(400), 2)
		case 1:
			return wideDoc(c.R, 200+c.R.Intn(1500))
		case 2:
			return genRecords(c.R, 50+c.R.Intn(200))
		}
		return genDoc(c.R, DocCfg{MaxDepth: 4 + c.R.Intn(6), MaxWidth: 3 + c.R.Intn(8), Budget: 200 + c.R.Intn(2000), Typed: c.R.Intn(2) == 0})
	}
	one := func(c *Case, doc *V, q *PathQ, path *gp.Path) {
		text := (&Style{Plain: true}).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		_, work, why, ok := refEvalWork(doc, q)
		if !ok {
			c.Skip(why)
		}
		m := NewMon(doc, "ptr")
		m.budget = int64(callsPerNode*work + callsBase)
		var p gp.Path
		if path == nil {
			p = parse(c, text)
		} else {
			p = *path
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(budgetExceeded); is {
						c.Fail("more than %d calls to the document model, for a query that has to look at %d nodes", m.budget, work)
					}
					panic(x)
				}
			}()
			gp.Find(m, p)
		}()
		if rt := m.total * 1000 / int64(work+10); rt > maxRatio.Load() {
			maxRatio.Store(rt)
		}
		c.Count("model calls observed", int(m.total))
		c.Count("nodes to look at", work)
		if work > 200 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": clip(text), "nodes to look at": work, "model calls": m.total, "bound": m.budget})
		}
	}
	r.Cases("model calls", r.N(3000, 150000), func(c *Case) {
		doc := big(c)
		cfg := allCfg()
		cfg.MaxDesc = 2
		cfg.EDepth = 2
		cfg.BigSlices = true
		switch c.R.Intn(3) {
		case 0:
			cfg.Filter = 0
		case 1:
			cfg.Filter, cfg.FDepth = 12, 3
		}
		one(c, doc, newGen(c.R, doc, cfg).query(), nil)
	})
	r.Cases("model calls, long filters", r.N(1200, 40000), func(c *Case) {
		// chains and trees of operators over the children of a small array
		doc := genRecords(c.R, 3+c.R.Intn(4))
		items := doc
		if x := doc.Get("items"); doc.Kind == KObj && x != nil {
			items = x
		}
		Number(doc)
		g := newGen(c.R, doc, QCfg{MaxSteps: 2, Name: 4, Index: 2, Wild: 1, Slice: 1, Desc: 5, MaxDesc: 1})
		sc := scope{items.Items, 0}
		n := 0
		class := c.R.Intn(6)
		op := func() string {
			switch class {
			case 0:
				return "&&"
			case 1:
				return "||"
			case 2:
				return []string{"&&", "||"}[c.R.Intn(2)]
			case 3:
				return []string{"+", "-", "*", "/", "%"}[c.R.Intn(5)]
			case 4:
				return []string{"==", "!=", "===", "!==", "<", ">", "<=", ">=", "in"}[c.R.Intn(9)]
			}
			return []string{"**", "+", "&&", "==", "<"}[c.R.Intn(5)]
		}
		leaf := func() *Expr {
			n++
			var e *Expr
			switch c.R.Intn(5) {
			case 0:
				e = g.literal(sc)
			default:
				e = epath(g.relPath(sc, nil))
			}
			if k := c.R.Intn(40); k < 12 {
				for ; k > 0; k-- {
					e = un([]string{"!", "-"}[c.R.Intn(2)], e)
				}
			}
			return e
		}
		var e *Expr
		switch c.R.Intn(3) {
		case 0: // to the left
			e = leaf()
			for k := 8 + c.R.Intn(24); k > 0; k-- {
				if o := op(); o == "in" {
					e = bin("in", e, &Expr{Kind: EArr, Elems: []*Expr{leaf(), leaf()}})
				} else {
					e = bin(o, e, leaf())
				}
			}
		case 1: // to the right, in parentheses
			e = leaf()
			for k := 4 + c.R.Intn(10); k > 0; k-- {
				if o := op(); o == "in" {
					e = bin("in", leaf(), &Expr{Kind: EArr, Elems: []*Expr{e, leaf()}})
				} else {
					e = bin(o, leaf(), e)
				}
			}
		default:
			var tree func(d int) *Expr
			tree = func(d int) *Expr {
				if d == 0 {
					return leaf()
				}
				if o := op(); o != "in" {
					return bin(o, tree(d-1), tree(d-1))
				}
				return bin("in", tree(d-1), &Expr{Kind: EArr, Elems: []*Expr{tree(d - 1)}})
			}
			e = tree(2 + c.R.Intn(3))
		}
		q := &PathQ{Root: "$", Steps: append(pathTo(items), Step{Sel: &Sel{Kind: SFilter, Filter: e}})}
		one(c, doc, q, nil)
	})
	r.Cases("model calls, nested filters", r.N(600, 20000), func(c *Case) {
		// filters in filters: what is repeated once per level shows
		depth := 3 + c.R.Intn(4)
		keys := []string{"a", "b", "list"}
		var names []string
		for i := 0; i <= depth; i++ {
			names = append(names, keys[c.R.Intn(3)])
		}
		var mk func(d int) *V
		mk = func(d int) *V {
			a := VArr()
			n := 1 + c.R.Intn(12)/10
			if d == depth {
				n = 5 + c.R.Intn(20)
			}
			for i := 0; i < n; i++ {
				if d == depth {
					a.Items = append(a.Items, genScalar(c.R))
				} else {
					a.Items = append(a.Items, mk(d+1))
				}
			}
			o := VObj(names[d], a)
			if c.R.Intn(3) == 0 {
				o.Set("v", genScalar(c.R))
			}
			return o
		}
		doc := mk(0)
		Number(doc)
		leaves := []*Expr{
			epath(&PathQ{Root: "@"}),
			bin("==", epath(&PathQ{Root: "@"}), eint(1)),
			bin("<", epath(&PathQ{Root: "@"}), eint(3)),
		}
		shape := c.R.Intn(6)
		e := leaves[c.R.Intn(3)]
		var q *PathQ
		for i := depth; i >= 0; i-- {
			q = &PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: names[i]}}, {Sel: &Sel{Kind: SFilter, Filter: e}}}}
			form := shape
			if shape == 5 {
				form = c.R.Intn(5)
			}
			switch form {
			case 0:
				e = un("!", un("!", epath(q)))
			case 1:
				e = bin("!=", eint(1), epath(q))
			case 2:
				e = bin("&&", &Expr{Kind: EBool, B: true}, epath(q))
			case 3:
				e = bin("in", epath(q), &Expr{Kind: EArr, Elems: []*Expr{eint(1), eint(2)}})
				if c.R.Intn(2) == 0 {
					e = un("!", e)
				}
			default:
				e = epath(q)
			}
		}
		q.Root = "$"
		one(c, doc, q, nil)
	})
	r.Cases("model calls, nested operators", r.N(1000, 30000), func(c *Case) {
		// one form of expression in itself, with values that keep every
		// operand needed: what is evaluated twice per level shows
		list := VArr()
		for n := 60 + c.R.Intn(60); n > 0; n-- {
			list.Items = append(list.Items, VInt(1+c.R.Intn(4)))
		}
		doc := VObj("x", VArr(VObj("a", VInt(1+c.R.Intn(5))), VObj("a", VFloat(1.5))), "list", list)
		Number(doc)
		at := func(root string, names ...string) *Expr {
			q := &PathQ{Root: root}
			for _, n := range names {
				q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SName, Name: n}})
			}
			return epath(q)
		}
		leaf := func() *Expr { return at("@", "a") }
		arr := func(es ...*Expr) *Expr { return &Expr{Kind: EArr, Elems: es} }
		forms := []func(e *Expr) *Expr{
			func(e *Expr) *Expr { return bin("+", bin("%", eint(9), e), eint(5)) },
			func(e *Expr) *Expr { return bin("+", bin("%", e, eint(9)), eint(5)) },
			func(e *Expr) *Expr { return bin("+", bin("/", eint(900), e), eint(3)) },
			func(e *Expr) *Expr { return bin("+", bin("/", e, eint(2)), eint(3)) },
			func(e *Expr) *Expr { return bin("-", eint(7), e) },
			func(e *Expr) *Expr { return bin("-", e, leaf()) },
			func(e *Expr) *Expr { return bin("*", eint(-1), e) },
			func(e *Expr) *Expr { return bin("*", e, eint(1)) },
			func(e *Expr) *Expr { return bin("**", e, eint(1)) },
			func(e *Expr) *Expr { return bin("+", bin("**", eint(1), e), leaf()) },
			func(e *Expr) *Expr { return un("-", e) },
			func(e *Expr) *Expr { return un("+", e) },
			func(e *Expr) *Expr { return un("!", e) },
			func(e *Expr) *Expr { return bin("&&", e, leaf()) },
			func(e *Expr) *Expr { return bin("&&", leaf(), e) },
			func(e *Expr) *Expr { return bin("||", un("!", e), leaf()) },
			func(e *Expr) *Expr { return bin("||", &Expr{Kind: EBool}, e) },
			func(e *Expr) *Expr { return bin("<", e, eint(100)) },
			func(e *Expr) *Expr { return bin(">=", eint(100), e) },
			func(e *Expr) *Expr { return bin("==", eint(1), e) },
			func(e *Expr) *Expr { return bin("!=", e, eint(77)) },
			func(e *Expr) *Expr { return bin("===", e, leaf()) },
			func(e *Expr) *Expr { return bin("!==", leaf(), e) },
			func(e *Expr) *Expr { return bin("in", e, arr(eint(1), leaf(), eint(2))) },
			func(e *Expr) *Expr { return bin("in", leaf(), arr(eint(-1), e, eint(2))) },
			func(e *Expr) *Expr { return bin("in", e, at("$", "list")) },
		}
		one1 := forms[c.R.Intn(len(forms))]
		two := forms[c.R.Intn(len(forms))]
		shape := c.R.Intn(3)
		e := leaf()
		if c.R.Intn(4) == 0 {
			// a few levels, but costly
			e = epath(&PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "list"}}, {Sel: &Sel{Kind: SFilter, Filter: bin("==", epath(&PathQ{Root: "@"}), eint(-1))}}}})
			for d := 1 + c.R.Intn(3); d > 0; d-- {
				e = one1(e)
			}
		} else {
			for d := 10 + c.R.Intn(12); d > 0; d-- {
				switch {
				case shape == 1 && d%2 == 0:
					e = two(e)
				case shape == 2:
					e = forms[c.R.Intn(len(forms))](e)
				default:
					e = one1(e)
				}
			}
		}
		one(c, doc, &PathQ{Root: "$", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "x"}}, {Sel: &Sel{Kind: SFilter, Filter: e}}}}, nil)
	})
	r.Cases("model calls, constructed paths", r.N(1500, 40000), func(c *Case) {
		doc := big(c)
		all := Number(doc)
		to := all[c.R.Intn(len(all))]
		if c.R.Intn(2) == 0 {
			// below something wide
			for _, v := range all {
				if len(v.Items) > len(to.Items) {
					to = v
				}
			}
		}
		q := &PathQ{Root: "$", Steps: pathTo(to)}
		last := &Sel{Kind: SIndex, Index: c.R.Intn(len(to.Items)+2) - c.R.Intn(len(to.Items)+3)}
		if c.R.Intn(4) == 0 {
			last.Index = []int{len(to.Items), len(to.Items) + 3, -len(to.Items) - 1, 1 << 40}[c.R.Intn(4)]
		}
		if c.R.Intn(3) == 0 {
			last = &Sel{Kind: SName, Name: []string{"a", "k1", "none"}[c.R.Intn(3)]}
		}
		q.Steps = append(q.Steps, Step{Sel: last})
		if c.R.Intn(4) == 0 {
			q.Steps[c.R.Intn(len(q.Steps))].Sel = &Sel{Kind: SWild}
		}
		p := gp.SelectRootPath
		for _, st := range q.Steps {
			switch st.Sel.Kind {
			case SWild:
				p = gp.Append(p, gp.WildcardPath)
			case SIndex:
				p = gp.Append(p, gp.IndexSelectorPath(st.Sel.Index))
			default:
				p = gp.Append(p, gp.KeySelectorPath(st.Sel.Name))
			}
		}
		one(c, doc, q, &p)
		// the same as a simple path, where a name on an array is an index
		var b strings.Builder
		for _, st := range q.Steps {
			b.WriteByte('/')
			switch st.Sel.Kind {
			case SWild:
				b.WriteByte('*')
			case SIndex:
				fmt.Fprint(&b, st.Sel.Index)
			default:
				b.WriteString((&Style{Plain: true}).quote(st.Sel.Name))
			}
		}
		for _, st := range q.Steps {
			if st.Sel.Kind == SIndex && st.Sel.Index < 0 {
				return
			}
		}
		c.Note("simple path: %s", b.String())
		p = parse(c, b.String())
		one(c, doc, q, &p)
	})
	r.Count("highest number of model calls per 1000 nodes to look at", int(maxRatio.Load()))
	maxRatio.Store(0)
	r.Serial("allocations", r.N(300, 6000), func(c *Case) {
		doc := big(c)
		cfg := allCfg()
		cfg.MaxDesc = 1
		cfg.EDepth = 1
		cfg.Desc = 60
		cfg.FDepth = 1
		q := newGen(c.R, doc, cfg).query()
		text := (&Style{Plain: true}).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(text))
		_, work, why, ok := refEvalWork(doc, q)
		if !ok {
			c.Skip(why)
		}
		p := parse(c, text)
		m := plainModel{doc, 0}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		gp.Find(m, p)
		runtime.ReadMemStats(&b)
		bytes := b.TotalAlloc - a.TotalAlloc
		if rt := int64(bytes) * 1000 / int64(work+100); rt > maxRatio.Load() {
			maxRatio.Store(rt)
		}
		bound := uint64(bytesPerNode*work + bytesBase)
		// paths may be copied when they are extended
		bound += uint64(bytesPerLevel * doc.height() * work)
		if bytes > bound {
			c.Fail("%d bytes allocated, for a query that has to look at %d nodes (bound: %d)", bytes, work, bound)
		}
		c.Count("bytes allocated", int(bytes))
		if work > 200 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": clip(text), "nodes to look at": work, "bytes": bytes, "bound": bound})
		}
	})
	r.Count("highest number of bytes allocated per 1000 nodes to look at", int(maxRatio.Load()))
	self, err := os.Executable()
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	probe := func(c *Case, spec string) (cost compileCost, exceeded bool) {
		cmd := exec.Command(self, "-probe", spec)
		cmd.Env = append(os.Environ(), "GOGC=off", "GOMAXPROCS=1", "GOMEMLIMIT=3GiB")
		var errb strings.Builder
		cmd.Stderr = &errb
		out, err := cmd.Output()
		if err == nil {
			if json.Unmarshal(out, &cost) != nil {
				panic(harnessBug("probe: " + string(out)))
			}
			return cost, false
		}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) {
			return cost, true
		}
		c.Fail("the process that compiles it died: %v: %s", err, headLines(errb.String(), 30))
		return
	}
	r.Cases("compile", len(families), func(c *Case) {
		fm := families[c.N]
		small, over := probe(c, fmt.Sprintf("family:%d:%d", c.N, fm.n))
		large := compileCost{}
		size := fm.n
		if !over {
			size = 2 * fm.n
			large, over = probe(c, fmt.Sprintf("family:%d:%d", c.N, size))
		}
		what := ""
		if over {
			what = fmt.Sprintf("Parse of a text of family %q of size %d (%d bytes) takes more than %d s of CPU time in a new process", fm.name, size, len(fm.text(size)), cpuLimit)
		} else if large.Mallocs > 32*small.Mallocs {
			what = fmt.Sprintf("Parse of family %q: %d allocations at size %d, %d at size %d", fm.name, small.Mallocs, fm.n, large.Mallocs, size)
		}
		c.Note("text: %s", clip(fm.text(fm.n)))
		if what != "" {
			if !c.Known("compile:"+fm.name, what) {
				c.Fail("%s", what)
			}
			return
		}
		c.Count("processes measured", 2)
		if len(fm.text(fm.n)) > 20 {
			c.NonTrivial(fm.name)
			c.Sample(map[string]any{"family": fm.name, "size": fm.n, "allocations": small.Mallocs, "allocations at twice the size": large.Mallocs})
		}
	})
	r.Cases("compile random", r.N(40, 1500), func(c *Case) {
		doc := randDoc(c)
		cfg := allCfg()
		cfg.MaxSteps = 10
		cfg.FDepth = 1
		text := style(c).path(newGen(c.R, doc, cfg).query())
		c.Note("text: %s", text)
		cost, over := probe(c, "compile:"+text)
		if over {
			c.Fail("Parse takes more than %d s of CPU time in a new process", cpuLimit)
		}
		if cost.Err != "" {
			c.Fail("Parse rejects a valid query: %s", cost.Err)
		}
		if len(text) > 20 {
			c.NonTrivial(text)
		}
		c.Count("processes measured", 1)
	})
}

// deepDoc nests containers to the depth, with some siblings on the way
func deepDoc(r *rand.Rand, depth, side int) *V {
	v := genScalar(r)
	mode := r.Intn(3) // objects, arrays, both
	for i := 0; i < depth; i++ {
		obj := mode == 0 || mode == 2 && r.Intn(2) == 0
		if obj {
			o := &V{Kind: KObj}
			before := r.Intn(side + 1)
			for k := 0; k < before; k++ {
				o.Set([]string{"s", "n", "t"}[k%3], genScalar(r))
			}
			o.Set("a", v)
			if r.Intn(3) == 0 {
				o.Set("z", genScalar(r))
			}
			v = o
		} else {
			a := &V{Kind: KArr}
			for k := r.Intn(side + 1); k > 0; k-- {
				a.Items = append(a.Items, genScalar(r))
			}
			a.Items = append(a.Items, v)
			if r.Intn(3) == 0 {
				a.Items = append(a.Items, genScalar(r))
			}
			v = a
		}
	}
	return v
}

func wideDoc(r *rand.Rand, n int) *V {
	var v *V
	if r.Intn(2) == 0 {
		v = &V{Kind: KArr}
		for i := 0; i < n; i++ {
			if r.Intn(10) == 0 {
				v.Items = append(v.Items, genDoc(r, DocCfg{MaxDepth: 2, MaxWidth: 3, Budget: 8}))
			} else {
				v.Items = append(v.Items, genScalar(r))
			}
		}
	} else {
		v = &V{Kind: KObj}
		for i := 0; i < n; i++ {
			v.Keys = append(v.Keys, "k"+strconv.Itoa(i))
			v.Items = append(v.Items, genScalar(r))
		}
	}
	if r.Intn(2) == 0 {
		return VObj("a", v, "n", genNumber(r))
	}
	return v
}

// ---- C29

// sizes around powers of two and around what buffers are made for
var sizes = []int{31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025}

func checkC29(r *Run) {
	r.rule = "Documents and queries beyond what is usual: nesting of 30 to 1025 levels, with a query that has as many steps, or descends; arrays and objects of 1000 to 100000 children; indexes and slices with bounds around powers of two and around the ends of arrays of up to 131073 elements, also after .. and in unions; unions, membership lists, operator chains and parentheses of hundreds of parts; names and strings of 100000 bytes. Results are compared with the reference evaluator, captured paths are checked link by link after the search. Non-trivial: something is selected; distinct by (query, document)."
	r.assume = []string{diffAssume}
	r.Cases("deep", r.N(104, 6000), func(c *Case) {
		depth := sizes[c.N%len(sizes)]
		doc := deepDoc(c.R, depth, 2)
		all := Number(doc)
		leaf := all[0]
		for _, v := range all {
			if v.Depth > leaf.Depth {
				leaf = v
			}
		}
		q := &PathQ{Root: "$"}
		full := pathTo(leaf)
		switch c.R.Intn(5) {
		case 0: // all the way down
			q.Steps = full
		case 1: // part of the way, and everything below
			k := c.R.Intn(len(full))
			q.Steps = append(append([]Step(nil), full[:k]...), Step{Desc: true, Sel: &Sel{Kind: SWild}})
		case 2: // what has a name, or a place
			q.Steps = []Step{{Desc: true, Sel: &Sel{Kind: SName, Name: "a"}}}
			if c.R.Intn(2) == 0 {
				q.Steps[0].Sel = &Sel{Kind: SIndex, Index: -1}
			}
		case 3: // steps of all kinds
			for _, st := range full {
				switch c.R.Intn(6) {
				case 0:
					st = Step{Sel: &Sel{Kind: SWild}}
				case 1:
					if st.Sel.Kind == SIndex {
						st = Step{Sel: &Sel{Kind: SSlice, Colons: 1, Slice: [3]*int{pi(st.Sel.Index), nil, nil}}}
					}
				case 2:
					st = Step{Sel: &Sel{Kind: SUnion, Parts: []*Sel{st.Sel, {Kind: SName, Name: "nothing"}}}}
				case 3:
					st = Step{Sel: &Sel{Kind: SFilter, Filter: bin("||", epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SWild}}}}), &Expr{Kind: EBool, B: true})}}
				}
				q.Steps = append(q.Steps, st)
			}
		case 4: // filters that go all the way down, or up to the root
			k := c.R.Intn(len(full))
			e := epath(&PathQ{Root: "@", Steps: full[k+1:]})
			if c.R.Intn(2) == 0 {
				e = bin("==", epath(&PathQ{Root: "$", Steps: full}), epath(&PathQ{Root: "@", Steps: full[k+1:]}))
			}
			q.Steps = append(append([]Step(nil), full[:k]...), Step{Sel: &Sel{Kind: SFilter, Filter: e}})
		}
		text := (&Style{R: c.R, Plain: c.R.Intn(2) == 0}).path(q)
		bigCase(c, doc, q, text)
	})
	r.Cases("wide", r.N(45, 1200), func(c *Case) {
		n := []int{1000, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100000}[c.N%9]
		doc := wideDoc(c.R, n)
		Number(doc)
		cfg := allCfg()
		cfg.FDepth, cfg.EDepth, cfg.MaxDesc = 1, 1, 1
		cfg.Slice, cfg.Index, cfg.BigSlices = 8, 6, true
		q := newGen(c.R, doc, cfg).query()
		bigCase(c, doc, q, (&Style{Plain: true}).path(q))
	})
	r.Cases("positions", r.N(72, 1500), func(c *Case) {
		// Positions, counts and bounds around powers of two, in arrays that
		// have them
		n := []int{257, 1025, 32769, 65535, 65536, 65537, 66000, 70000, 131073}[c.N%9]
		a := &V{Kind: KArr}
		for i := 0; i < n; i++ {
			a.Items = append(a.Items, VInt(i))
		}
		near := func() int {
			b := []int{0, 1, 127, 128, 255, 256, 1023, 1024, 32767, 32768, 65535, 65536, n - 65536, n - 256, n - 2, n - 1, n, n + 1, n / 2}[c.R.Intn(19)]
			b += c.R.Intn(5) - 2
			if c.R.Intn(4) == 0 {
				b -= n
			}
			return b
		}
		bound := func() *int {
			if c.R.Intn(5) == 0 {
				return nil
			}
			return pi(near())
		}
		slice := func() *Sel {
			s := &Sel{Kind: SSlice, Colons: 1, Slice: [3]*int{bound(), bound(), nil}}
			if c.R.Intn(2) == 0 {
				x := near()
				s.Slice[0], s.Slice[1] = pi(x), pi(x+c.R.Intn(40)-3)
			}
			if c.R.Intn(3) == 0 {
				s.Colons = 2
				if st := 1 + c.R.Intn(4); c.R.Intn(2) == 0 {
					s.Slice[2] = pi(st)
				} else {
					s.Slice[2] = pi([]int{st, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537}[c.R.Intn(10)])
				}
			}
			return s
		}
		sel := func() *Sel {
			if c.R.Intn(3) == 0 {
				return &Sel{Kind: SIndex, Index: near()}
			}
			return slice()
		}
		step := Step{Sel: sel()}
		kind := c.N / 9 % 4
		switch kind {
		case 1:
			step.Desc = true
		case 2, 3:
			u := &Sel{Kind: SUnion}
			for k := 2 + c.R.Intn(3); k > 0; k-- {
				u.Parts = append(u.Parts, sel())
			}
			step.Sel = u
			step.Desc = kind == 3
		}
		doc := a
		q := &PathQ{Root: "$", Steps: []Step{step}}
		switch c.R.Intn(3) {
		case 0:
			doc = VObj("x", VInt(0), "a", a)
			if !step.Desc {
				q.Steps = []Step{{Sel: &Sel{Kind: SName, Name: "a"}}, step}
			}
		case 1:
			doc = VArr(VArr(), a, VInt(3))
			if !step.Desc {
				q.Steps = []Step{{Sel: &Sel{Kind: SWild}}, step}
			}
		}
		bigCase(c, doc, q, (&Style{Plain: true}).path(q))
	})
	r.Cases("long queries", r.N(90, 2400), func(c *Case) {
		doc := genRecords(c.R, 12)
		all := Number(doc)
		items := doc
		if x := doc.Get("items"); doc.Kind == KObj && x != nil {
			items = x
		}
		if len(items.Items) == 0 {
			c.Skip("no items")
		}
		n := []int{50, 100, 127, 128, 129, 256, 257, 300}[c.R.Intn(8)]
		q := &PathQ{Root: "$", Steps: pathTo(items)}
		g := newGen(c.R, doc, allCfg())
		sc := scope{items.Items, 0}
		filter := func(e *Expr) {
			q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SFilter, Filter: e}})
		}
		kind := c.N % 10
		switch kind {
		case 0: // union
			u := &Sel{Kind: SUnion}
			for i := 0; i < n; i++ {
				u.Parts = append(u.Parts, g.sel([]*V{items}, 0, true))
			}
			if c.R.Intn(2) == 0 {
				// only the last part matters
				for i := range u.Parts {
					u.Parts[i] = &Sel{Kind: SName, Name: fmt.Sprintf("x%d", i)}
				}
				u.Parts[n-1] = &Sel{Kind: SSlice, Colons: 1}
			}
			q.Steps = append(q.Steps, Step{Sel: u})
		case 1: // membership list
			e := &Expr{Kind: EArr}
			for i := 0; i < n; i++ {
				e.Elems = append(e.Elems, eint(1000+i))
			}
			e.Elems = append(e.Elems, g.literal(sc))
			filter(bin("in", epath(g.relPath(sc, func(v *V) bool { return !v.isContainer() })), e))
		case 2, 3: // chains
			op := []string{"&&", "||"}[kind-2]
			e := g.relational(0, sc)
			for i := 1; i < n/4; i++ {
				if c.R.Intn(20) == 0 {
					e = bin(op, e, g.relational(0, sc))
				} else {
					e = bin(op, e, &Expr{Kind: EBool, B: op == "&&"})
				}
			}
			filter(bin(op, e, g.relational(0, sc)))
		case 4: // sums
			sum := eint(0)
			for i := 0; i < n; i++ {
				sum = bin("+", sum, eint(1))
			}
			filter(bin([]string{"==", "<", "!="}[c.R.Intn(3)], bin("-", sum, eint(n-1)), epath(g.relPath(sc, isNum))))
		case 5: // parentheses, negations
			e := g.relational(0, sc)
			for i := 0; i < 20; i++ {
				e = un("!", un("!", e))
			}
			filter(e)
		case 6: // many filters, one after the other, on a nest
			d := genNumber(c.R)
			for i := 0; i < n/2; i++ {
				d = VArr(d)
			}
			doc = d
			all = Number(doc)
			q.Steps = nil
			for i := 0; i < n/2; i++ {
				q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SFilter, Filter: &Expr{Kind: EBool, B: true}}})
			}
		case 9: // a union of many names of an object, also odd ones
			o := VObj()
			u := &Sel{Kind: SUnion}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", i)
				if c.R.Intn(10) == 0 {
					k = oddKeys[c.R.Intn(len(oddKeys))]
				}
				if c.R.Intn(3) > 0 {
					u.Parts = append(u.Parts, &Sel{Kind: SName, Name: k})
				}
				if c.R.Intn(3) > 0 && o.Get(k) == nil {
					o.Set(k, VObj("a", VInt(i)))
				}
			}
			if len(u.Parts) < 2 {
				u.Parts = append(u.Parts, &Sel{Kind: SName, Name: "a"}, &Sel{Kind: SName, Name: "b"})
			}
			c.R.Shuffle(len(u.Parts), func(i, j int) { u.Parts[i], u.Parts[j] = u.Parts[j], u.Parts[i] })
			doc = o
			if c.R.Intn(2) == 0 {
				doc = VArr(o, VObj("", VInt(1)))
			}
			all = Number(doc)
			q.Steps = []Step{{Desc: true, Sel: u}}
			if doc == o && c.R.Intn(2) == 0 {
				q.Steps[0].Desc = false
			}
			if c.R.Intn(2) == 0 {
				q.Steps = append(q.Steps, Step{Sel: &Sel{Kind: SName, Name: "a"}})
			}
		case 7: // a long name
			k := strings.Repeat([]string{"a", "é", "x y"}[c.R.Intn(3)], 1000*(1+c.R.Intn(30)))
			o := VObj(k, VInt(1), k+"b", VInt(2), "o", VObj(k, VObj(k, VStr(k))))
			doc = o
			all = Number(doc)
			q.Steps = []Step{{Desc: c.R.Intn(2) == 0, Sel: &Sel{Kind: SName, Name: k}}}
		case 8: // a long string
			k := strings.Repeat([]string{"a", "é", "'"}[c.R.Intn(3)], 1000*(1+c.R.Intn(30)))
			doc = VArr(VObj("s", VStr(k)), VObj("s", VStr(k[:len(k)-2])), VStr(k), VNull())
			all = Number(doc)
			q.Steps = []Step{{Sel: &Sel{Kind: SFilter, Filter: bin([]string{"==", "!=", ">="}[c.R.Intn(3)], epath(&PathQ{Root: "@", Steps: []Step{{Sel: &Sel{Kind: SName, Name: "s"}}}}), estr(k))}}}
		}
		_ = all
		bigCase(c, doc, q, (&Style{Plain: true}).path(q))
	})
}

// bigCase compares with the reference, and checks the captured paths
func bigCase(c *Case, doc *V, q *PathQ, text string) {
	c.Note("document: %s", clip(doc.String()))
	c.Note("query: %s", clip(text))
	all := Number(doc)
	want, why, ok := refEvalBig(doc, q)
	if !ok {
		c.Skip(why)
	}
	p := parse(c, text)
	m := NewMon(doc, "ptr")
	m.budget = 0
	got := justFind(c, m, p)
	short := func(v []*V) string {
		if len(v) > 4 {
			return fmt.Sprintf("%d nodes, the first: %s", len(v), clip(locs(v[:4])))
		}
		return clip(locs(v))
	}
	if !sameOrder(got, want) && !sameBag(got, want) {
		c.Fail("expected %s; selected %s", short(want), short(got))
	}
	// the captured paths, checked after the search. Not too many: they are long.
	var kept []gp.DocPath
	every := 1 + len(want)*doc.height()/200000
	i := 0
	if err := gp.Search(m, p, func(dp gp.DocPath) {
		if i%every == 0 || i == len(want)-1 {
			kept = append(kept, dp)
		}
		i++
	}); err != nil {
		c.Fail("Search: %v", err)
	}
	if i != len(want) {
		c.Fail("Search captures %d paths, expected %d", i, len(want))
	}
	for _, dp := range kept {
		if s := checkChain(m, dp); s != "" {
			c.Fail("captured path of %d segments: %s", dp.Len(), clip(s))
		}
	}
	c.Count("nodes selected", len(want))
	c.Count("captured paths checked", len(kept))
	c.Count("document model calls observed", int(m.total))
	if len(want) > 0 && len(all) > 1 {
		c.NonTrivial(text + doc.String())
		c.Sample(map[string]any{"query": clip(text), "document nodes": len(all), "document depth": doc.height(), "selected": len(want)})
	}
}

func (v *V) height() int {
	h := 0
	for _, c := range v.Items {
		if x := 1 + c.height(); x > h {
			h = x
		}
	}
	return h
}
