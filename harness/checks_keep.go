//go:build go1.24

package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	gp "github.com/bserdar/gojsonpath"
)

func init() {
	register("C31", "nothing is retained", checkC31)
}

// A watch counts the objects it was told of that are not yet collected
type watch struct{ alive, all atomic.Int64 }

func watched[T any](w *watch, p *T) *T {
	w.alive.Add(1)
	w.all.Add(1)
	runtime.AddCleanup(p, func(w *watch) { w.alive.Add(-1) }, w)
	return p
}

// str makes a string with bytes of its own, which are watched
func (w *watch) str(s string) string {
	b := []byte(s + strings.Repeat("~", 40))
	watched(w, &b[0])
	return unsafe.String(&b[0], len(b))
}

// gone waits for the garbage collector
func (w *watch) gone() bool {
	for i := 0; i < 60; i++ {
		runtime.GC()
		if w.alive.Load() == 0 {
			return true
		}
		time.Sleep(time.Duration(i) * 500 * time.Microsecond)
	}
	return w.alive.Load() == 0
}

// ---- a document model of which every node is watched

type keptNode struct {
	v     *V // not part of what is watched: belongs to the harness
	keys  []string
	kids  []*keptNode
	value any
}

type keptModel struct {
	root   *keptNode
	panics int // panics at this call
	calls  int
}

func keptTree(w *watch, v *V) *keptNode {
	n := watched(w, &keptNode{v: v})
	switch v.Kind {
	case KObj:
		for i, k := range v.Keys {
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, keptTree(w, v.Items[i]))
		}
	case KArr:
		for _, x := range v.Items {
			n.kids = append(n.kids, keptTree(w, x))
		}
	default:
		n.value = v.Go(false)
		if s, ok := n.value.(string); ok && v.ID%2 == 0 {
			n.value = w.str(s)
		}
	}
	return n
}

func (m *keptModel) node(n any) *keptNode {
	m.calls++
	if m.calls == m.panics {
		panic("the model fails")
	}
	return n.(*keptNode)
}

func (m *keptModel) Root() any { return m.root }
func (m *keptModel) Type(n any) gp.NodeType {
	switch m.node(n).v.Kind {
	case KObj:
		return gp.ObjectNode
	case KArr:
		return gp.ArrayNode
	}
	return gp.ValueNode
}
func (m *keptModel) Keys(n any) []string { return append([]string(nil), m.node(n).keys...) }
func (m *keptModel) Key(n any, key string) (any, bool) {
	x := m.node(n)
	for i, k := range x.keys {
		if k == key {
			return x.kids[i], true
		}
	}
	return nil, false
}
func (m *keptModel) Len(n any) int         { return len(m.node(n).kids) }
func (m *keptModel) Elem(n any, i int) any { return m.node(n).kids[i] }
func (m *keptModel) Value(n any) any       { return m.node(n).value }

// keptGo makes the value of a MapModel, with watched arrays and strings
func keptGo(w *watch, v *V) any {
	switch v.Kind {
	case KObj:
		m := map[string]any{}
		for i, k := range v.Keys {
			m[k] = keptGo(w, v.Items[i])
		}
		k := w.str("watched")
		m[k] = w.str("value")
		return m
	case KArr:
		var a []any
		for _, x := range v.Items {
			a = append(a, keptGo(w, x))
		}
		if len(a) == 0 {
			return []any{}
		}
		a = append([]any(nil), a...)
		watched(w, &a[0])
		return a
	}
	x := v.Go(false)
	if s, ok := x.(string); ok && v.ID%2 == 0 {
		return w.str(s)
	}
	return x
}

// keptUse evaluates the paths on a document of which nothing is left when
// it returns. The caller's results go with it.
//
//go:noinline
func keptUse(c *Case, w *watch, doc *V, paths []gp.Path, text string) (selected int) {
	var model gp.DocModel
	km := watched(w, &keptModel{})
	if c.R.Intn(2) == 0 {
		model = gp.MapModel{Doc: keptGo(w, doc)}
	} else {
		km.root = keptTree(w, doc)
		model = km
	}
	seen := watched(w, new([8]int))
	caught := func(f func()) {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case string:
				if x != "the model fails" && x != "the caller fails" {
					panic(x)
				}
				c.Count("calls that panicked", 1)
			default:
				panic(x)
			}
		}()
		f()
	}
	var results [][]any
	var captured []gp.DocPath
	for _, p := range paths {
		km.calls, km.panics = 0, 0
		if c.R.Intn(4) == 0 {
			km.panics = 1 + c.R.Intn(40)
		}
		switch c.R.Intn(5) {
		case 0, 1:
			caught(func() {
				r, _ := gp.Find(model, p)
				results = append(results, r)
				selected += len(r)
			})
		case 2:
			caught(func() {
				r, err := gp.ParseAndFind(model, text)
				results = append(results, r)
				selected += len(r)
				if err != nil {
					c.Count("calls that failed", 1)
				}
			})
		case 3:
			stop := -1
			if c.R.Intn(3) == 0 {
				stop = c.R.Intn(3)
			}
			caught(func() {
				gp.Search(model, p, func(dp gp.DocPath) {
					seen[0]++
					selected++
					captured = append(captured, dp, dp.Key("k", seen, gp.ValueNode), dp.Pop())
					if seen[0] == stop {
						panic("the caller fails")
					}
				})
			})
		case 4:
			caught(func() {
				n := 0
				gp.Search(model, p, func(dp gp.DocPath) {
					seen[1]++
					if n++; n < 3 {
						// a search within the search
						r, _ := gp.Find(model, paths[seen[1]%len(paths)])
						results = append(results, r)
					}
				})
			})
		}
	}
	km.panics = 0
	// the names of a document, as paths
	for _, k := range doc.Keys {
		k = w.str(k)
		t := gp.Join(gp.MakeKeyString(k), "x")
		if p, err := gp.Parse(t); err == nil {
			gp.Find(model, p)
		}
		gp.Find(model, gp.Append(gp.SelectRootPath, gp.RecursiveDescent(gp.KeySelectorPath(k))))
		gp.Find(model, gp.Append(append([]gp.Path{paths[0]}, gp.KeySelectorPath(k))...))
	}
	return
}

// keptParse parses a text with bytes of its own
//
//go:noinline
func keptParse(w *watch, text string) (ok bool) {
	b := []byte(text)
	if len(b) < 32 {
		b = append(b, strings.Repeat(" ", 32)...)
	}
	watched(w, &b[0])
	p, err := gp.Parse(unsafe.String(&b[0], len(b)))
	if err != nil {
		return false
	}
	gp.Find(gp.MapModel{Doc: map[string]any{"a": []any{1, "x"}}}, p)
	return true
}

func checkC31(r *Run) {
	r.rule = "Part documents: compiled paths (parsed and constructed) that stay alive are evaluated, in all ways, also with failing filters, models and callers that panic, and searches within searches, on a document of which the nodes, strings and arrays are watched by the garbage collector (runtime.AddCleanup). When the calls have returned, and the results are dropped, all of it has to be collected. Part texts: the same for the text given to Parse when the path is dropped. Part one long text: the live heap after a text (well formed or not) of 256 kB, against that after a short one of the same form. Part accumulation: live heap after collection while thousands of different texts are parsed, or different documents evaluated with one path; it must not grow with their number, as a cache without bounds would. No goroutine is left behind. Non-trivial if something was selected, or parsed; distinct by query and document, or text."
	r.assume = []string{"what sync.Pool keeps goes with the second collection", "a compiled path may keep the text it was made from, not a document"}
	r.Serial("documents", r.N(1200, 20000), func(c *Case) {
		doc := randDoc(c)
		Number(doc)
		cfg := allCfg()
		cfg.MaxSteps = 4
		cfg.EDepth = 2
		g := newGen(c.R, doc, cfg)
		var paths []gp.Path
		text := ""
		for i := 1 + c.R.Intn(4); i > 0; i-- {
			text = style(c).path(g.query())
			c.Note("query: %s", clip(text))
			paths = append(paths, parse(c, text))
		}
		switch c.R.Intn(4) {
		case 0:
			k := plainKeys[c.R.Intn(len(plainKeys))]
			paths = append(paths, gp.Append(gp.SelectRootPath, gp.RecursiveDescent(gp.WildcardPath), gp.KeySelectorPath(k)), gp.RecursiveDescent(paths[0]))
		case 1:
			paths = append(paths, gp.Append(paths[0], gp.WildcardPath, gp.IndexSelectorPath(0)))
		case 2:
			text = "$..[?(@ == 1 || nosuch(@))]"
			paths = append(paths, parse(c, text))
		case 3:
			text = text[:len(text)-1]
		}
		c.Note("document: %s", doc)
		w := &watch{}
		before := runtime.NumGoroutine()
		n := 0
		for i := 1 + c.R.Intn(3); i > 0; i-- {
			n += keptUse(c, w, doc, paths, text)
		}
		if !w.gone() {
			c.Fail("%d of %d watched parts of the documents are still reachable after the calls", w.alive.Load(), w.all.Load())
		}
		for i := 0; runtime.NumGoroutine() > before; i++ {
			if i > 200 {
				c.Fail("%d goroutines, %d before", runtime.NumGoroutine(), before)
			}
			time.Sleep(5 * time.Millisecond)
		}
		runtime.KeepAlive(paths)
		c.Count("watched objects", int(w.all.Load()))
		if n > 0 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": clip(text), "selected": n, "watched": w.all.Load()})
		}
	})
	r.Serial("texts", r.N(150, 3000), func(c *Case) {
		w := &watch{}
		good := 0
		for i := 0; i < 10; i++ {
			t := anyQueryText(c)
			if c.R.Intn(4) == 0 {
				t = mutate(c.R, t)
			}
			if nestedFilters(t) > 3 {
				continue
			}
			c.Note("text: %q", clip(t))
			if keptParse(w, t) {
				good++
			}
		}
		if !w.gone() {
			c.Fail("%d of %d texts are still reachable after the paths are dropped", w.alive.Load(), w.all.Load())
		}
		c.Count("texts", int(w.all.Load()))
		c.NonTrivial(fmt.Sprint(c.N))
	})
	heap := func() int64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	r.Serial("one long text", 24, func(c *Case) {
		// of one long text, neither characters nor tokens nor trees are kept
		const size = 1 << 18
		text := func(n int) string {
			word := strings.Repeat("x", n)
			many := func(x string) string { return strings.Repeat(x, n/128+1) }
			return []string{"$['" + word + "']", "$." + word, "/" + word, "$[?(@ == '" + word + "')]", "$['" + word + "'", "$['" + word, "$." + word + "]", "$.a & " + word,
				"/" + word + "//", "$['" + word + "'] $", "$[?(nosuch(@, '" + word + "'))]", "$[" + word + "(]", "$[?(" + word + ")]", "$" + many(".a") + "$", "$[1" + many(",1") + "] 1", "$.a " + strings.Repeat(" ", n) + "}",
				"$.." + word + "..", "$[?(@." + word + " == )]", "$['" + word + "'," + "'" + word + "'", "@." + word + "\x01", "", "$[?(@ in ['" + word + "', 1, 2)]", "$['\\x" + word + "']", word}[c.N]
		}
		run := func(n int) {
			t := text(n)
			p, err := gp.Parse(t)
			if err == nil {
				gp.Find(gp.MapModel{Doc: map[string]any{"a": 1}}, p)
			}
			gp.ParseAndFind(gp.MapModel{Doc: map[string]any{"a": 1}}, t)
		}
		var d int64
		for try := 0; ; try++ {
			run(8)
			before := heap()
			run(size)
			if d = heap() - before; d < size/2 {
				break
			}
			if try == 3 {
				c.Note("text: %q, with 2^18 letters", clip(text(8)))
				c.Fail("%d more bytes are in use after a text of %d bytes than after one of 8", d, size)
			}
		}
		c.Count("long texts", 1)
		c.NonTrivial(fmt.Sprint(c.N))
	})
	// grow measures the second half, so that caches with bounds are full
	grow := func(c *Case, n int, limit float64, f func(i int)) {
		for i := 0; i < n; i++ {
			f(i)
		}
		h := heap()
		for i := n; i < 2*n; i++ {
			f(i)
		}
		d := heap() - h
		c.Count("bytes of growth", int(d))
		c.Note("%d steps, then %d steps during which the live heap grows by %d bytes", n, n, d)
		if float64(d) > limit*float64(n) {
			c.Fail("the live heap grows by %.1f bytes for every step", float64(d)/float64(n))
		}
		c.NonTrivial(fmt.Sprint(c.N))
	}
	small := map[string]any{"a": []any{1, "x"}, "b": map[string]any{"c": 1.5}}
	r.Serial("accumulation: short texts", 2, func(c *Case) {
		grow(c, r.N(5000, 50000), 60, func(i int) {
			i = i*2 + c.N
			t := []string{"$.a[%d]", "$..k%d", "$.a[?(@ == %d)]", "$['x%d', 1]", "$[%d:]", "/a/b%d", "$.a[?(length(@.n%d) > 1.5 && !@.b)]", "$.a[%d", "$.a & %d"}[i%9]
			t = fmt.Sprintf(t, i)
			gp.ParseAndFind(gp.MapModel{Doc: small}, t)
		})
	})
	r.Serial("accumulation: long texts", 2, func(c *Case) {
		grow(c, r.N(800, 6000), 400, func(i int) {
			i = i*2 + c.N
			s := fmt.Sprint(i, strings.Repeat(fmt.Sprint(i%7), 4000))
			switch i % 4 {
			case 0:
				gp.ParseAndFind(gp.MapModel{Doc: small}, "$['"+s+"']")
			case 1:
				gp.ParseAndFind(gp.MapModel{Doc: small}, "$[?(@.a == '"+s+"')")
			case 2:
				gp.Find(gp.MapModel{Doc: small}, gp.Append(gp.SelectRootPath, gp.KeySelectorPath(s)))
			case 3:
				gp.MakeKeyString("it's" + s)
				gp.Join(s, gp.MakeKeyString(s))
			}
		})
	})
	r.Serial("accumulation: documents", 8, func(c *Case) {
		text := []string{"$..*", "$.a[?(@.s == 'x')].s", "$..s", "$..[0,-1,'s',1:]", "$.a.*.s", "$.a[?(@.n * 2 > 1 || @.s in ['y'])]", "/a/0/s", "$.a[?(@.s == $.a[1].s)]"}[c.N]
		p, err := gp.Parse(text)
		if err != nil {
			c.Fail("Parse: %v", err)
		}
		c.Note("query: %s", text)
		grow(c, r.N(300, 3000), 2000, func(i int) {
			var a []any
			for k := 0; k < 4; k++ {
				a = append(a, map[string]any{"s": strings.Repeat(fmt.Sprint(i, " ", k, " "), 1500), "n": i})
			}
			m := gp.MapModel{Doc: map[string]any{"a": a, fmt.Sprint("key", i): i}}
			gp.Find(m, p)
			gp.Search(m, p, func(dp gp.DocPath) { dp.Pop().Index(1, i, gp.ValueNode) })
		})
		runtime.KeepAlive(p)
	})
}
