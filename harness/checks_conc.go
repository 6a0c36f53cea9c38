package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	gp "github.com/bserdar/gojsonpath"
)

func init() {
	register("C23", "concurrent use", checkC23)
}

// plainModel is a document model without any synchronization: its own
// accesses must not order the accesses of the code under test. Some calls
// yield, so that goroutines interleave within evaluations.
type plainModel struct {
	root  *V
	yield int
}

func (m plainModel) maybe(v *V) {
	if m.yield > 0 && v.ID%m.yield == 0 {
		runtime.Gosched()
	}
}
func (m plainModel) Root() any              { return m.root }
func (m plainModel) Type(n any) gp.NodeType { return nodeType(n.(*V)) }
func (m plainModel) Len(n any) int          { return len(n.(*V).Items) }
func (m plainModel) Key(n any, k string) (any, bool) {
	v := n.(*V)
	m.maybe(v)
	x := v.Get(k)
	if x == nil {
		return nil, false
	}
	return x, true
}

// Keys returns the document's own list, whoever modifies it is racing
func (m plainModel) Keys(n any) []string { return n.(*V).Keys }
func (m plainModel) Elem(n any, i int) any {
	v := n.(*V)
	m.maybe(v)
	return v.Items[i]
}
func (m plainModel) Value(n any) any {
	v := n.(*V)
	m.maybe(v)
	if v.isContainer() {
		return nil
	}
	return v.Go(false)
}

type concOp struct {
	kind       int
	path, doc  int
	piece      int
	start, end time.Duration
	got        []*V
	gotBag     []string
	text       string
	err        string
}

// outcome of an operation, as text
func vlist(m gp.DocModel, res []any) []*V {
	out := make([]*V, len(res))
	for i, x := range res {
		v, ok := x.(*V)
		if !ok {
			v = &V{Kind: KStr, S: fmt.Sprintf("not a node: %T(%v)", x, x)}
		}
		out[i] = v
	}
	return out
}

type concWorld struct {
	docs    []*V
	native  []gp.MapModel
	texts   []string
	alts    []string // the same queries in another notation, not parsed before
	paths   []gp.Path
	pieces  []gp.Path
	yield   int
	base    gp.DocPath // a path shared by all goroutines
	bad     []string   // malformed texts
	failing []gp.Path  // with filters that fail
	rare    []string   // with notations few queries have
}

const nOps = 13

// rareText is an expression with a notation that few queries have
func rareText(r *rand.Rand) string {
	hex := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte("0123456789abcdefABCDEF"[r.Intn(22)])
		}
		return b.String()
	}
	dig := func(n int) string {
		b := []byte{byte('1' + r.Intn(9))}
		for len(b) < n {
			b = append(b, byte('0'+r.Intn(10)))
		}
		return string(b)
	}
	lit := func() string {
		switch r.Intn(14) {
		case 12:
			// escapes that are none
			var b strings.Builder
			for n := 1 + r.Intn(4); n > 0; n-- {
				b.WriteString(`\` + string(rune(0xa1+r.Intn(0x1000))))
			}
			return "'" + b.String() + "'"
		case 0:
			return "0x" + hex(1+r.Intn(30))
		case 1:
			return "0X" + hex(17+r.Intn(10))
		case 2:
			return "0b1" + strings.Repeat("01", r.Intn(60))
		case 3:
			return "0o7" + strings.Repeat("1", r.Intn(40))
		case 4:
			return dig(1 + r.Intn(40))
		case 5:
			return dig(1+r.Intn(30)) + "." + dig(1+r.Intn(30)) + "e" + []string{"", "-", "+"}[r.Intn(3)] + dig(1)
		case 6:
			return "0." + dig(1+r.Intn(20))
		case 7:
			return `"\u` + hex(4) + `\x` + hex(2) + `\n\'\""`
		case 8:
			return `'\ud83d\ude0` + hex(1) + `é` + `\t\\'`
		case 9:
			return "[" + dig(3) + ", 'a', null, @.a]"
		case 10:
			return "@['" + dig(2) + `\u00` + hex(2) + "']"
		case 11:
			return "@..a.length()"
		}
		return "length(@.a)"
	}
	e := lit()
	for k := r.Intn(4); k >= 0; k-- {
		op := []string{"==", "!=", "===", "!==", "<", ">=", "+", "-", "*", "%", "&&", "||", "**", "/"}[r.Intn(14)]
		e = e + " " + op + " " + []string{"", "", "-", "!", "+"}[r.Intn(5)] + lit()
	}
	return e
}

// do runs one operation. Everything it touches is either shared and read
// only by contract, or its own.
func (w *concWorld) do(o *concOp) {
	defer func() {
		if x := recover(); x != nil {
			o.err = fmt.Sprintf("panic: %v", x)
		}
	}()
	m := plainModel{w.docs[o.doc], w.yield}
	find := func(p gp.Path) {
		res, err := gp.Find(m, p)
		if err != nil {
			o.err = err.Error()
		}
		o.got = vlist(m, res)
	}
	switch o.kind {
	case 0, 1:
		find(w.paths[o.path])
	case 2:
		var keep []gp.DocPath
		err := gp.Search(m, w.paths[o.path], func(dp gp.DocPath) { keep = append(keep, dp) })
		if err != nil {
			o.err = err.Error()
		}
		for _, dp := range keep {
			v, _ := dp.Last().Node.(*V)
			o.got = append(o.got, v)
			// the path has to be that of the node
			for i := len(dp.P) - 1; i >= 0 && v != nil; i-- {
				if dp.P[i].Node != any(v) {
					o.err = "captured path is not the path of its node"
				}
				v = v.Parent
			}
			if len(dp.P) == 0 || dp.P[0].Node != any(m.root) {
				o.err = "captured path does not start at the root"
			}
		}
	case 3:
		p, err := gp.Parse(w.alts[o.path])
		if err != nil {
			o.err = err.Error()
			return
		}
		find(p)
	case 4:
		find(gp.Append(w.paths[o.path], w.pieces[o.piece]))
	case 5:
		find(gp.Append(gp.RecursiveDescent(w.paths[o.path]), w.pieces[o.piece]))
	case 6:
		res, err := gp.Find(w.native[o.doc], w.paths[o.path])
		if err != nil {
			o.err = err.Error()
		}
		for _, x := range res {
			o.gotBag = append(o.gotBag, goString(x))
		}
		sort.Strings(o.gotBag)
	case 7:
		seg := gp.Segment{Node: o, Name: fmt.Sprint(o.piece), Index: o.piece}
		var a gp.DocPath
		switch o.piece % 3 {
		case 0:
			a = w.base.Push(seg)
		case 1:
			a = w.base.Key(seg.Name, o, gp.ValueNode)
		default:
			a = w.base.Index(seg.Index, o, gp.ValueNode)
		}
		runtime.Gosched()
		if a.Len() != w.base.Len()+1 || a.Last().Node != any(o) {
			o.err = "a path pushed on a shared path has the segment of another"
		}
		b := a.Pop()
		if b.Len() != w.base.Len() {
			o.err = "Pop"
		}
	case 8:
		bad := w.bad[(o.piece+o.path*5)%len(w.bad)]
		_, err := gp.Parse(bad)
		if err == nil {
			o.err = "malformed text is accepted"
			return
		}
		var se gp.ErrSyntax
		if !errors.As(err, &se) || !strings.Contains(err.Error(), bad) {
			o.err = "not a syntax error with the text: " + err.Error()
		}
		o.text = errorPlace.FindString(err.Error())
	case 9:
		k := fmt.Sprintf("k%d'\"", o.piece)
		o.text = gp.Join(k, "a", w.texts[o.path]) + gp.MakeKeyString(k+k) + gp.MakeKeyString(w.texts[o.path])
		res, err := gp.ParseAndFind(m, w.texts[o.path])
		if err != nil {
			o.err = err.Error()
		}
		o.got = vlist(m, res)
	case 10:
		// a path of its own, from constructors
		k := []string{"a", "n", "key", "b"}[o.piece%4]
		p := gp.Append(gp.RecursiveDescent(gp.SelectRootPath), gp.KeySelectorPath(k))
		if o.path%2 == 0 {
			p = gp.Append(p, gp.WildcardPath)
		} else {
			p = gp.Append(gp.SelectRootPath, gp.WildcardPath, gp.IndexSelectorPath(o.piece-2))
		}
		find(p)
	case 11:
		// a filter that fails, if there is anything for it
		if w.failing == nil {
			return
		}
		res, err := gp.Find(m, w.failing[o.piece%len(w.failing)])
		if err != nil {
			o.text = "an error"
		} else {
			o.got = vlist(m, res)
		}
	case 12:
		for i := range w.rare {
			t := w.rare[(i+o.piece)%len(w.rare)]
			p, err := gp.Parse(t)
			if err != nil {
				o.text += "no " + t
				continue
			}
			res, err := gp.Find(m, p)
			if err != nil {
				o.text += "error " + t
			}
			o.got = append(o.got, vlist(m, res)...)
		}
	}
}

// expected runs the operation alone, with freshly compiled paths
func (w *concWorld) expected(o *concOp) concOp {
	e := concOp{kind: o.kind, path: o.path, doc: o.doc, piece: o.piece}
	fresh := *w
	fresh.yield = 0
	fresh.paths = append([]gp.Path(nil), w.paths...)
	p, err := gp.Parse(w.texts[o.path])
	if err == nil {
		fresh.paths[o.path] = p
	}
	fresh.do(&e)
	return e
}

var badTexts = []string{"$[", "$[?(@.a ==", "$['x", "$..[", "$.a b", "$[?(@ @)]", "]", "$[?(1 +)]", "$.a.b.c.d.e[0][", "$ .\n.\n.", "/a/b//c", "$.a\x01"}

var errorPlace = regexp.MustCompile(`line \d+:\d+`)

// round runs goroutines over a world, and compares
func concRound(r *rand.Rand, w *concWorld, goroutines, ops int) (overlaps int, order uint64, err string, note string) {
	all := make([][]concOp, goroutines)
	same := r.Intn(3) == 0 // everyone does the same things
	for g := range all {
		all[g] = make([]concOp, ops)
		for i := range all[g] {
			o := concOp{kind: r.Intn(nOps), path: r.Intn(len(w.texts)), doc: r.Intn(len(w.docs)), piece: r.Intn(len(w.pieces))}
			if same && g > 0 {
				x := all[0][i]
				o = concOp{kind: x.kind, path: x.path, doc: x.doc, piece: x.piece}
			}
			all[g][i] = o
		}
	}
	start := make(chan struct{})
	begin := time.Now()
	var wg sync.WaitGroup
	for g := range all {
		wg.Add(1)
		go func(ops []concOp) {
			defer wg.Done()
			<-start
			for i := range ops {
				ops[i].start = time.Since(begin)
				w.do(&ops[i])
				ops[i].end = time.Since(begin)
			}
		}(all[g])
	}
	close(start)
	wg.Wait()
	type ev struct {
		t time.Duration
		g int
		d int
	}
	var evs []ev
	for g := range all {
		for i := range all[g] {
			o := &all[g][i]
			evs = append(evs, ev{o.start, g, 1}, ev{o.end, g, -1})
			e := w.expected(o)
			what := fmt.Sprintf("operation %d on query %q, document %d", o.kind, w.texts[o.path], o.doc)
			if o.err != e.err {
				return 0, 0, fmt.Sprintf("%s: %q among others, %q alone", what, o.err, e.err), w.docs[o.doc].String()
			}
			if o.text != e.text {
				return 0, 0, fmt.Sprintf("%s: among others %q, alone %q", what, o.text, e.text), w.docs[o.doc].String()
			}
			if !sameOrder(o.got, e.got) {
				return 0, 0, fmt.Sprintf("%s: among others it selects %s, alone %s", what, locs(o.got), locs(e.got)), w.docs[o.doc].String()
			}
			if strings.Join(o.gotBag, ",") != strings.Join(e.gotBag, ",") {
				return 0, 0, fmt.Sprintf("%s: among others it selects %s, alone %s", what, clip(fmt.Sprint(o.gotBag)), clip(fmt.Sprint(e.gotBag))), w.docs[o.doc].String()
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	h := fnv.New64a()
	active := 0
	for _, e := range evs {
		if e.d > 0 {
			overlaps += active
		}
		active += e.d
		h.Write([]byte{byte(e.g), byte(e.d + 1)})
	}
	return overlaps, h.Sum64(), "", ""
}

// sharedPiece is a step, of every kind in turn
func sharedPiece(r *rand.Rand, a *V) string {
	n := len(a.Items)
	i := func() int { return r.Intn(2*n+3) - n - 1 }
	if r.Intn(6) == 0 {
		return []string{"['a']", "['a','b']", "[*]", "..a", ".b", "[?(@.a)]", "[?(@ == 1)]", "['b',0,*]"}[r.Intn(8)]
	}
	b := func() string {
		if r.Intn(3) == 0 {
			return ""
		}
		return fmt.Sprint(i())
	}
	s := func() string {
		switch r.Intn(5) {
		case 0:
			return fmt.Sprint(i())
		case 1:
			return b() + ":" + b()
		}
		return b() + ":" + b() + ":" + fmt.Sprint([]int{1, 2, 3, 5, -1, -2, -3, n, -n, 1 << 40}[r.Intn(10)])
	}
	x := s()
	for k := r.Intn(5) - 2; k > 0; k-- {
		x += "," + s()
	}
	return "[" + x + "]"
}

func concWorldOf(r *rand.Rand, docOf func() *V) *concWorld {
	w := &concWorld{yield: r.Intn(4), bad: badTexts}
	arrays := r.Intn(2) == 0
	for i := 0; i < 2; i++ {
		d := docOf()
		if i == 1 && r.Intn(6) == 0 {
			d = deepDoc(r, 20+r.Intn(150), 1)
		}
		if arrays {
			as := VArr()
			for k := 0; k < 4; k++ {
				a := VArr()
				for n := r.Intn(40); n > 0; n-- {
					a.Items = append(a.Items, []*V{VInt(n), VStr("s"), VObj("a", VInt(1), "b", VInt(2)), VNull()}[r.Intn(4)])
				}
				as.Items = append(as.Items, a)
			}
			d = VObj("doc", d, "arrays", as)
		}
		Number(d)
		w.docs = append(w.docs, d)
		w.native = append(w.native, gp.MapModel{Doc: d.Go(false)})
	}
	for i := 0; i < 4; i++ {
		cfg := allCfg()
		cfg.FDepth = 1
		if r.Intn(3) == 0 {
			// what keeps constants and closures: filters
			cfg.Filter = 12
		}
		if arrays && i != 1 {
			// steps in arrays of several lengths, of a path that is used with both documents
			as := w.docs[i%2].Get("arrays")
			if as != nil {
				w.texts = append(w.texts, "$"+[]string{".arrays", "..arrays", "['arrays']"}[r.Intn(3)]+"[*]"+sharedPiece(r, as.Items[r.Intn(4)]))
				w.alts = append(w.alts, w.texts[len(w.texts)-1])
				continue
			}
		}
		q := newGen(r, w.docs[i%2], cfg).query()
		w.texts = append(w.texts, (&Style{R: r}).path(q))
		w.alts = append(w.alts, (&Style{R: r, Spaces: true}).path(q))
	}
	// texts of which every goroutine may compile its own
	for i := 0; i < 3; i++ {
		t := "$" + []string{"", "..", ".*"}[r.Intn(3)] + "[?(" + rareText(r) + ")]"
		w.rare = append(w.rare, t)
	}
	w.pieces = []gp.Path{gp.KeySelectorPath("a"), gp.WildcardPath, gp.IndexSelectorPath(0), gp.IndexSelectorPath(-1), gp.KeySelectorPath("n")}
	w.base = gp.DocPath{P: make([]gp.Segment, 0, 16)}
	for i := 0; i < 3; i++ {
		w.base = w.base.Key("x", i, gp.ObjectNode)
	}
	if r.Intn(2) == 0 {
		// a path as Search captures it
		gp.Search(plainModel{w.docs[0], 0}, gp.WildcardPath, func(dp gp.DocPath) { w.base = dp })
	}
	return w
}

func checkC23(r *Run) {
	r.rule = "Built with the Go race detector; the harness' document model and workers use no synchronization between the start barrier and the end. Part rounds: 8 goroutines run random operations (Find, Search with captured paths kept, Parse of valid and malformed text, ParseAndFind, Append and RecursiveDescent of shared paths, Key/Index/Push on a shared document path, filters that fail, texts with notations that few queries have, Join and MakeKeyString) on 4 shared compiled paths and 2 shared documents; every outcome is compared, in order, with that of the same operation run alone with a freshly compiled path. Part cold: the same in a new process, in which the first calls of the process are concurrent. Any race report in the code under test is a violation. Non-trivial if operations overlapped in time (from their recorded start and end); distinct by queries and order of events."
	r.assume = []string{"the race detector sees the accesses of the executions it observes, no others", "coverage counters are off in this build: they would synchronize"}
	w := r.Workers
	r.Workers = 4
	r.Cases("rounds", r.N(110, 5000), func(c *Case) {
		world := concWorldOf(c.R, func() *V { return randDoc(c) })
		for _, t := range world.texts {
			world.paths = append(world.paths, parse(c, t))
		}
		for _, t := range []string{"$..[?(nosuch(@))]", "$.*[?(@.a == 1 && nosuch(@.b))]", "$.a[?(@.nosuch())]"} {
			world.failing = append(world.failing, parse(c, t))
		}
		c.Note("queries: %q", world.texts)
		ov, order, err, note := concRound(c.R, world, 8, 12)
		if err != "" {
			c.Note("document: %s", clip(note))
			c.Fail("%s", err)
		}
		c.Count("operations", 96)
		c.Count("pairs of overlapping operations", ov)
		if ov > 0 {
			c.NonTrivial(fmt.Sprint(world.texts, order))
			c.Sample(map[string]any{"queries": world.texts, "overlapping pairs": ov})
		}
	})
	r.Workers = 4
	self, _ := os.Executable()
	r.Cases("cold", r.N(16, 600), func(c *Case) {
		dir, err := os.MkdirTemp("", "verif-cold-")
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		defer os.RemoveAll(dir)
		cmd := exec.Command(self, "-probe", fmt.Sprintf("cold:%d", caseSeed(r.Seed, r.ID, c.Part, c.N)))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
		var errb strings.Builder
		cmd.Stderr = &errb
		out, err := cmd.Output()
		if err != nil {
			c.Fail("a process in which the first calls are concurrent died: %v: %s", err, headLines(errb.String(), 40))
		}
		logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			if strings.Contains(string(b), "DATA RACE") {
				c.Note("%s", headLines(string(b), 60))
				c.Fail("data race among the first calls of a process")
			}
		}
		var res struct {
			Err, Note string
			Overlaps  int
			Order     uint64
			Texts     []string
		}
		if json.Unmarshal(out, &res) != nil {
			panic(harnessBug("probe: " + string(out) + errb.String()))
		}
		if res.Err != "" {
			c.Note("document: %s", clip(res.Note))
			c.Fail("%s", res.Err)
		}
		c.Count("processes with concurrent first calls", 1)
		c.Count("pairs of overlapping operations", res.Overlaps)
		if res.Overlaps > 0 {
			c.NonTrivial(fmt.Sprint(res.Texts, res.Order))
		}
	})
	r.Workers = w
}

// coldProbe: all that this process does with the library happens at once
func coldProbe(seed int64) {
	r := rand.New(rand.NewSource(seed))
	c := &Case{R: r}
	w := concWorldOf(r, func() *V { return randDoc(c) })
	w.base = gp.DocPath{P: make([]gp.Segment, 1, 16)}
	// compiled paths have to exist first: but they are made concurrently
	w.paths = make([]gp.Path, len(w.texts))
	errs := make([]error, len(w.texts)*2)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			p, err := gp.Parse(w.texts[i%len(w.texts)])
			errs[i] = err
			if i < len(w.texts) {
				w.paths[i] = p
			}
		}(i)
	}
	close(start)
	wg.Wait()
	res := map[string]any{"Texts": w.texts}
	for i, e := range errs {
		if e != nil {
			res["Err"] = fmt.Sprintf("Parse(%q) fails among others: %v", w.texts[i%len(w.texts)], e)
		}
	}
	if res["Err"] == nil {
		ov, order, err, note := concRound(r, w, 8, 6)
		res["Overlaps"], res["Order"], res["Err"], res["Note"] = ov+len(errs), order, err, note
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
