package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	gp "github.com/bserdar/gojsonpath"
)

func init() {
	register("C14", "notation", checkC14)
	register("C15", "simple paths", checkC15)
	register("C16", "MakeKeyString and Join", checkC16)
	register("C32", "places of syntax errors", checkC32)
	register("C17", "rejection of malformed input", checkC17)
	register("C18", "totality", checkC18)
}

func checkC14(r *Run) {
	r.rule = "Case k: one query tree is written in a canonical notation and in several random equivalent ones (dots or brackets, quotes, escapes, optional white space, redundant parentheses, .. forms), all are run on the same document, and have to select the same nodes in the same order. Non-trivial if the notations differ and select something; distinct by (notation, document)."
	r.assume = []string{"optional white space is where the grammar has SP"}
	equivalents := func(c *Case, doc *V, q *PathQ) {
		canon := (&Style{Plain: true}).path(q)
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", clip(canon))
		m := NewMon(doc, "ptr")
		want := findMonText(c, m, canon)
		for i := 0; i < 3; i++ {
			s := &Style{R: c.R, Spaces: i > 0}
			text := s.path(q)
			if c.R.Intn(8) == 0 {
				text += []string{" ", "\n", "\t ", "  "}[c.R.Intn(4)]
			}
			if text == canon {
				continue
			}
			c.Note("notation: %s", text)
			got := findMonText(c, m, text)
			if !sameOrder(got, want) {
				c.Fail("%q selects %s, %q selects %s", canon, locs(want), text, locs(got))
			}
			c.Count("notations compared", 1)
			if len(want) > 0 {
				c.NonTrivial(text + doc.String())
				c.Sample(map[string]any{"canonical": canon, "notation": text, "selected": len(want)})
			}
		}
	}
	r.Cases("equivalents", r.N(12000, 600000), func(c *Case) {
		var doc *V
		if c.R.Intn(2) == 0 {
			doc = recDoc(c)
		} else {
			doc = genDoc(c.R, DocCfg{MaxDepth: 4, MaxWidth: 4, Budget: 50, Exotic: c.R.Intn(2) == 0})
		}
		equivalents(c, doc, newGen(c.R, doc, allCfg()).query())
	})
	r.Cases("large", r.N(2000, 60000), func(c *Case) {
		doc := bigDoc(c)
		equivalents(c, doc, bigQuery(c, doc))
	})
	r.Cases("parentheses", r.N(8000, 300000), func(c *Case) {
		// full parentheses against the fewest
		doc := recDoc(c)
		g := newGen(c.R, doc, allCfg())
		e := g.anyBool(4, scope{sample(c.R, containers(g.all), 10), 1})
		q := &PathQ{Root: "$", Steps: []Step{{Desc: true, Sel: &Sel{Kind: SFilter, Filter: e}}}}
		a := (&Style{Plain: true}).path(q)
		b := (&Style{Plain: true, FullPar: true}).path(q)
		c.Note("document: %s", doc)
		c.Note("query: %s", a)
		c.Note("with parentheses: %s", b)
		m := NewMon(doc, "ptr")
		x, y := findMonText(c, m, a), findMonText(c, m, b)
		if !sameOrder(x, y) {
			c.Fail("%s against %s with parentheses", locs(x), locs(y))
		}
		if len(x) > 0 && a != b {
			c.NonTrivial(a + doc.String())
		}
	})
	r.Cases("identifiers", r.N(9000, 200000), func(c *Case) {
		// all kinds of names that can be written without quotes, in an
		// object that also has keys that are nearly the same
		key := identifier(c.R)
		near := []string{strings.TrimRight(key, "-"), key + "-", key + "0", "_" + key, strings.ToUpper(key), strings.ToLower(key), strings.ReplaceAll(key, "_", ""), strings.ReplaceAll(key, "-", "_"), strings.TrimLeft(key, "$_"), key + "\u0301", strings.ReplaceAll(key, "\u200d", "")}
		for i := range key {
			near = append(near, key[:i])
		}
		obj := VObj()
		for k := 1 + c.R.Intn(5); k > 0; k-- {
			if x := near[c.R.Intn(len(near))]; x != key && obj.Get(x) == nil {
				obj.Set(x, genScalar(c.R))
			}
		}
		val := VObj(key, VInt(7))
		if c.R.Intn(10) > 0 {
			obj.Set(key, val)
		}
		doc := VArr(obj, VObj(near[c.R.Intn(len(near))], VStr("other")), VObj(key, VInt(3)))
		name := &Sel{Kind: SName, Name: key}
		first := Step{Sel: &Sel{Kind: SIndex}}
		q := &PathQ{Root: "$"}
		text := ""
		quoted := (&Style{R: c.R}).quote(key)
		switch c.R.Intn(8) {
		case 0:
			q.Steps, text = []Step{first, {Sel: name}}, "$[0]."+key
		case 1:
			q.Steps, text = []Step{first, {Sel: name}}, "$[0]["+key+"]"
		case 2:
			q.Steps, text = []Step{first, {Sel: name}}, "$[0]["+quoted+"]"
		case 3:
			q.Steps, text = []Step{{Desc: true, Sel: name}}, "$.."+key
		case 4:
			q.Steps, text = []Step{first, {Sel: name}, {Sel: name}}, "$[0]."+key+"."+key
		case 5:
			q.Steps, text = []Step{first, {Sel: &Sel{Kind: SUnion, Parts: []*Sel{name, {Kind: SName, Name: "no key"}}}}}, "$[0]["+key+",'no key']"
		case 6:
			q.Steps, text = []Step{first, {Sel: name}}, "/0/"+key
		default:
			f := bin("==", epath(&PathQ{Root: "@", Steps: []Step{{Sel: name}}}), eint(3))
			q.Steps, text = []Step{{Sel: &Sel{Kind: SFilter, Filter: f}}}, "$[?(@."+key+"==3)]"
		}
		differential(c, doc, q, text, diffOpts{})
	})
}

// identifier returns a name of the grammar that is no keyword, of all its
// character classes
func identifier(r *rand.Rand) string {
	starts := []string{"a", "z", "A", "Q", "_", "$", "k", "\u00e9", "\u00df", "\u03b1", "\u0416", "\u05d0", "\u0627", "\u4e2d", "\u3042", "\uac00", "\U00010400", "\u02b0", "\u01c5"}
	parts := []string{"-", "-", "0", "9", "_", "\u0301", "\u0663", "\u203f", "\uff3f", "\u200c", "\u200d", "\u0966"}
	for {
		s := starts[r.Intn(len(starts))]
		for k := r.Intn(5); k > 0; k-- {
			if r.Intn(2) == 0 {
				s += parts[r.Intn(len(parts))]
			} else {
				s += starts[r.Intn(len(starts))]
			}
		}
		if s != "$" && s != "in" {
			return s
		}
	}
}

// chainRef is what a chain of keys addresses: a key of an object, or an
// index of an array; * is any
func chainRef(root *V, comps []simpleComp) []*V {
	cur := []*V{root}
	for _, k := range comps {
		var next []*V
		for _, n := range cur {
			if k.wild {
				next = append(next, n.Items...)
				continue
			}
			switch n.Kind {
			case KObj:
				if x := n.Get(k.key); x != nil {
					next = append(next, x)
				}
			case KArr:
				if i, err := strconv.Atoi(k.key); err == nil && i >= 0 && i < len(n.Items) {
					next = append(next, n.Items[i])
				}
			}
		}
		cur = next
	}
	return cur
}

type simpleComp struct {
	key  string
	wild bool
	src  string
}

// oddNumber tells if the key is an integer in some notation, but not written as one usually is
func oddNumber(k string) bool {
	i, err := strconv.Atoi(k)
	if err == nil {
		return strconv.Itoa(i) != k || i < 0
	}
	return lexNumber(k) == len(k) && len(k) > 0 && !strings.Contains(k, ".")
}

func checkC15(r *Run) {
	r.rule = "Case k: a chain of keys, indexes and wildcards, walked through a random document, is written as a simple path (bare or quoted components, also words like null and numbers like 1.0), and compared with the nodes the chain addresses, with the equivalent bracket path, and with the path put together from constructors. Non-trivial if it selects something; distinct by (path, document)."
	r.assume = []string{diffAssume, "a numeric component addresses the key of an object, as written, and the index of an array"}
	keys := append([]string{"0", "1", "2", "10", "1.0", "007", "-1", "null", "true", "in", "a", "b"}, exoticKeys...)
	r.Cases("chains", r.N(50000, 1000000), func(c *Case) {
		keys := keys
		if c.R.Intn(2) == 0 {
			keys = nil
			for n := 1 + c.R.Intn(12); n > 0; n-- {
				keys = append(keys, randKey(c.R))
			}
		}
		doc := genDoc(c.R, DocCfg{MaxDepth: 4, MaxWidth: 4, Keys: keys, Budget: 60})
		n := 1 + c.R.Intn(5)
		if c.R.Intn(25) == 0 {
			// long chains, and large collections
			doc = deepDoc(c.R, 5+c.R.Intn(60), 2)
			if c.R.Intn(3) == 0 {
				doc = wideDoc(c.R, 20+c.R.Intn(200))
			}
			n = 3 + c.R.Intn(70)
		}
		Number(doc)
		var comps []simpleComp
		cur := doc
		for ; n > 0; n-- {
			if len(comps) > 5 && len(cur.Items) == 0 && c.R.Intn(4) > 0 {
				break
			}
			var k simpleComp
			switch {
			case c.R.Intn(6) == 0:
				k.wild = true
			case cur.Kind == KObj && len(cur.Keys) > 0 && c.R.Intn(8) > 0:
				k.key = cur.Keys[c.R.Intn(len(cur.Keys))]
			case cur.Kind == KArr && c.R.Intn(8) > 0:
				k.key = strconv.Itoa(c.R.Intn(len(cur.Items) + 1))
			default:
				k.key = keys[c.R.Intn(len(keys))]
			}
			if oddNumber(k.key) {
				// quoted only; on arrays not specified
				if cur.Kind != KObj {
					k.key = "a"
				}
			}
			comps = append(comps, k)
			if len(cur.Items) > 0 {
				next := cur.Items[c.R.Intn(len(cur.Items))]
				if !k.wild {
					if x := chainRef(cur, []simpleComp{k}); len(x) > 0 {
						next = x[0]
					}
				}
				cur = next
			}
		}
		for _, k := range comps {
			if oddNumber(k.key) {
				for _, n := range Number(doc) {
					if n.Kind == KArr {
						c.Skip("numbers that are not plain indexes, with arrays")
					}
				}
			}
		}
		st := &Style{R: c.R}
		text := ""
		bracket := "$"
		gpPath := []gp.Path{gp.SelectRootPath}
		jsonable := true
		for _, k := range comps {
			sp := func() string {
				if text == "" || c.R.Intn(8) > 0 {
					return ""
				}
				return " "
			}
			text += sp() + "/"
			if len(text) > 1 {
				text += sp()
			}
			if k.wild {
				text += "*"
				bracket += "[*]"
				gpPath = append(gpPath, gp.WildcardPath)
				continue
			}
			bare := isPlainIdent(k.key) || k.key == "null" || k.key == "true" || k.key == "false"
			if n := lexNumber(k.key); n > 0 && n == len(k.key) {
				bare = true
			}
			if bare && c.R.Intn(3) > 0 {
				text += k.key
			} else {
				text += st.quote(k.key)
			}
			if isNumericName(k.key) {
				jsonable = false
			}
			bracket += "[" + st.quote(k.key) + "]"
			gpPath = append(gpPath, gp.KeySelectorPath(k.key))
		}
		want := chainRef(doc, comps)
		m := NewMon(doc, "ptr")
		c.Note("document: %s", doc)
		c.Note("query: %s", text)
		c.Note("expected: %s", locs(want))
		got := findMonText(c, m, text)
		if !sameBag(got, want) {
			c.Fail("selected %s", locs(got))
		}
		if jsonable {
			c.Note("query: %s", bracket)
			if got := findMonText(c, m, bracket); !sameBag(got, want) {
				c.Fail("%s selects %s", bracket, locs(got))
			}
			if got := findMon(c, m, gp.Append(gpPath...)); !sameBag(got, want) {
				c.Fail("path of key selectors selects %s", locs(got))
			}
			c.Count("also compared with bracket notation and constructors", 1)
		}
		c.Count("nodes selected", len(got))
		if len(got) > 0 {
			c.NonTrivial(text + doc.String())
			c.Sample(map[string]any{"query": text, "selected": locs(got)})
		}
	})
	r.Cases("indexes", r.N(4000, 40000), func(c *Case) {
		// an index is an index in every base; a key is what is written
		n := 1 + c.R.Intn(70)
		i := c.R.Intn(n + 3)
		comp := fmt.Sprintf([]string{"%d", "0x%x", "0X%X", "0b%b", "0B%b", "0o%o", "0O%o", "0x0%x"}[c.R.Intn(8)], i)
		arr, obj := VArr(), VObj(comp, VStr("key"), "k", VNull())
		if s := strconv.Itoa(i); s != comp {
			obj.Set(s, VStr("other"))
		}
		for k := 0; k < n; k++ {
			arr.Items = append(arr.Items, VInt(k))
		}
		doc := VObj("a", arr, "o", obj)
		text := "/" + []string{"a", "o", "*"}[c.R.Intn(3)] + "/" + comp
		Number(doc)
		var want []*V
		if text[1] != 'o' && i < n {
			want = append(want, arr.Items[i])
		}
		if text[1] != 'a' {
			want = append(want, obj.Items[0])
		}
		c.Note("array of %d elements and object %s", n, obj)
		c.Note("query: %s", text)
		m := NewMon(doc, "ptr")
		if got := findMonText(c, m, text); !sameBag(got, want) {
			c.Fail("selected %s, expected %s", locs(got), locs(want))
		}
		if len(want) > 0 {
			c.NonTrivial(fmt.Sprint(n, text))
		}
	})
	r.Cases("root", 40, func(c *Case) {
		doc := genDoc(c.R, DocCfg{MaxDepth: 3, MaxWidth: 3})
		m := NewMon(doc, "ptr")
		c.Note("document: %s", doc)
		got := findMonText(c, m, "/")
		if len(got) != 1 || got[0] != doc {
			c.Fail("/ selects %s", locs(got))
		}
		if got = findMon(c, m, parse(c, gp.Join())); len(got) != 1 || got[0] != doc {
			c.Fail("Join() selects %s", locs(got))
		}
		c.NonTrivial(doc.String())
	})
}

func keyFor(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return exoticKeys[r.Intn(len(exoticKeys))]
	case 1:
		return stringPool[r.Intn(len(stringPool))] + stringPool[r.Intn(len(stringPool))]
	case 2:
		w := []string{"null", "true", "false", "in", "length", "nul", "nulls", "inn", "True", "NULL", "e1", "x0", "_", "__", "1", "12", "1a", "0x1", "1e5", "1.5", "-1", "a1", "a_b", "a-b", "$x", "x$"}
		return w[r.Intn(len(w))]
	case 3:
		// quotes and backslashes
		var b strings.Builder
		for n := 1 + r.Intn(6); n > 0; n-- {
			b.WriteString([]string{"'", "\"", "\\", "a", "n", "\n", "u0041", "x41", "\r", "0"}[r.Intn(10)])
		}
		return b.String()
	}
	return randString(r, 8)
}

func checkC16(r *Run) {
	r.rule = "Case k: random strings (quotes, backslashes, control characters, all of Unicode, reserved words, numbers, operators) are made into path components with MakeKeyString and Join, and the paths have to parse and to address exactly the keys they were made from in documents that also have near misses. Distinct by string; non-trivial if the string had to be quoted."
	r.assume = []string{"strings are valid UTF-8 (paths are text)"}
	near := func(k string) []string {
		return []string{k + " ", " " + k, "\"" + k + "\"", "'" + k + "'", strings.ReplaceAll(k, "\\", ""), strings.ReplaceAll(k, "\\", "\\\\"), strings.ToLower(k), strings.ToUpper(k), strings.Trim(k, "\"'"), strconv.Quote(k), k + "\x00"}
	}
	one := func(c *Case, k string) {
		doc := VObj()
		doc.Set(k, VStr("this"))
		for _, n := range near(k) {
			if n != k && utf8.ValidString(n) {
				doc.Set(n, VStr("other"))
			}
		}
		s := gp.MakeKeyString(k)
		c.Note("key: %q", k)
		c.Note("MakeKeyString: %s", s)
		m := NewMon(doc, "ptr")
		for _, text := range []string{"$." + s, "$[" + s + "]", "$.." + s, "/" + s, gp.Join(k), "$[?(@ == 'this')]", "$[" + s + ",'nokey']"} {
			c.Note("query: %s", text)
			got := findMonText(c, m, text)
			if len(got) != 1 || got[0].S != "this" {
				c.Fail("%s selects %s", text, locs(got))
			}
			c.Count("paths checked", 1)
		}
		// in a chain
		inner := VObj("x", VInt(1))
		deep := VObj()
		deep.Set(k, inner)
		deep.Set(k+"x", VObj("x", VInt(2)))
		m = NewMon(deep, "ptr")
		for _, text := range []string{"$." + s + ".x", gp.Join(k, "x"), "$[?(@.x == $." + s + ".x)].x"} {
			c.Note("query: %s", text)
			got := findMonText(c, m, text)
			if len(got) != 1 || got[0].I != 1 {
				c.Fail("%s selects %s", text, locs(got))
			}
		}
		if s != k {
			c.NonTrivial(k)
			c.Sample(map[string]any{"key": k, "made": s})
		}
	}
	r.Cases("keys", r.N(20000, 500000), func(c *Case) { one(c, keyFor(c.R)) })
	r.Cases("long keys", r.N(800, 20000), func(c *Case) {
		// long, and with what needs quoting in one place only
		n := 8 + c.R.Intn(1<<uint(3+c.R.Intn(8)))
		b := []byte(strings.Repeat([]string{"a", "ab", "x1", "_"}[c.R.Intn(4)], n))[:n]
		k := string(b)
		for i := c.R.Intn(3); i > 0; i-- {
			x := c.R.Intn(len(k) + 1)
			k = k[:x] + []string{"'", "\"", "\\", "\n", "é", "\U0001F600", " ", "-", "\x00", "\u2028"}[c.R.Intn(10)] + k[x:]
			if !utf8.ValidString(k) {
				k = strings.ToValidUTF8(k, "?")
			}
		}
		one(c, k)
	})
	r.Cases("every rune", r.N(0x2000, 0x110000), func(c *Case) {
		v := rune(c.N)
		if !utf8.ValidRune(v) {
			c.Skip("not a character")
		}
		one(c, []string{string(v), "a" + string(v), string(v) + "1", "'" + string(v) + "\""}[c.R.Intn(4)])
	})
	r.Cases("join", r.N(20000, 400000), func(c *Case) {
		var parts []string
		n := 1 + c.R.Intn(5)
		if c.R.Intn(30) == 0 {
			n = 5 + c.R.Intn(80)
		}
		for ; n > 0; n-- {
			parts = append(parts, keyFor(c.R))
		}
		// A document with the chain, and one that differs in one part
		target := VStr("this")
		doc := VObj()
		cur := doc
		arrays := false
		for i, p := range parts {
			var next *V
			last := i == len(parts)-1
			if last {
				next = target
			} else {
				next = VObj()
			}
			if !last && isNumericName(parts[i+1]) {
				if x, _ := strconv.Atoi(parts[i+1]); x >= 0 && x < 20 && c.R.Intn(2) == 0 && strconv.Itoa(x) == parts[i+1] {
					next = VArr()
					arrays = true
				}
			}
			if cur.Kind == KArr {
				x, _ := strconv.Atoi(p)
				for len(cur.Items) < x {
					cur.Items = append(cur.Items, VStr("other"))
				}
				cur.Items = append(cur.Items, next)
				cur.Items = append(cur.Items, VStr("other"))
			} else {
				for _, n := range near(p)[:4] {
					cur.Set(n, VStr("other"))
				}
				cur.Set(p, next)
			}
			cur = next
		}
		text := gp.Join(parts...)
		c.Note("parts: %s", clip(fmt.Sprintf("%q", parts)))
		c.Note("document: %s", clip(doc.String()))
		c.Note("query: %s", text)
		m := NewMon(doc, "ptr")
		got := findMonText(c, m, text)
		if len(got) != 1 || got[0] != target {
			c.Fail("selected %s", locs(got))
		}
		if arrays {
			c.Count("with array indexes", 1)
		}
		c.NonTrivial(text)
		c.Sample(map[string]any{"parts": parts, "path": text})
	})
}

// ---- hostile input

// hostile makes path-like strings
func hostile(r *rand.Rand) string {
	frag := []string{"$", "@", "*", ".", "..", "...", "[", "]", "(", ")", "?(", ",", ":", "'", "\"", "\\", "+", "-", "~", "!", "**", "/", "%", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "in", "null", "true", "false", "a", "b", "length", "length(", "()", "0", "1", "-1", "1.5", "1e3", "0x1f", "0b1", "0o7", "1_0", "'a'", "\"b\"", "'\\u0041'", " ", "\n", "é", "\U0001F600", "#", ";", "{", "}", "=", "?", "`", "\x00", "\xff", "$a", "a-b", "[?(", ")]", "[*]", "['a']", "[0]", "[1:2]", "[::2]", "..a", "..*", "@.a", "$.a", "@.length()", "[1,2]", " in ", "0x", "1.", ".5", "1e", "'\\x4'", "'\\u{}'", "_", "/a", "/*"}
	var b strings.Builder
	if r.Intn(3) > 0 {
		b.WriteString([]string{"$", "@", "/", "$.", "$[", "$..", "$[?("}[r.Intn(7)])
	}
	for n := r.Intn(9); n >= 0; n-- {
		b.WriteString(frag[r.Intn(len(frag))])
	}
	return b.String()
}

// mutate edits a query a little
func mutate(r *rand.Rand, s string) string {
	x := []rune(s)
	ch := []rune("$@*.[]()?,:'\"\\+-~!/%<>=&^|in019aex_ \n{}#é")
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(x) == 0 {
			return "["
		}
		i := r.Intn(len(x))
		switch r.Intn(6) {
		case 0:
			x = append(x[:i:i], x[i+1:]...)
		case 1:
			x = append(x[:i:i], append([]rune{ch[r.Intn(len(ch))]}, x[i:]...)...)
		case 2:
			x = append([]rune{}, x...)
			x[i] = ch[r.Intn(len(ch))]
		case 3:
			j := r.Intn(len(x))
			x = append([]rune{}, x...)
			x[i], x[j] = x[j], x[i]
		case 4:
			j := i + r.Intn(len(x)-i)
			if j-i > 8 {
				j = i + 8
			}
			x = append(x[:j:j], append(append([]rune{}, x[i:j]...), x[j:]...)...)
		case 5:
			x = x[:i:i]
		}
	}
	return string(x)
}

func anyQueryText(c *Case) string {
	var doc *V
	if c.R.Intn(2) == 0 {
		doc = recDoc(c)
	} else {
		doc = genDoc(c.R, DocCfg{MaxDepth: 3, MaxWidth: 3, Budget: 30, Exotic: c.R.Intn(2) == 0})
	}
	cfg := allCfg()
	cfg.MaxSteps = 3
	q := newGen(c.R, doc, cfg).query()
	if c.R.Intn(8) == 0 {
		return gp.Join(keyFor(c.R), keyFor(c.R))
	}
	return style(c).path(q)
}

func checkC17(r *Run) {
	r.rule = "Case k: a valid query, a mutation of one, or a random sequence of tokens. An independent longest-match lexer and Earley recognizer of the documented grammar decides if it is well formed. Parse has to return ErrSyntax for malformed input and only for that, and must not return a usable path with an error. Part meaningless operands: a bare name or an operator that is not in the language, anywhere in an expression, is an error, but not an ErrSyntax. Distinct by input; non-trivial if malformed."
	r.assume = []string{"the grammar is the one documented in Jsonpath.g4, transcribed in harness/earley.go; letters are ASCII and a few others whose class did not change among Unicode versions"}
	verdict := func(c *Case, s string) {
		if len(s) > 400 {
			c.Skip("too long for the recognizer")
		}
		c.Note("input: %q", s)
		if nestedFilters(s) > 3 {
			c.Skip("nested bracket filters: parse time is a known finding")
		}
		toks, ok := lex(s)
		if ok && len(toks) > 90 {
			c.Skip("too long for the recognizer")
		}
		good := wellFormed(s)
		p, err := gp.Parse(s)
		var se gp.ErrSyntax
		isSyntax := errors.As(err, &se)
		if !good && err == nil {
			c.Fail("malformed, but Parse accepts it")
		}
		if !good && !isSyntax {
			c.Fail("malformed, but Parse returns %T: %v", err, err)
		}
		if good && isSyntax {
			c.Fail("well formed, but Parse returns a syntax error: %v", err)
		}
		if !good {
			// the path of a failed parse selects nothing
			res, ferr := gp.Find(gp.MapModel{Doc: map[string]any{"a": 1}}, p)
			if ferr != nil || len(res) > 0 {
				c.Fail("the path of a failed Parse selects %v, %v", res, ferr)
			}
			c.Count("malformed inputs", 1)
			c.NonTrivial(s)
			if c.N < 300 {
				c.Sample(map[string]any{"input": s, "error": fmt.Sprint(err)})
			}
		} else {
			c.Count("well formed inputs", 1)
			if err != nil {
				c.Count("well formed, but not supported", 1)
			}
		}
	}
	r.Cases("valid", r.N(6000, 80000), func(c *Case) { verdict(c, anyQueryText(c)) })
	r.Cases("mutated", r.N(40000, 800000), func(c *Case) { verdict(c, mutate(c.R, anyQueryText(c))) })
	r.Cases("tokens", r.N(40000, 1500000), func(c *Case) { verdict(c, hostile(c.R)) })
	r.Cases("meaningless operands", r.N(12000, 200000), func(c *Case) {
		// one operand, somewhere in an expression, is a bare name or an
		// operator that is not in the language
		bad := []string{"a", "name", "a.b", "a[0]", "~1", "~@.a", "1 & 2", "@.a & 1", "@.a | @.b", "1 | 2", "1 ^ 2", "@ ^ @", "a..b", "!a", "-a", "+b", "(a)", "a.length()", "length(a)", "[a]", "[1, a]", "-(@.a & 1)"}[c.R.Intn(22)]
		e := bad
		ok := func() string {
			return []string{"1", "@.a", "$.b", "'s'", "true", "null", "0", "[1,2]", "@", "length(@.a)", "@.a.length()", "(1 + 2)", "@.x[?(@.y)]", "@..a"}[c.R.Intn(14)]
		}
		for d := c.R.Intn(4); d >= 0; d-- {
			op := []string{"+", "-", "*", "/", "%", " ** ", "<", "<=", ">", ">=", " in ", "==", "!=", "===", "!==", "&&", "||"}[c.R.Intn(17)]
			switch c.R.Intn(9) {
			case 0:
				e = ok() + op + "(" + e + ")"
			case 1:
				e = "(" + e + ")" + op + ok()
			case 2:
				e = []string{"-", "!", "+"}[c.R.Intn(3)] + "(" + e + ")"
			case 3:
				e = []string{"length(" + e + ")", "length(1," + e + ")", "@.a.length(" + e + ")", "(" + e + ").length()", "f(" + e + ")"}[c.R.Intn(5)]
			case 4:
				e = []string{"[" + e + "]", "[1, " + e + "]", "[" + e + ", 2]", "@ in [" + e + ", 1]"}[c.R.Intn(4)]
			case 5:
				e = []string{"@.z[?(" + e + ")]", "$[?(" + e + ")].b", "@[0, ?(" + e + ")]", "@..[?(" + e + ")]", "@[?(" + e + "), 'k'].length()", "@.a[?(" + e + ")] == 1"}[c.R.Intn(6)]
			}
		}
		if strings.Count(e, "?(") > 3 {
			c.Skip("nested filters: parse time is a known finding")
		}
		p := []string{"$[?(X)]", "$..[?(X)]", "$.a[?(X)].b", "$[0, ?(X)]", "$[?(X), 'b', 1:2]", "$['a', ?(X)]..b", "$..x[?(X)][0]", "$[?(@.a)][?(X)]", "$.*.b[?(X)]..", "@[?(X)]"}[c.R.Intn(10)]
		if c.R.Intn(12) == 0 {
			p = []string{"$[(X)+1:2]", "$[1:(X)-1]", "$.a[::(X)]", "$..[0, :(X)]", "$[(X):, 0]", "$[:(X), *]", "$.a[1:2:(X), 'b'].c"}[c.R.Intn(7)]
		}
		s := strings.Replace(p, "X", e, 1)
		c.Note("input: %q", s)
		_, err := gp.Parse(s)
		if err == nil {
			c.Fail("%s cannot be evaluated, but Parse returns no error", bad)
		}
		var se gp.ErrSyntax
		if errors.As(err, &se) {
			c.Fail("the text is derivable from the grammar, but Parse returns %q", err)
		}
		c.NonTrivial(s)
	})
	r.Cases("trailing and leading", r.N(10000, 100000), func(c *Case) {
		q := anyQueryText(c)
		junk := []string{"]", ")", ".", "'", "\"", "#", "}", "\\", "=", " x", "$", "@@", "]]", ")]", "'a", "?", "?(", ",", ":", "\x00", "é", "~", "..", "[", "[?(", " ", "\n", "//", "/"}
		j := junk[c.R.Intn(len(junk))]
		if c.R.Intn(3) == 0 {
			q = j + q
		} else {
			q += j
		}
		verdict(c, q)
	})
	r.Cases("fixed", len(malformedFixed), func(c *Case) {
		s := malformedFixed[c.N]
		if wellFormed(s) {
			panic(harnessBug("the recognizer is wrong about " + s))
		}
		verdict(c, s)
	})
}

var malformedFixed = []string{"", " ", "$.", "$[", "$]", "$[]x", "$[0", "$[0]]", "$..[", "$['a", "$[\"a]", "$['a\"]", "$[?(", "$[?(@.a]", "$[?@.a]", "$[?(@.a)", "$.a b", "$ $", "$.a,", "$a b",
	"//", "/a/", "/a//b", "/a b", "/ a", "/a]", "/-1", "/a.b", "/a[0]", "$.#", "$['\\x4']", "$['\\u12']", "$['\\u{}']", "$['a\nb']", "$.a=1", "$[?(@.a = 1)]", "$[?(@.a & & 1)]", "$[?()]", "$[?( @.a )]",
	"$.1a", "0x", "1__.", "$[,]x(", "$.a..b.", "$...a", "{}", "$[{}]", "$.{a}", "`a`", "$.a;", "a b", "$[?(@.a == )]", "$[?(== 1)]", "$[?(@.a ==== 1)]", "$[?(@.a in)]", "$['a''b']", "$[0 1]", "$[0:1:2:3]", "(", ")", "$(", "$.length(", "$.length(1", "~", "!", "-", "+", "\xff\xfe", "$['\\"}

func nestedFilters(s string) int {
	// crude bound of the nesting of [ and ?(
	max, cur := 0, 0
	for i := 0; i < len(s); i++ {
		switch {
		case strings.HasPrefix(s[i:], "?("):
			cur++
			if cur > max {
				max = cur
			}
		case s[i] == ')':
			if cur > 0 {
				cur--
			}
		}
	}
	return max
}

func checkC18(r *Run) {
	r.rule = "Case k: a hostile or valid path string, parsed, and if accepted run with Find and Search on several documents through every kind of model. No panic, no runaway recursion, no unbounded work (calls to the model are budgeted, a watchdog ends what does not return). Part operands goes through every operator and notation with operands that are expressions, or only look like it. Distinct by input; non-trivial if Parse accepts the input and it is evaluated."
	r.assume = []string{"a case that makes 50 million calls to the document model, or takes 150 s, does not end", "inputs with filters nested deeper than 4 are bounded by C28's known finding and not generated"}
	docs := func(c *Case) []*V {
		out := []*V{VNull(), VInt(1), VArr(), VObj(), VArr(VArr(), VNull(), VObj("a", VNull())),
			VObj("a", VArr(VInt(1), VFloat(2.5), VStr("x")), "b", VObj("a", VBool(true), "length", VInt(3)), "length", VStr("l"), "null", VInt(0)),
			recDoc(c)}
		return out
	}
	eval := func(c *Case, s string) {
		c.Note("input: %q", s)
		if len(s) > 2000 || nestedFilters(s) > 4 {
			c.Skip("beyond the bounds")
		}
		p, err := gp.Parse(s)
		if err != nil {
			if strings.TrimSpace(err.Error()) == "" {
				c.Fail("an error without a message")
			}
			c.Count("rejected", 1)
			return
		}
		for _, d := range docs(c) {
			c.Note("document: %s", d)
			m := NewMon(d, reprs[c.R.Intn(len(reprs))])
			gp.Find(m, p)
			n := 0
			gp.Search(m, p, func(gp.DocPath) { n++ })
			if c.R.Intn(2) == 0 {
				gp.Find(gp.MapModel{Doc: d.Go(c.R.Intn(2) == 0)}, p)
			} else {
				gp.ParseAndFind(gp.MapModel{Doc: d.Go(c.R.Intn(2) == 0)}, s)
			}
			c.Count("evaluations", 3)
			c.Count("nodes selected", n)
			c.Count("document model calls observed", int(m.total))
			c.desc = c.desc[:len(c.desc)-1]
		}
		c.NonTrivial(s)
		if c.N < 100 {
			c.Sample(s)
		}
	}
	r.Cases("tokens", r.N(30000, 1200000), func(c *Case) { eval(c, hostile(c.R)) })
	r.Cases("mutated", r.N(25000, 600000), func(c *Case) { eval(c, mutate(c.R, anyQueryText(c))) })
	r.Cases("grammar", r.N(28000, 1000000), func(c *Case) { eval(c, derive(c.R, 0)) })
	// every operator and notation with operands that the grammar allows
	// there, and that are expressions or not
	xs := []string{"@.a", "$", "@", "1", "'s'", "null", "true", "[1,2]", "[]", "(1)", "a", "*", "a.b", "a..b", "a..", "a[0]", "..a", "@..", "f(1)", "length(@.a)", "@.a.length()", "@.f()", "a.f()", "f(a)", "[a]", "~1", "1&2", "?(@.a)", "?(a)", "-a", "!a", "(a)", "@[?(a)]", "@[a:b]", "@[a()]", "@.a.(b)", "a()()", "1.5", "*.a", "$.a[?(@)]"}
	forms := []string{"L+R", "L-R", "L*R", "L/R", "L%R", "L ** R", "L<R", "L<=R", "L>R", "L>=R", "L in R", "L==R", "L!=R", "L===R", "L!==R", "L&R", "L^R", "L|R", "L&&R", "L||R", "L.R", "L..R", "L[R]", "L[L:R]", "L[::R]", "L[L,R]", "[L,R]", "length(L,R)", "L.length(R)", "L(R)", "-L", "+L", "!L", "~L", "(L)", "?(L)", "L..[R]", "(L).length()", "L.R()"}
	places := []string{"$[?(X)]", "$..[?(X)]", "$.a[?(1 == X)]", "$[?(@ in [X])]", "$[X]", "$[X:]", "$[::X]", "$[0,X]", "$.X", "$..X", "$.a.length(X)", "$[?(!(X))]", "$[?(@[?(X)])]", "X", "$[?(length(X) == 0)]", "$[?(X.length() == 0)]"}
	r.Cases("operands", len(forms)*len(xs)*2*r.N(4, 64), func(c *Case) {
		k := c.N
		form := forms[k%len(forms)]
		k /= len(forms)
		x, y := xs[k%len(xs)], xs[c.R.Intn(len(xs))]
		k /= len(xs)
		if k%2 == 1 {
			x, y = y, x
		}
		e := strings.NewReplacer("L", x, "R", y).Replace(form)
		eval(c, strings.Replace(places[c.R.Intn(len(places))], "X", e, 1))
	})
	r.Cases("bytes", r.N(20000, 400000), func(c *Case) {
		b := make([]byte, c.R.Intn(24))
		for i := range b {
			if c.R.Intn(3) == 0 {
				b[i] = byte(c.R.Intn(256))
			} else {
				const chs = "$@*.[]()?,:'\"\\+-~!/%<>=&^|in019aex_ "
				b[i] = chs[c.R.Intn(len(chs))]
			}
		}
		eval(c, string(b))
	})
	r.Cases("constructed", r.N(10000, 200000), func(c *Case) {
		// any composition of constructors evaluates
		pieces := []gp.Path{{}, gp.SelectRootPath, gp.SelectCurrentPath, gp.WildcardPath, gp.KeySelectorPath("a"), gp.KeySelectorPath(""), gp.KeySelectorPath("0"), gp.IndexSelectorPath(0), gp.IndexSelectorPath(-1), gp.IndexSelectorPath(1 << 62), gp.IndexSelectorPath(-1 << 63), gp.RecursiveDescent(gp.Path{}), gp.RecursiveDescent(gp.SelectRootPath), gp.RecursiveDescent(gp.WildcardPath), gp.RecursiveDescent(gp.RecursiveDescent(gp.KeySelectorPath("a")))}
		var ps []gp.Path
		for n := c.R.Intn(5); n > 0; n-- {
			k := c.R.Intn(len(pieces))
			c.Note("piece %d", k)
			ps = append(ps, pieces[k])
		}
		p := gp.Append(ps...)
		if c.R.Intn(3) == 0 {
			p = gp.RecursiveDescent(p)
		}
		for _, d := range docs(c) {
			m := NewMon(d, "fat")
			gp.Find(m, p)
			gp.Search(m, p, func(x gp.DocPath) { x.Last() })
		}
		c.NonTrivial(fmt.Sprint(c.desc))
	})
	r.Cases("escapes", r.N(6000, 100000), func(c *Case) {
		// escapes at and beyond the ends of what they can stand for
		var b strings.Builder
		for n := 1 + c.R.Intn(3); n > 0; n-- {
			v := []int{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x111111, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff}[c.R.Intn(25)]
			switch x := strconv.FormatInt(int64(v), 16); c.R.Intn(6) {
			case 0, 1:
				b.WriteString(`\u{` + strings.Repeat("0", c.R.Intn(3)*c.R.Intn(8)) + x + strings.Repeat("0", c.R.Intn(2)*c.R.Intn(16)) + `}`)
			case 2:
				b.WriteString(`\u` + fmt.Sprintf("%04x", v&0xffff))
			case 3:
				b.WriteString(`\x` + fmt.Sprintf("%02x", v&0xff))
			case 4:
				b.WriteString(`\` + string(rune(v)))
			case 5:
				b.WriteString(x)
			}
		}
		s := "'" + b.String() + "'"
		if c.R.Intn(2) == 0 {
			s = `"` + b.String() + `"`
		}
		eval(c, []string{"$[" + s + "]", "$.." + s, "$." + s, "/" + s, "$[?(@ == " + s + ")]", "$[?(@ in ['x', " + s + "])]", "$[" + s + ":]"}[c.R.Intn(7)])
	})
	r.Cases("big numbers", r.N(5000, 60000), func(c *Case) {
		n := func() string {
			return []string{"", "0", "-0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "-99999999999999999999999", "1e308", "1e999", "-1e999", "0.5", "'1'", "'x'", "true", "null", "0xffffffffffffffff", "0x7fffffffffffffff", "4294967296", "@.a", "$", "$.length()", "$.*", "(1 + 1)"}[c.R.Intn(24)]
		}
		s := "$[" + n() + ":" + n() + ":" + n() + "]"
		switch c.R.Intn(5) {
		case 0:
			s = "$[" + n() + "]"
		case 1:
			s = "$.." + s[1:]
		case 2:
			s = "$.*" + "[" + n() + "," + s[2:]
		case 3:
			s = "$[?(" + n() + []string{"+", "-", "*", "/", "%", "**", "<", "=="}[c.R.Intn(8)] + n() + ")]"
		}
		eval(c, s)
	})
}

// derive makes a random string of the grammar, all of it, supported or not
func derive(r *rand.Rand, d int) string {
	if d == 0 {
		switch r.Intn(10) {
		case 0:
			s := ""
			for n := 1 + r.Intn(3); n > 0; n-- {
				s += "/" + []string{"a", "*", "0", "'a'", "null", "1.5", "\"\"", "0x1", "true", "b"}[r.Intn(10)]
			}
			return s
		case 1:
			return derive(r, 1)
		}
		return "$" + deriveTail(r, 1)
	}
	if d > 4 {
		return []string{"1", "a", "@", "$", "'x'", "*", "null", "true", "0.5"}[r.Intn(9)]
	}
	e := func() string { return derive(r, d+1) }
	idx := func() string {
		opt := func() string {
			if r.Intn(3) == 0 {
				return ""
			}
			return e()
		}
		switch r.Intn(4) {
		case 0:
			return opt() + ":" + opt()
		case 1:
			return opt() + ":" + opt() + ":" + opt()
		case 2:
			if d <= 2 {
				return "?(" + e() + ")"
			}
		}
		return e()
	}
	idxs := func() string {
		s := idx()
		for r.Intn(3) == 0 {
			s += "," + idx()
		}
		return s
	}
	switch r.Intn(17) {
	case 0, 1:
		return e() + "." + e()
	case 2:
		return e() + ".." + e()
	case 3:
		return e() + ".."
	case 4:
		return e() + "[" + idxs() + "]"
	case 5:
		return e() + "..[" + idxs() + "]"
	case 6:
		args := ""
		for n := r.Intn(3); n > 0; n-- {
			if args != "" {
				args += ","
			}
			args += e()
		}
		return []string{"length", "foo", e()}[r.Intn(3)] + "(" + args + ")"
	case 7:
		return []string{"+", "-", "~", "!"}[r.Intn(4)] + e()
	case 8, 9, 10:
		ops := []string{"**", "*", "/", "%", "+", "-", "<", ">", "<=", ">=", " in ", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||"}
		return e() + " " + ops[r.Intn(len(ops))] + " " + e()
	case 11:
		s := ""
		for n := r.Intn(4); n > 0; n-- {
			if s != "" {
				s += ","
			}
			s += e()
		}
		return "[" + s + "]"
	case 12:
		return "(" + e() + ")"
	case 13:
		if d <= 2 {
			return "?(" + e() + ")"
		}
		return "(" + e() + ")"
	case 14:
		return "@" + deriveTail(r, d+1)
	case 15:
		return "$" + deriveTail(r, d+1)
	}
	return derive(r, 9)
}

func deriveTail(r *rand.Rand, d int) string {
	s := ""
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(7) {
		case 0, 1:
			s += "." + []string{"a", "b", "*", "'a'", "length", "0", "$", "@", "null"}[r.Intn(9)]
		case 2:
			s += ".." + []string{"a", "*", "[0]", "'b'", ""}[r.Intn(5)]
		case 3:
			s += "[" + derive(r, d+1) + "]"
		case 4:
			if d <= 2 {
				s += "[?(" + derive(r, d+1) + ")]"
			}
		case 5:
			s += "[" + []string{"0", "-1", "1:2", "::2", "::-1", "'a','b'", "*", ":", "0,1", "1:"}[r.Intn(10)] + "]"
		case 6:
			s += ".length()"
		}
	}
	return s
}

// ---- C32

// place returns the position in the text, in runes, that a syntax error gives
func place(text, msg string) (pos int, why string) {
	var line, col int
	i := strings.Index(msg, "line ")
	if i < 0 {
		return 0, "there is no line"
	}
	if n, _ := fmt.Sscanf(msg[i:], "line %d:%d", &line, &col); n != 2 {
		return 0, "there is no line and column"
	}
	lines := strings.Split(string([]rune(text)), "\n")
	if line < 1 || line > len(lines) {
		return 0, fmt.Sprintf("line %d of %d", line, len(lines))
	}
	for _, l := range lines[:line-1] {
		pos += utf8.RuneCountInString(l) + 1
	}
	if n := utf8.RuneCountInString(lines[line-1]); col < 0 || col > n {
		return 0, fmt.Sprintf("column %d of a line of %d characters", col, n)
	}
	return pos + col, ""
}

func checkC32(r *Run) {
	r.rule = "Case k: a mutated, random, or wrongly continued text. For a text that is not well formed by the independent recognizer, the place in the error of Parse and of ParseAndFind is compared with the places at which the recognizer finds that no well-formed text begins with what was read. Distinct by text; non-trivial if malformed."
	r.assume = []string{"the grammar is the one documented in Jsonpath.g4, transcribed in harness/earley.go", "lines are counted from 1, columns from 0 in characters, as ANTLR does"}
	judge := func(c *Case, s string, exact bool) {
		if len(s) > 400 {
			c.Skip("too long for the recognizer")
		}
		if nestedFilters(s) > 3 {
			c.Skip("nested bracket filters: parse time is a known finding")
		}
		if toks, _ := lex(s); len(toks) > 90 {
			c.Skip("too long for the recognizer")
		}
		c.Note("input: %q", s)
		_, err := gp.Parse(s)
		if wellFormed(s) {
			var ie gp.ErrInvalidExpression
			if err != nil && !errors.As(err, &ie) && !errors.Is(err, gp.ErrInvalidAST) {
				c.Fail("well formed; the error is %T: %v", err, err)
			}
			if err != nil {
				c.Count("well formed, but not supported", 1)
			}
			return
		}
		var se gp.ErrSyntax
		if !errors.As(err, &se) {
			c.Fail("malformed, but Parse returns %T: %v", err, err)
		}
		c.Note("error: %v", err)
		if !strings.Contains(err.Error(), s) && utf8.ValidString(s) {
			c.Fail("the error does not contain the text")
		}
		_, err2 := gp.ParseAndFind(gp.MapModel{}, s)
		if err2 == nil || err2.Error() != err.Error() || !errors.As(err2, &se) {
			c.Fail("ParseAndFind returns %T: %v", err2, err2)
		}
		pos, why := place(s, se.Error())
		if why != "" {
			c.Fail("the error does not give a place in the text: %s", why)
		}
		misplaced, unreadable := errorPlaces(s)
		first := misplaced
		if first < 0 || unreadable >= 0 && unreadable < first {
			first = unreadable
		}
		switch {
		case pos == first:
			c.Count("the very place", 1)
		case exact:
			c.Fail("place %d, but the mistake is at %d", pos, first)
		case pos == unreadable:
			// prediction reads the tokens after the misplaced one, too
			c.Count("an unreadable character after it", 1)
		case pos > first:
			c.Fail("place %d, but the first mistake is at %d", pos, first)
		default:
			c.Count("an earlier place", 1)
		}
		c.NonTrivial(s)
		c.Sample(map[string]any{"input": s, "error": fmt.Sprint(err)})
	}
	r.Cases("mutated", r.N(30000, 600000), func(c *Case) { judge(c, mutate(c.R, anyQueryText(c)), false) })
	r.Cases("tokens", r.N(20000, 600000), func(c *Case) { judge(c, hostile(c.R), false) })
	r.Cases("continued", r.N(15000, 300000), func(c *Case) {
		// a query and a token that cannot follow it
		q := anyQueryText(c)
		j := []string{"]", ")", "$", "@@", "]]", ")]", "'a'", ",", ":", "x", "1", " x", "\n]", "]\n", "#", "{", "\\", "'", "\"", ";"}
		q += j[c.R.Intn(len(j))]
		judge(c, q, !strings.Contains(q, "..") && !wellFormed(q))
	})
	r.Cases("two mistakes", r.N(10000, 200000), func(c *Case) {
		// the first one counts
		q := anyQueryText(c)
		q += []string{"]", ")", " ]", "\n)", "] "}[c.R.Intn(5)]
		q += []string{".b.c", "[1] ['x']", "\n.a", " == 1", "/a"}[c.R.Intn(5)]
		q += []string{"#", "]", " 'a", "\n;", "{}", "\n"}[c.R.Intn(6)]
		judge(c, q, !strings.Contains(q, "..") && !wellFormed(q))
	})
	r.Cases("unreadable", r.N(15000, 300000), func(c *Case) {
		// a character that is none of the language's in a query
		rs := []rune(anyQueryText(c))
		i := c.R.Intn(len(rs) + 1)
		bad := []rune{'#', '{', '}', ';', '`', 0, 0x7f, '😀', '€'}[c.R.Intn(9)]
		judge(c, string(rs[:i])+string(bad)+string(rs[i:]), false)
	})
}
