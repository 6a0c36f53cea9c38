package main

import (
	"fmt"
	"sort"
	"strings"

	gp "github.com/bserdar/gojsonpath"
)

// ---- running the code under test, and comparing with the reference

type outcome struct {
	nodes []*V // what the engine returned, for MonModel documents
	bad   string
}

func parse(c *Case, q string) gp.Path {
	p, err := gp.Parse(q)
	if err != nil {
		c.Note("query: %s", q)
		c.Fail("Parse rejects a valid query: %v", err)
	}
	return p
}

// find runs Find, or Search
func find(c *Case, m gp.DocModel, p gp.Path) ([]any, error) {
	if c.R.Intn(4) > 0 {
		return gp.Find(m, p)
	}
	var res []any
	err := gp.Search(m, p, func(x gp.DocPath) { res = append(res, x.Last().Node) })
	return res, err
}

// findText runs ParseAndFind, or Parse and then Find or Search
func findText(c *Case, m gp.DocModel, text string) ([]any, error) {
	if c.R.Intn(4) == 0 {
		return gp.ParseAndFind(m, text)
	}
	return find(c, m, parse(c, text))
}

// findMon runs Find or Search on a monitored model
func findMon(c *Case, m *MonModel, p gp.Path) []*V {
	res, err := find(c, m, p)
	if err != nil {
		c.Fail("Find: unexpected error %v", err)
	}
	return monNodes(c, m, res)
}

// justFind runs Find on a monitored model
func justFind(c *Case, m *MonModel, p gp.Path) []*V {
	res, err := gp.Find(m, p)
	if err != nil {
		c.Fail("Find: unexpected error %v", err)
	}
	return monNodes(c, m, res)
}

// findMonText is findMon for a text
func findMonText(c *Case, m *MonModel, text string) []*V {
	res, err := findText(c, m, text)
	if err != nil {
		c.Fail("unexpected error %v", err)
	}
	return monNodes(c, m, res)
}

func monNodes(c *Case, m *MonModel, res []any) []*V {
	out := make([]*V, len(res))
	for i, x := range res {
		out[i] = m.V(x)
		if out[i] == nil {
			c.Fail("Find returned %T(%v), which is not a node of the document", x, x)
		}
	}
	return out
}

func locs(nodes []*V) string {
	s := make([]string, 0, len(nodes))
	for i, n := range nodes {
		if i == 60 {
			s = append(s, fmt.Sprintf("... %d in all", len(nodes)))
			break
		}
		s = append(s, n.Loc())
	}
	return "[" + strings.Join(s, "  ") + "]"
}

func sameOrder(a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameBag(a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[*V]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

// diffOpts: how a differential case is run
type diffOpts struct {
	order bool // results have to come in traversal order
}

// differential checks one query against the reference evaluator
func differential(c *Case, doc *V, q *PathQ, text string, o diffOpts) {
	c.Note("document: %s", clip(doc.String()))
	c.Note("query: %s", clip(text))
	all := Number(doc)
	want, why, ok := refEval(doc, q)
	if !ok {
		c.Skip(why)
	}
	c.Note("expected: %s", locs(want))
	var nres int
	useMap := !o.order && c.R.Intn(3) == 0
	if useMap {
		jsonMode := c.R.Intn(2) == 0
		if jsonMode {
			doc = doc.ToJSONNumbers()
			Number(doc)
			if want, why, ok = refEval(doc, q); !ok {
				c.Skip(why)
			}
		}
		res, err := findText(c, gp.MapModel{Doc: doc.Go(false)}, text)
		if err != nil {
			c.Fail("Find: unexpected error %v", err)
		}
		got := make([]string, len(res))
		for i, x := range res {
			got[i] = goString(x)
		}
		exp := make([]string, len(want))
		for i, x := range want {
			exp[i] = goString(x.Go(false))
		}
		sort.Strings(got)
		sort.Strings(exp)
		nres = len(got)
		if strings.Join(got, "\x00") != strings.Join(exp, "\x00") {
			c.Fail("MapModel: expected the values %s, got %s", clip(strings.Join(exp, " ")), clip(strings.Join(got, " ")))
		}
		c.Count("MapModel executions", 1)
	} else {
		m := NewMon(doc, "ptr")
		got := findMonText(c, m, text)
		nres = len(got)
		if o.order {
			if !sameOrder(got, want) {
				c.Fail("selected (in this order): %s", locs(got))
			}
		} else if !sameBag(got, want) {
			c.Fail("selected: %s", locs(got))
		}
		c.Count("document model calls observed", int(m.total))
	}
	c.Count("nodes selected", nres)
	if nres > 0 {
		c.Count("cases with results", 1)
		if nres < len(all) {
			c.NonTrivial(text + "\x00" + doc.String())
		}
		if c.N < 200 {
			c.Sample(map[string]any{"document": clip(doc.String()), "query": clip(text), "selected": clip(locs(want))})
		}
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// goString writes a Go document value canonically, with types
func goString(x any) string {
	switch v := x.(type) {
	case map[string]any:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteByte('{')
		for _, k := range ks {
			fmt.Fprintf(&b, "%q:%s,", k, goString(v[k]))
		}
		b.WriteByte('}')
		return b.String()
	case []any:
		var b strings.Builder
		b.WriteByte('[')
		for _, y := range v {
			b.WriteString(goString(y))
			b.WriteByte(',')
		}
		b.WriteByte(']')
		return b.String()
	case string:
		return fmt.Sprintf("%q", v)
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

// style makes a random notation of moderate variety
func style(c *Case) *Style {
	s := &Style{R: c.R}
	switch c.R.Intn(4) {
	case 0:
		s.Plain = true
	case 1:
		s.Spaces = true
	}
	s.Simple = c.R.Intn(4) == 0
	return s
}
