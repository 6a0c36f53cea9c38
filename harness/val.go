package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// The harness' own document representation. Documents handed to the code
// under test are built from it, and the reference evaluator works on it.

type Kind int

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat
	KStr
	KArr
	KObj
)

type V struct {
	Kind  Kind
	B     bool
	I     int
	F     float64
	S     string
	Items []*V     // array elements, or object values
	Keys  []string // object keys, parallel to Items

	// Filled by Number()
	ID     int
	Parent *V
	Key    string
	Idx    int
	Depth  int
	where  map[string]int // places of the keys of a large object
}

func (v *V) isContainer() bool { return v.Kind == KArr || v.Kind == KObj }

func VNull() *V           { return &V{Kind: KNull} }
func VBool(b bool) *V     { return &V{Kind: KBool, B: b} }
func VInt(i int) *V       { return &V{Kind: KInt, I: i} }
func VFloat(f float64) *V { return &V{Kind: KFloat, F: f} }
func VStr(s string) *V    { return &V{Kind: KStr, S: s} }
func VArr(i ...*V) *V     { return &V{Kind: KArr, Items: i} }
func VObj(kv ...any) *V {
	r := &V{Kind: KObj}
	for i := 0; i < len(kv); i += 2 {
		r.Set(kv[i].(string), kv[i+1].(*V))
	}
	return r
}

func (v *V) Set(k string, x *V) {
	for i := range v.Keys {
		if v.Keys[i] == k {
			v.Items[i] = x
			return
		}
	}
	v.Keys = append(v.Keys, k)
	v.Items = append(v.Items, x)
}

func (v *V) Get(k string) *V {
	if i, ok := v.where[k]; ok && i < len(v.Keys) && v.Keys[i] == k {
		return v.Items[i]
	}
	for i := range v.Keys {
		if v.Keys[i] == k {
			return v.Items[i]
		}
	}
	return nil
}

// Number assigns preorder ids, parents; returns all nodes in preorder
func Number(root *V) []*V {
	var all []*V
	var walk func(v, parent *V, key string, idx, depth int)
	walk = func(v, parent *V, key string, idx, depth int) {
		v.ID = len(all)
		v.Parent = parent
		v.Key = key
		v.Idx = idx
		v.Depth = depth
		all = append(all, v)
		v.where = nil
		if len(v.Keys) > 30 {
			v.where = make(map[string]int, len(v.Keys))
			for i, k := range v.Keys {
				v.where[k] = i
			}
		}
		for i, c := range v.Items {
			if v.Kind == KObj {
				walk(c, v, v.Keys[i], 0, depth+1)
			} else {
				walk(c, v, "", i, depth+1)
			}
		}
	}
	walk(root, nil, "", 0, 0)
	return all
}

// Go value of the tree. If jsonMode, all numbers are float64, as encoding/json does
func (v *V) Go(jsonMode bool) any {
	switch v.Kind {
	case KNull:
		return nil
	case KBool:
		return v.B
	case KInt:
		if jsonMode {
			return float64(v.I)
		}
		return v.I
	case KFloat:
		return v.F
	case KStr:
		return v.S
	case KArr:
		r := make([]any, len(v.Items))
		for i, x := range v.Items {
			r[i] = x.Go(jsonMode)
		}
		return r
	}
	r := make(map[string]any, len(v.Items))
	for i, x := range v.Items {
		r[v.Keys[i]] = x.Go(jsonMode)
	}
	return r
}

// ToJSONNumbers returns a copy in which all integers are floats
func (v *V) ToJSONNumbers() *V {
	c := *v
	if c.Kind == KInt {
		c.Kind = KFloat
		c.F = float64(c.I)
	}
	c.Items = make([]*V, len(v.Items))
	for i := range v.Items {
		c.Items[i] = v.Items[i].ToJSONNumbers()
	}
	return &c
}

func (v *V) String() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func quoteJSON(s string) string {
	x, _ := json.Marshal(s)
	return string(x)
}

func (v *V) write(b *strings.Builder) {
	switch v.Kind {
	case KNull:
		b.WriteString("null")
	case KBool:
		fmt.Fprint(b, v.B)
	case KInt:
		fmt.Fprint(b, v.I)
	case KFloat:
		s := strconv.FormatFloat(v.F, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") && !math.IsInf(v.F, 0) && !math.IsNaN(v.F) {
			s += ".0"
		}
		b.WriteString(s)
	case KStr:
		b.WriteString(quoteJSON(v.S))
	case KArr:
		b.WriteByte('[')
		for i, x := range v.Items {
			if i > 0 {
				b.WriteByte(',')
			}
			x.write(b)
		}
		b.WriteByte(']')
	case KObj:
		b.WriteByte('{')
		for i, x := range v.Items {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quoteJSON(v.Keys[i]))
			b.WriteByte(':')
			x.write(b)
		}
		b.WriteByte('}')
	}
}

// Loc is a readable location of a numbered node
func (v *V) Loc() string {
	if v == nil {
		return "(not a node of the document)"
	}
	if v.Parent == nil {
		return "$"
	}
	if v.Parent.Kind == KObj {
		return v.Parent.Loc() + "[" + quoteJSON(v.Key) + "]"
	}
	return v.Parent.Loc() + fmt.Sprintf("[%d]", v.Idx)
}

// ---- generators ----

type DocCfg struct {
	MaxDepth int
	MaxWidth int
	Budget   int // total nodes
	Keys     []string
	Exotic   bool // use exotic keys
	Typed    bool // keys n,m are mostly numbers, s,t strings, f bool, arrays under r
}

var plainKeys = []string{"a", "b", "c", "d", "key", "id", "n", "s"}
var typedKeys = []string{"n", "m", "n", "m", "s", "t", "f", "z", "r", "o", "a", "b"}
var exoticKeys = []string{"a", "b", "", " ", "a b", "a.b", "a-b", "$", "@", "*", "..", "null", "true", "false", "in", "length", "é", "日本", "\U0001F600", "'", "\"", "\\", "a'b\"c", "\n", "\t", "[0]", "0x", "_x", "$a", "A", "e\u0301", "/", "a/b", "~", "#", "?(", ":", ","}

// randKey makes keys of few characters of every kind: any of them alone, and words
func randKey(r *rand.Rand) string {
	const ident = "abzAZ_$xn019-"
	switch r.Intn(4) {
	case 0:
		return string(rune(0x20 + r.Intn(0x5f)))
	case 1:
		return string(rune(ident[r.Intn(8)]))
	case 2:
		w := []string{"null", "true", "false", "in", "length", "nulls", "trues", "int", "Null", "this", "undefined", "NaN", "Infinity", "key", "index", "root", "parent", "__proto__", "a_b", "a-b", "-", "--", "$$", "@a", "1a", "a1", "00", "1", "-0", "+1"}
		return w[r.Intn(len(w))]
	}
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		b.WriteByte(ident[r.Intn(len(ident))])
	}
	return b.String()
}

func genScalar(r *rand.Rand) *V {
	switch r.Intn(9) {
	case 0:
		return VNull()
	case 1:
		return VBool(r.Intn(2) == 0)
	case 2, 3:
		return VInt(r.Intn(7) - 2)
	case 4:
		return VFloat(float64(r.Intn(13)-4) / 2)
	case 5:
		return VFloat(float64(r.Intn(5)))
	case 6:
		return VStr([]string{"", "a", "b", "x", "abc", "1", "2", "0", "-1", "1.5", "key", "true", "null"}[r.Intn(13)])
	case 7:
		return VStr(string(rune('a' + r.Intn(4))))
	}
	return VInt(r.Intn(3))
}

func genNumber(r *rand.Rand) *V {
	switch r.Intn(4) {
	case 0:
		return VFloat(float64(r.Intn(17)-8) / 2)
	case 1:
		return VFloat(float64(r.Intn(9) - 4))
	}
	return VInt(r.Intn(13) - 4)
}

func genString(r *rand.Rand) *V {
	return VStr([]string{"", "a", "b", "ab", "B", "aa", "abc", "é", "z", "10", "9", "x y"}[r.Intn(12)])
}

func genDoc(r *rand.Rand, c DocCfg) *V {
	budget := c.Budget
	if budget == 0 {
		budget = 40
	}
	keys := c.Keys
	if keys == nil {
		switch {
		case c.Exotic:
			keys = append([]string(nil), exoticKeys...)
			for n := r.Intn(12); n > 0; n-- {
				k := randKey(r)
				keys = append(keys, k, k, k)
			}
		case c.Typed:
			keys = typedKeys
		default:
			keys = plainKeys
		}
	}
	var gen func(depth int, root bool) *V
	gen = func(depth int, root bool) *V {
		budget--
		p := r.Intn(10)
		if depth <= 0 || budget <= 0 || (!root && p < 4) {
			return genScalar(r)
		}
		if root && p == 0 && r.Intn(4) == 0 {
			return genScalar(r)
		}
		w := r.Intn(c.MaxWidth + 1)
		if root && w == 0 && r.Intn(4) != 0 {
			w = 1 + r.Intn(c.MaxWidth)
		}
		if r.Intn(2) == 0 {
			v := &V{Kind: KArr}
			for i := 0; i < w; i++ {
				v.Items = append(v.Items, gen(depth-1, false))
			}
			return v
		}
		v := &V{Kind: KObj}
		for i := 0; i < w; i++ {
			k := keys[r.Intn(len(keys))]
			var x *V
			if c.Typed && r.Intn(10) > 0 {
				switch k {
				case "n", "m":
					x = genNumber(r)
				case "s", "t":
					x = genString(r)
				case "f":
					x = VBool(r.Intn(2) == 0)
				case "z":
					x = VNull()
				case "r":
					x = &V{Kind: KArr}
					for j := r.Intn(4); j > 0; j-- {
						if r.Intn(2) == 0 {
							x.Items = append(x.Items, genNumber(r))
						} else {
							x.Items = append(x.Items, genString(r))
						}
					}
				}
			}
			if x == nil {
				x = gen(depth-1, false)
			}
			v.Set(k, x)
		}
		return v
	}
	return gen(c.MaxDepth, true)
}

// genRecords makes an array (or object) of records with typed fields: what
// filters are used on.
func genRecords(r *rand.Rand, n int) *V {
	mk := func() *V {
		o := &V{Kind: KObj}
		for _, k := range []string{"n", "m", "s", "t", "f", "r", "o", "z"} {
			if r.Intn(5) == 0 {
				continue
			}
			var x *V
			switch {
			case r.Intn(12) == 0:
				x = genDoc(r, DocCfg{MaxDepth: 2, MaxWidth: 3, Budget: 5})
			case k == "n" || k == "m":
				x = genNumber(r)
			case k == "s" || k == "t":
				x = genString(r)
			case k == "f":
				x = VBool(r.Intn(2) == 0)
			case k == "z":
				x = VNull()
			case k == "r":
				x = &V{Kind: KArr}
				for j := r.Intn(5); j > 0; j-- {
					switch r.Intn(4) {
					case 0:
						x.Items = append(x.Items, genString(r))
					case 1:
						x.Items = append(x.Items, VObj("n", genNumber(r), "s", genString(r)))
					default:
						x.Items = append(x.Items, genNumber(r))
					}
				}
			case k == "o":
				x = VObj("n", genNumber(r), "s", genString(r), "r", VArr(genNumber(r), genNumber(r)))
			}
			o.Set(k, x)
		}
		return o
	}
	var items *V
	if r.Intn(3) == 0 {
		items = &V{Kind: KObj}
		for i := 0; i < n; i++ {
			items.Set(fmt.Sprintf("k%d", i), mk())
		}
	} else {
		items = &V{Kind: KArr}
		for i := 0; i < n; i++ {
			items.Items = append(items.Items, mk())
		}
	}
	if r.Intn(4) == 0 {
		return items
	}
	root := VObj("items", items)
	root.Set("n", genNumber(r))
	root.Set("s", genString(r))
	root.Set("r", VArr(genNumber(r), genString(r), genNumber(r)))
	root.Set("o", mk())
	return root
}
