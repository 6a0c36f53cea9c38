package main

import (
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"

	gp "github.com/bserdar/gojsonpath"
)

// MonModel is a gp.DocModel over a V tree that monitors every call the
// engine makes: the node has to be one this model handed out, and the call
// has to be within the documented contract of DocModel for that kind of
// node. Breaches are recorded, and the call is answered harmlessly.
type MonModel struct {
	repr  string // how nodes are represented: see reprs
	nodes []*V

	calls   [7]int64 // root,type,len,key,keys,elem,value
	total   int64
	budget  int64 // 0: no limit
	mu      sync.Mutex
	breach  []string
	touched map[int]bool
	track   bool
	// own, if not nil: Keys returns a list that belongs to the model, the
	// same one on every call, which has room for more
	own map[*V][]string
}

var reprs = []string{"ptr", "int", "fat", "decoy", "str", "nil", "err"}

const spareKey = "not a key"

func (m *MonModel) ownKeys(v *V) []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	ks, ok := m.own[v]
	if !ok {
		ks = append(make([]string, 0, len(v.Keys)+2), v.Keys...)
		ks = append(ks, spareKey, spareKey)[:len(v.Keys)]
		m.own[v] = ks
	}
	return ks
}

// keysChanged tells what has happened to the model's own lists of keys
func (m *MonModel) keysChanged() string {
	for v, ks := range m.own {
		if fmt.Sprintf("%q", ks[:len(ks)+2]) != fmt.Sprintf("%q", append(append([]string(nil), v.Keys...), spareKey, spareKey)) {
			return fmt.Sprintf("the list of keys of %s, which belongs to the document model, is now %q", v.Loc(), ks[:len(ks)+2])
		}
	}
	return ""
}

var callNames = [7]string{"Root", "Type", "Len", "Key", "Keys", "Elem", "Value"}

type fatNode struct {
	v   *V
	pad []int // makes the type not comparable
}

// errNode is a node that is also many other things
type errNode struct {
	gp.MapModel
	v *V
}

func (errNode) Error() string                { return "a node" }
func (errNode) String() string               { return "" }
func (errNode) GoString() string             { return "nil" }
func (errNode) Unwrap() error                { return nil }
func (errNode) Is(error) bool                { return true }
func (errNode) IsNil() bool                  { return true }
func (errNode) IsZero() bool                 { return true }
func (errNode) MarshalJSON() ([]byte, error) { return []byte("null"), nil }
func (errNode) MarshalText() ([]byte, error) { return nil, nil }

type budgetExceeded struct{ calls int64 }

func NewMon(root *V, repr string) *MonModel {
	return &MonModel{repr: repr, nodes: Number(root), budget: 50_000_000}
}

func (m *MonModel) count(i int) {
	atomic.AddInt64(&m.calls[i], 1)
	m.add(1)
}

func (m *MonModel) add(n int64) {
	t := atomic.AddInt64(&m.total, n)
	if m.budget > 0 && t > m.budget {
		panic(budgetExceeded{t})
	}
}

func (m *MonModel) bad(f string, a ...any) {
	m.mu.Lock()
	if len(m.breach) < 10 {
		m.breach = append(m.breach, fmt.Sprintf(f, a...))
	}
	m.mu.Unlock()
}

func (m *MonModel) node(v *V) any {
	switch m.repr {
	case "int":
		return v.ID
	case "fat":
		return fatNode{v: v}
	case "decoy":
		return decoy(v)
	case "err":
		return errNode{v: v}
	case "nil":
		// one of the nodes, the root as a rule
		if v.ID == m.nilID() {
			return nil
		}
	case "str":
		// the root is the empty string, the others look like numbers
		if v.ID == 0 {
			return ""
		}
		return strconv.Itoa(v.ID)
	}
	return v
}

// nilID is the node that nil stands for
func (m *MonModel) nilID() int {
	if n := len(m.nodes); n%3 == 0 {
		return n / 2
	}
	return 0
}

const decoyID = "\x00node"

// decoy represents a node by a Go value as MapModel has them, which is not
// what the document model says it is: whoever looks into nodes without
// asking the model is misled
func decoy(v *V) any {
	switch {
	case v.Kind == KArr && v.ID%2 == 0:
		a := []any{decoyKey(v.ID)}
		for range v.Items {
			a = append(a, "decoy")
		}
		return a
	case v.Kind == KObj || v.ID%3 == 0:
		o := map[string]any{decoyID: v.ID}
		for _, k := range v.Keys {
			o[k] = "decoy"
		}
		return o
	case v.ID%3 == 1:
		return float64(v.ID)
	}
	return decoyKey(v.ID)
}

type decoyKey int

// V returns the document node of a model node, nil if it is not one
func (m *MonModel) V(n any) *V {
	switch m.repr {
	case "int":
		i, ok := n.(int)
		if !ok || i < 0 || i >= len(m.nodes) {
			return nil
		}
		return m.nodes[i]
	case "fat":
		f, ok := n.(fatNode)
		if !ok {
			return nil
		}
		return f.v
	case "err":
		f, ok := n.(errNode)
		if !ok {
			return nil
		}
		return f.v
	case "nil":
		if n == nil {
			return m.nodes[m.nilID()]
		}
	case "str":
		s, ok := n.(string)
		id, err := strconv.Atoi("0" + s)
		if !ok || err != nil || id >= len(m.nodes) {
			return nil
		}
		return m.nodes[id]
	case "decoy":
		id := -1
		switch x := n.(type) {
		case []any:
			if len(x) > 0 {
				if i, ok := x[0].(decoyKey); ok {
					id = int(i)
				}
			}
		case map[string]any:
			if i, ok := x[decoyID].(int); ok {
				id = i
			}
		case float64:
			id = int(x)
		case decoyKey:
			id = int(x)
		}
		if id < 0 || id >= len(m.nodes) {
			return nil
		}
		return m.nodes[id]
	}
	v, _ := n.(*V)
	return v
}

func (m *MonModel) get(call int, n any) *V {
	v := m.V(n)
	if v == nil {
		m.bad("%s called with %T(%v), which is not a node of the document", callNames[call], n, n)
	} else if m.track {
		m.mu.Lock()
		if m.touched == nil {
			m.touched = make(map[int]bool)
		}
		m.touched[v.ID] = true
		m.mu.Unlock()
	}
	return v
}

func (m *MonModel) Root() any {
	m.count(0)
	return m.node(m.nodes[0])
}

func nodeType(v *V) gp.NodeType {
	switch v.Kind {
	case KObj:
		return gp.ObjectNode
	case KArr:
		return gp.ArrayNode
	}
	return gp.ValueNode
}

func (m *MonModel) Type(n any) gp.NodeType {
	m.count(1)
	v := m.get(1, n)
	if v == nil {
		return gp.ValueNode
	}
	return nodeType(v)
}

func (m *MonModel) Len(n any) int {
	m.count(2)
	v := m.get(2, n)
	if v == nil {
		return 0
	}
	if !v.isContainer() {
		m.bad("Len called for the value node %s", v.Loc())
		return 0
	}
	return len(v.Items)
}

func (m *MonModel) Key(n any, k string) (any, bool) {
	m.count(3)
	v := m.get(3, n)
	if v == nil {
		return nil, false
	}
	if v.Kind != KObj {
		m.bad("Key(%q) called for %s, which is not an object", k, v.Loc())
		return nil, false
	}
	x := v.Get(k)
	if x == nil {
		return nil, false
	}
	return m.node(x), true
}

func (m *MonModel) Keys(n any) []string {
	m.count(4)
	v := m.get(4, n)
	if v == nil {
		return nil
	}
	if v.Kind != KObj {
		m.bad("Keys called for %s, which is not an object", v.Loc())
		return nil
	}
	// Whoever asks for the keys looks at all of them
	m.add(int64(len(v.Keys)))
	if m.own != nil {
		return m.ownKeys(v)
	}
	return append([]string(nil), v.Keys...)
}

func (m *MonModel) Elem(n any, i int) any {
	m.count(5)
	v := m.get(5, n)
	if v == nil {
		return nil
	}
	if v.Kind != KArr {
		m.bad("Elem(%d) called for %s, which is not an array", i, v.Loc())
		return nil
	}
	if i < 0 || i >= len(v.Items) {
		m.bad("Elem(%d) called for %s, which has %d elements", i, v.Loc(), len(v.Items))
		panic(fmt.Sprintf("index out of range [%d] with length %d", i, len(v.Items)))
	}
	return m.node(v.Items[i])
}

func (m *MonModel) Value(n any) any {
	m.count(6)
	v := m.get(6, n)
	if v == nil {
		return nil
	}
	if v.isContainer() {
		m.bad("Value called for %s, which is not a value node", v.Loc())
		return nil
	}
	return v.Go(false)
}
