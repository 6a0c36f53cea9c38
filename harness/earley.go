package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- An independent recognizer of the documented grammar (Jsonpath.g4):
// a longest-match lexer and an Earley recognizer. It only says whether a
// string is in the language.

type token struct {
	typ  string
	text string
}

var lexPunct = []string{"===", "!==", "...", "?(", "..", "**", "<=", ">=", "==", "!=", "&&", "||",
	"$", "@", "*", "(", ")", ",", ":", ".", "[", "]", "+", "-", "~", "!", "/", "%", "<", ">", "&", "^", "|"}

func isHexDigit(r byte) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
}

func isDigit(r byte) bool { return r >= '0' && r <= '9' }

// lexNumber returns the length of the longest numeric literal at the start
func lexNumber(s string) int {
	if s == "" || !isDigit(s[0]) {
		return 0
	}
	best := 0
	if s[0] == '0' && len(s) > 2 {
		run := func(first, rest func(byte) bool) {
			if first(s[2]) {
				i := 3
				for i < len(s) && rest(s[i]) {
					i++
				}
				best = i
			}
		}
		switch s[1] {
		case 'x', 'X':
			run(func(b byte) bool { return b != '_' && isHexDigit(b) }, isHexDigit)
		case 'o', 'O':
			oct := func(b byte) bool { return b >= '0' && b <= '7' }
			run(oct, func(b byte) bool { return b == '_' || oct(b) })
		case 'b', 'B':
			bn := func(b byte) bool { return b == '0' || b == '1' }
			run(bn, func(b byte) bool { return b == '_' || bn(b) })
		}
	}
	d := func(i int) int { // [0-9_]*
		for i < len(s) && (isDigit(s[i]) || s[i] == '_') {
			i++
		}
		return i
	}
	exp := func(i int) int {
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			j := i + 1
			if j < len(s) && (s[j] == '+' || s[j] == '-') {
				j++
			}
			if k := d(j); k > j {
				return k
			}
		}
		return i
	}
	i := d(1)
	if e := exp(i); e > best {
		best = e
	}
	if i+1 < len(s) && s[i] == '.' && isDigit(s[i+1]) {
		if e := exp(d(i + 2)); e > best {
			best = e
		}
	}
	return best
}

// lexString returns the length of the string literal at the start, 0 if none
func lexString(s string) int {
	q := s[0]
	rs := []rune(s)
	// A set of positions, as the escapes of the grammar are ambiguous
	cur := map[int]bool{1: true}
	best := 0
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return -1
	}
	hex := func(r rune) bool { return r >= 0 && r < 128 && isHexDigit(byte(r)) }
	seen := map[int]bool{}
	for len(cur) > 0 {
		next := map[int]bool{}
		add := func(i int) {
			if !seen[i] {
				seen[i] = true
				next[i] = true
			}
		}
		for i := range cur {
			r := at(i)
			if r < 0 {
				continue
			}
			if r == rune(q) {
				if i+1 > best {
					best = i + 1
				}
			}
			if r != rune(q) && r != '\\' && r != '\r' && r != '\n' {
				add(i + 1)
			}
			if r != '\\' {
				continue
			}
			e := at(i + 1)
			if e < 0 {
				continue
			}
			// line continuation
			for j := i + 1; ; j++ {
				x := at(j)
				if x != '\r' && x != '\n' && x != '\u2028' && x != '\u2029' {
					break
				}
				add(j + 1)
			}
			switch {
			case strings.ContainsRune(`'"\bfnrtv`, e) || e == '0':
				add(i + 2)
			case e == 'x':
				if hex(at(i+2)) && hex(at(i+3)) {
					add(i + 4)
				}
			case e == 'u':
				if hex(at(i+2)) && hex(at(i+3)) && hex(at(i+4)) && hex(at(i+5)) {
					add(i + 6)
				}
				if at(i+2) == '{' {
					j := i + 3
					for hex(at(j)) {
						j++
					}
					if j > i+3 && at(j) == '}' {
						add(j + 1)
					}
				}
			case e >= '0' && e <= '9' || e == '\r' || e == '\n':
			default:
				add(i + 2)
			}
		}
		cur = next
	}
	return len(string(rs[:best]))
}

func lexIdentifier(s string) int {
	i := 0
	uni := func(i int) int { // \uXXXX or \u{XX+}
		if !strings.HasPrefix(s[i:], `\u`) {
			return 0
		}
		t := s[i+2:]
		if len(t) >= 4 && isHexDigit(t[0]) && isHexDigit(t[1]) && isHexDigit(t[2]) && isHexDigit(t[3]) {
			return 6
		}
		if len(t) > 0 && t[0] == '{' {
			j := 1
			for j < len(t) && isHexDigit(t[j]) {
				j++
			}
			if j >= 3 && j < len(t) && t[j] == '}' {
				return 2 + j + 1
			}
		}
		return 0
	}
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		if u := uni(i); u > 0 {
			i += u
			continue
		}
		start := r == '$' || r == '_' || unicode.Is(unicode.L, r)
		part := start || r == '-' || unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Nd, r) || unicode.Is(unicode.Pc, r) || r == '\u200c' || r == '\u200d'
		if i == 0 && !start || !part {
			break
		}
		i += n
	}
	return i
}

// lexNext returns the first token of s, false if no token can be read
func lexNext(s string) (token, bool) {
	best, typ := 0, ""
	try := func(n int, t string) {
		if n > best {
			best, typ = n, t
		}
	}
	// Earlier rules win ties
	for _, p := range lexPunct {
		if strings.HasPrefix(s, p) {
			try(len(p), p)
		}
	}
	if strings.HasPrefix(s, "in") {
		try(2, "in")
	}
	if strings.HasPrefix(s, "null") {
		try(4, "Literal")
	}
	if strings.HasPrefix(s, "true") {
		try(4, "Literal")
	}
	if strings.HasPrefix(s, "false") {
		try(5, "Literal")
	}
	try(lexNumber(s), "Literal")
	if s[0] == '"' || s[0] == '\'' {
		try(lexString(s), "Literal")
	}
	n := 0
	for n < len(s) && strings.IndexByte(" \n\t\r", s[n]) >= 0 {
		n++
	}
	try(n, "SP")
	try(lexIdentifier(s), "Identifier")
	return token{typ, s[:best]}, best > 0
}

// lex returns the tokens up to the first character that cannot be read
func lex(s string) (out []token, ok bool) {
	s = string([]rune(s)) // the input is read as runes
	for len(s) > 0 {
		t, ok := lexNext(s)
		if !ok {
			return out, false
		}
		out = append(out, t)
		s = s[len(t.text):]
	}
	return out, true
}

// errorPlaces returns, for a text that is not well formed, the position (in
// runes) of the first token that cannot follow what is before it, and that
// of the first character that cannot be read; -1: there is none
func errorPlaces(s string) (misplaced, unreadable int) {
	toks, ok := lex(s)
	start := "path"
	if strings.HasPrefix(s, "/") {
		start = "simplePath"
	}
	n, _ := jpGrammar.parse(start, toks)
	misplaced, unreadable = -1, -1
	pos := 0
	for i, t := range toks {
		if i == n {
			misplaced = pos
		}
		pos += utf8.RuneCountInString(t.text)
	}
	if !ok {
		unreadable = pos
	} else if n == len(toks) {
		misplaced = pos // the end
	}
	return
}

// The parser rules. Lower case words are rules; S is an optional SP.
const grammarText = `
path : expression S
simplePath : / simplePathExpr S
simplePathExpr : simplePathExpr S / S simplePathExpr
simplePathExpr : Literal
simplePathExpr : Identifier
simplePathExpr : *
S :
S : SP
selector : $
selector : @
selector : *
arguments : ( )
arguments : ( exprlist )
arguments : ( exprlist , )
arguments : ( , )
exprlist : expression
exprlist : exprlist , expression
optexpr :
optexpr : expression
slice : optexpr : optexpr
slice : optexpr : optexpr : optexpr
slice : optexpr : optexpr expression
indexExpression : slice
indexExpression : expression
indexes : indexExpression
indexes : indexes S , S indexExpression
expression : expression S . S expression
expression : expression S .. S expression
expression : expression S ..
expression : expression S [ S indexes S ]
expression : expression S .. S [ S indexes S ]
expression : expression arguments
expression : + S expression
expression : - S expression
expression : ~ S expression
expression : ! S expression
expression : expression S binop S expression
binop : **
binop : *
binop : /
binop : %
binop : +
binop : -
binop : <
binop : >
binop : <=
binop : >=
binop : in
binop : ==
binop : !=
binop : ===
binop : !==
binop : &
binop : ^
binop : |
binop : &&
binop : ||
expression : Literal
expression : arrayLiteral
expression : Identifier
expression : selector
expression : ( expression )
expression : ?( expression )
arrayLiteral : [ S elementList S ]
elementList : commas S optexpr elemrest commas
elemrest :
elemrest : elemrest S commas1 S expression
commas :
commas : commas ,
commas1 : ,
commas1 : commas1 ,
`

type rule struct {
	lhs int
	rhs []int // nonterminals >= 0, terminals < 0
}

type cfg struct {
	rules    []rule
	byLHS    [][]int
	nt       map[string]int
	term     map[string]int
	nullable []bool
}

func loadGrammar() *cfg {
	g := &cfg{nt: map[string]int{}, term: map[string]int{}}
	var lines [][]string
	for _, l := range strings.Split(grammarText, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		lines = append(lines, f)
		if _, ok := g.nt[f[0]]; !ok {
			g.nt[f[0]] = len(g.nt)
		}
	}
	g.byLHS = make([][]int, len(g.nt))
	g.nullable = make([]bool, len(g.nt))
	for _, f := range lines {
		r := rule{lhs: g.nt[f[0]]}
		for _, s := range f[2:] {
			if i, ok := g.nt[s]; ok {
				r.rhs = append(r.rhs, i)
				continue
			}
			i, ok := g.term[s]
			if !ok {
				i = -1 - len(g.term)
				g.term[s] = i
			}
			r.rhs = append(r.rhs, i)
		}
		g.byLHS[r.lhs] = append(g.byLHS[r.lhs], len(g.rules))
		g.rules = append(g.rules, r)
	}
	for changed := true; changed; {
		changed = false
		for _, r := range g.rules {
			if g.nullable[r.lhs] {
				continue
			}
			all := true
			for _, s := range r.rhs {
				if s < 0 || !g.nullable[s] {
					all = false
				}
			}
			if all {
				g.nullable[r.lhs] = true
				changed = true
			}
		}
	}
	return g
}

var jpGrammar = loadGrammar()

type item struct{ rule, dot, from int }

// recognize says if the tokens derive from the rule
func (g *cfg) recognize(start string, toks []token) bool {
	_, ok := g.parse(start, toks)
	return ok
}

// parse says how many of the tokens are the beginning of something that
// derives from the rule, and if all of them do derive from it
func (g *cfg) parse(start string, toks []token) (viable int, all bool) {
	n := len(toks)
	sets := make([][]item, n+1)
	seen := make([]map[item]bool, n+1)
	for i := range seen {
		seen[i] = map[item]bool{}
	}
	add := func(i int, it item) {
		if !seen[i][it] {
			seen[i][it] = true
			sets[i] = append(sets[i], it)
		}
	}
	s := g.nt[start]
	for _, r := range g.byLHS[s] {
		add(0, item{r, 0, 0})
	}
	for i := 0; i <= n; i++ {
		if len(sets[i]) == 0 {
			return i - 1, false
		}
		for k := 0; k < len(sets[i]); k++ {
			it := sets[i][k]
			r := g.rules[it.rule]
			if it.dot == len(r.rhs) {
				for _, p := range sets[it.from] {
					pr := g.rules[p.rule]
					if p.dot < len(pr.rhs) && pr.rhs[p.dot] == r.lhs {
						add(i, item{p.rule, p.dot + 1, p.from})
					}
				}
				continue
			}
			x := r.rhs[it.dot]
			if x >= 0 {
				for _, y := range g.byLHS[x] {
					add(i, item{y, 0, i})
				}
				if g.nullable[x] {
					add(i, item{it.rule, it.dot + 1, it.from})
				}
				continue
			}
			if i < n && g.term[toks[i].typ] == x {
				add(i+1, item{it.rule, it.dot + 1, it.from})
			}
		}
	}
	for _, it := range sets[n] {
		if it.from == 0 && g.rules[it.rule].lhs == s && it.dot == len(g.rules[it.rule].rhs) {
			return n, true
		}
	}
	return n, false
}

// wellFormed says if the input is a path of the documented grammar
func wellFormed(s string) bool {
	if s == "/" {
		return true // the root
	}
	toks, ok := lex(s)
	if !ok {
		return false
	}
	if strings.HasPrefix(s, "/") {
		return jpGrammar.recognize("simplePath", toks)
	}
	return jpGrammar.recognize("path", toks)
}
