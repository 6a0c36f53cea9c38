package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// ---- Query AST ----

type SelKind int

const (
	SName SelKind = iota
	SWild
	SIndex
	SSlice
	SUnion
	SFilter
	SDotNum // .2 : an index of an array, a key of an object
)

type Sel struct {
	Kind  SelKind
	Name  string
	Index int
	Slice [3]*int
	// Number of colons of the slice: 1 or 2
	Colons int
	Parts  []*Sel
	Filter *Expr
}

type Step struct {
	Desc bool // preceded by ..
	Sel  *Sel
}

type PathQ struct {
	Root  string // $ or @
	Steps []Step
}

type EKind int

const (
	EInt EKind = iota
	EFloat
	EStr
	EBool
	ENull
	EPath
	EUnary
	EBin
	EArr
	ELen
	ERawNum // numeric literal with explicit text
	EBad    // call of a function that does not exist, S
)

type Expr struct {
	Kind   EKind
	I      int
	F      float64
	S      string // string value, or raw text
	B      bool
	Path   *PathQ
	Op     string
	L, R   *Expr
	Elems  []*Expr
	Method bool // ELen: x.length()
}

// ---- Rendering ----

// Style decides among equivalent notations
type Style struct {
	R        *rand.Rand
	Spaces   bool // random optional white space
	Plain    bool // canonical: dots where possible, no spaces, minimal quoting
	FullPar  bool // parenthesize all subexpressions
	NoEscape bool
	Simple   bool // as a simple path, if possible
	inExpr   int  // depth of expressions being rendered
}

func (s *Style) pick(n int) int {
	if s.Plain || s.R == nil {
		return 0
	}
	return s.R.Intn(n)
}

func (s *Style) sp() string {
	if !s.Spaces || s.R == nil {
		return ""
	}
	switch s.R.Intn(6) {
	case 0:
		return " "
	case 1:
		return []string{"  ", "\t", "\n", " \r\n"}[s.R.Intn(4)]
	}
	return ""
}

// must have at least one space
func (s *Style) sp1() string {
	if x := s.sp(); x != "" {
		return x
	}
	return " "
}

func isPlainIdent(k string) bool {
	if k == "" || k == "null" || k == "true" || k == "false" || k == "in" {
		return false
	}
	for i, r := range k {
		if r == '_' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') {
			continue
		}
		if i > 0 && (r >= '0' && r <= '9' || r == '-' || r == '$') {
			continue
		}
		if i == 0 && r == '$' && len(k) > 1 {
			continue
		}
		if r >= 0x370 && r <= 0x3ff && r != 0x37e && r != 0x375 && r != 0x378 && r != 0x379 && r >= 0x391 && r <= 0x3c9 && r != 0x3a2 {
			continue
		}
		return false
	}
	return true
}

// quoteKey renders a string literal, choosing the quote and escapes
func (s *Style) quote(k string) string {
	q := '\''
	if s.pick(2) == 1 {
		q = '"'
	}
	var b strings.Builder
	b.WriteRune(q)
	for _, r := range k {
		switch {
		case r == q || r == '\\':
			b.WriteRune('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case s.pick(12) == 1:
			b.WriteString(s.escapeRune(r))
		default:
			b.WriteRune(r)
		}
	}
	b.WriteRune(q)
	return b.String()
}

// escapeRune renders a rune in one of the escape forms of the grammar
func (s *Style) escapeRune(r rune) string {
	switch r {
	case '\t':
		return `\t`
	case '\b':
		return `\b`
	case '\f':
		return `\f`
	case '\v':
		return `\v`
	case '"':
		return `\"`
	case '\'':
		return `\'`
	}
	switch s.pick(4) {
	case 1:
		if r < 0x100 {
			return fmt.Sprintf(`\x%02x`, r)
		}
	case 2:
		return fmt.Sprintf(`\u{%X}`, r)
	case 3:
		if r < 0x10000 {
			return fmt.Sprintf(`\u%04X`, r)
		}
		r -= 0x10000
		return fmt.Sprintf(`\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
	}
	if r < 0x10000 {
		return fmt.Sprintf(`\u%04x`, r)
	}
	return fmt.Sprintf(`\u{%x}`, r)
}

func (s *Style) slice(sel *Sel) string {
	var b strings.Builder
	n := func(p *int) {
		if p != nil {
			b.WriteString(strconv.Itoa(*p))
		}
	}
	n(sel.Slice[0])
	b.WriteByte(':')
	n(sel.Slice[1])
	if sel.Colons == 2 || sel.Slice[2] != nil {
		b.WriteByte(':')
		n(sel.Slice[2])
	}
	return b.String()
}

// inBracket renders a selector as it appears within [ ]
func (s *Style) inBracket(sel *Sel) string {
	switch sel.Kind {
	case SName:
		if isPlainIdent(sel.Name) && s.pick(8) == 1 {
			return sel.Name
		}
		return s.quote(sel.Name)
	case SWild:
		return "*"
	case SIndex:
		return strconv.Itoa(sel.Index)
	case SSlice:
		return s.slice(sel)
	case SFilter:
		return "?(" + s.expr(sel.Filter, 0) + ")"
	case SUnion:
		parts := make([]string, len(sel.Parts))
		for i, p := range sel.Parts {
			parts[i] = s.inBracket(p)
		}
		out := parts[0]
		for _, p := range parts[1:] {
			out += s.sp() + "," + s.sp() + p
		}
		return out
	}
	panic("inBracket")
}

func (s *Style) step(st Step, last bool) string {
	sel := st.Sel
	br := func() string { return "[" + s.sp() + s.inBracket(sel) + s.sp() + "]" }
	if st.Desc {
		switch sel.Kind {
		case SName:
			switch s.pick(3) {
			case 0:
				if isPlainIdent(sel.Name) {
					return s.sp() + ".." + s.sp() + sel.Name
				}
				return s.sp() + ".." + s.sp() + s.quote(sel.Name)
			case 1:
				return s.sp() + ".." + s.sp() + s.quote(sel.Name)
			}
			return s.sp() + ".." + s.sp() + br()
		case SWild:
			switch s.pick(3) {
			case 1:
				return s.sp() + ".." + s.sp() + br()
			case 2:
				if last && s.inExpr == 0 {
					return s.sp() + ".."
				}
			}
			return s.sp() + ".." + s.sp() + "*"
		}
		return s.sp() + ".." + s.sp() + br()
	}
	switch sel.Kind {
	case SName:
		switch s.pick(4) {
		case 0:
			if isPlainIdent(sel.Name) {
				return s.sp() + "." + s.sp() + sel.Name
			}
			return s.sp() + br()
		case 1:
			return s.sp() + "." + s.sp() + s.quote(sel.Name)
		case 2:
			return s.sp() + "." + s.sp() + br()
		}
		return s.sp() + br()
	case SWild:
		if s.pick(2) == 0 {
			return s.sp() + "." + s.sp() + "*"
		}
		return s.sp() + br()
	case SDotNum:
		return s.sp() + "." + s.sp() + strconv.Itoa(sel.Index)
	}
	return s.sp() + br()
}

// simplePath writes p as a simple path, if it consists of names, indexes and wildcards
func (s *Style) simplePath(p *PathQ) (string, bool) {
	if p.Root != "$" || len(p.Steps) == 0 {
		return "", false
	}
	var b strings.Builder
	for _, st := range p.Steps {
		if st.Desc {
			return "", false
		}
		b.WriteByte('/')
		switch {
		case st.Sel.Kind == SWild:
			b.WriteByte('*')
		case (st.Sel.Kind == SIndex || st.Sel.Kind == SDotNum) && st.Sel.Index >= 0:
			b.WriteString(strconv.Itoa(st.Sel.Index))
		case st.Sel.Kind == SName && isPlainIdent(st.Sel.Name) && s.pick(2) == 0:
			b.WriteString(st.Sel.Name)
		case st.Sel.Kind == SName:
			b.WriteString(s.quote(st.Sel.Name))
		default:
			return "", false
		}
	}
	return b.String(), true
}

func (s *Style) path(p *PathQ) string {
	if s.Simple && s.inExpr == 0 {
		if x, ok := s.simplePath(p); ok {
			return x
		}
	}
	var b strings.Builder
	b.WriteString(p.Root)
	for i, st := range p.Steps {
		x := s.step(st, i == len(p.Steps)-1)
		b.WriteString(x)
	}
	return b.String()
}

// operator precedence, from the loosest to the tightest
var binPrec = map[string]int{
	"||": 1, "&&": 2, "==": 3, "!=": 3, "===": 3, "!==": 3, "in": 4,
	"<": 5, ">": 5, "<=": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "**": 8,
}

const unaryPrec = 9
const atomPrec = 10

func (e *Expr) prec() int {
	switch e.Kind {
	case EBin:
		return binPrec[e.Op]
	case EUnary:
		return unaryPrec
	case EInt:
		if e.I < 0 {
			return unaryPrec
		}
	case EFloat:
		if e.F < 0 {
			return unaryPrec
		}
	}
	return atomPrec
}

func fmtFloat(f float64) string {
	x := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(x, ".") {
		x += ".0"
	}
	return x
}

func (s *Style) expr(e *Expr, min int) string {
	if s.FullPar && e.Kind == EBin {
		return "(" + s.bareExpr(e) + ")"
	}
	if e.prec() < min || (!s.Plain && s.R != nil && s.R.Intn(15) == 0 && e.Kind != EArr) {
		return "(" + s.bareExpr(e) + ")"
	}
	return s.bareExpr(e)
}

func (s *Style) bareExpr(e *Expr) string {
	s.inExpr++
	defer func() { s.inExpr-- }()
	switch e.Kind {
	case EInt:
		return strconv.Itoa(e.I)
	case EFloat:
		return fmtFloat(e.F)
	case EStr:
		return s.quote(e.S)
	case ERawNum:
		return e.S
	case EBool:
		return fmt.Sprint(e.B)
	case ENull:
		return "null"
	case EPath:
		return s.path(e.Path)
	case EArr:
		parts := make([]string, len(e.Elems))
		for i, x := range e.Elems {
			parts[i] = s.expr(x, 0)
		}
		// Commas in excess are allowed, and mean nothing
		comma := func() string {
			if s.pick(16) == 1 {
				return ",,"
			}
			if s.pick(2) == 1 {
				return s.sp() + "," + s.sp()
			}
			return ", "
		}
		text := ""
		for i, x := range parts {
			if i > 0 {
				text += comma()
			} else if s.pick(24) == 1 {
				text += ","
			}
			text += x
		}
		if len(parts) > 0 && s.pick(16) == 1 {
			text += ","
		}
		return "[" + s.sp() + text + s.sp() + "]"
	case ELen, EBad:
		name := "length"
		if e.Kind == EBad {
			name = e.S
		}
		var args []string
		if !e.Method && e.Path != nil {
			args = append(args, s.path(e.Path))
		}
		for _, x := range e.Elems {
			args = append(args, s.expr(x, 0))
		}
		text := strings.Join(args, ",")
		if len(args) > 0 && s.pick(8) == 1 {
			text += ","
		}
		if e.Method {
			return s.path(e.Path) + "." + name + "(" + text + ")"
		}
		return name + "(" + text + ")"
	case EUnary:
		x := s.expr(e.L, unaryPrec)
		return e.Op + s.sp() + x
	case EBin:
		p := binPrec[e.Op]
		var l, r string
		if e.Op == "**" { // right associative
			l = s.expr(e.L, p+1)
			r = s.expr(e.R, p)
		} else {
			l = s.expr(e.L, p)
			r = s.expr(e.R, p+1)
		}
		a, b := s.sp1(), s.sp1()
		if e.Op == "in" {
			return l + a + "in" + b + r
		}
		return l + a + e.Op + b + r
	}
	panic("expr")
}
