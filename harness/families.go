package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	gp "github.com/bserdar/gojsonpath"
)

// Families of query texts of any size, for what grows with the text. n is
// about the number of repeated pieces. Valid and malformed ones.
type family struct {
	name string
	n    int // the size to measure; also measured at 2n
	text func(n int) string
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func joined(n int, sep string, f func(i int) string) string {
	l := make([]string, n)
	for i := range l {
		l[i] = f(i)
	}
	return strings.Join(l, sep)
}

var families = []family{
	{"names", 100, func(n int) string { return "$" + rep(".a", n) }},
	{"bracketed-names", 100, func(n int) string { return "$" + rep("['a']", n) }},
	{"bracketed-indexes", 100, func(n int) string { return "$" + rep("[0]", n) }},
	{"wildcards", 100, func(n int) string { return "$" + rep(".*", n) }},
	{"bracketed-wildcards", 100, func(n int) string { return "$" + rep("[*]", n) }},
	{"slices", 60, func(n int) string { return "$" + rep("[1:-1:2]", n) }},
	{"descents", 60, func(n int) string { return "$" + rep("..a", n) }},
	{"bracketed-descents", 60, func(n int) string { return "$" + rep("..[0]", n) }},
	{"union-of-indexes", 100, func(n int) string { return "$[" + joined(n, ",", func(i int) string { return fmt.Sprint(i) }) + "]" }},
	{"union-of-names", 100, func(n int) string {
		return "$[" + joined(n, ",", func(i int) string { return fmt.Sprintf("'k%d'", i) }) + "]"
	}},
	{"union-of-slices", 60, func(n int) string {
		return "$[" + joined(n, ",", func(i int) string { return fmt.Sprintf("%d:", i) }) + "]"
	}},
	{"union-of-filters", 30, func(n int) string {
		return "$[" + joined(n, ",", func(i int) string { return fmt.Sprintf("?(@.a==%d)", i) }) + "]"
	}},
	{"filters", 40, func(n int) string { return "$" + rep("[?(@.a)]", n) }},
	{"and", 60, func(n int) string {
		return "$[?(" + joined(n, " && ", func(i int) string { return fmt.Sprintf("@.a%d", i) }) + ")]"
	}},
	{"or", 60, func(n int) string {
		return "$[?(" + joined(n, " || ", func(i int) string { return fmt.Sprintf("@.a == %d", i) }) + ")]"
	}},
	{"sum", 60, func(n int) string { return "$[?(@.a == 1" + rep(" + 1", n) + ")]" }},
	{"product", 60, func(n int) string { return "$[?(@.a == 1" + rep(" * 1", n) + ")]" }},
	{"powers", 60, func(n int) string { return "$[?(@.a == 1" + rep(" ** 1", n) + ")]" }},
	{"equalities", 60, func(n int) string { return "$[?(@.a" + rep(" == 1", n) + ")]" }},
	{"parentheses", 12, func(n int) string { return "$[?(" + rep("(", n) + "1" + rep(")", n) + ")]" }},
	{"parenthesized-sums", 12, func(n int) string { return "$[?(" + rep("(1+", n) + "1" + rep(")", n) + ")]" }},
	{"nots", 40, func(n int) string { return "$[?(" + rep("!", n) + "@.a)]" }},
	{"minuses", 40, func(n int) string { return "$[?(" + rep("- ", n) + "1)]" }},
	{"membership-list", 100, func(n int) string {
		return "$[?(@.a in [" + joined(n, ",", func(i int) string { return fmt.Sprint(i) }) + "])]"
	}},
	{"nested-lists", 12, func(n int) string { return "$[?(@.a in " + rep("[", n) + "1" + rep("]", n) + ")]" }},
	{"path-in-filter", 60, func(n int) string { return "$[?(@" + rep(".a", n) + ")]" }},
	{"bracketed-path-in-filter", 60, func(n int) string { return "$[?(@" + rep("['a']", n) + ")]" }},
	{"nested-calls", 12, func(n int) string { return "$[?(" + rep("length(", n) + "@" + rep(")", n) + ")]" }},
	{"long-name", 2000, func(n int) string { return "$." + rep("a", n) }},
	{"long-string", 2000, func(n int) string { return "$['" + rep("é\\n", n) + "']" }},
	{"long-number", 1000, func(n int) string { return "$[" + rep("1", n) + "]" }},
	{"spaces", 2000, func(n int) string { return "$" + rep(" ", n) + ".a" }},
	{"nested-bracket-filters", 10, func(n int) string { return "$[?(" + rep("@[?(", n) + "1" + rep(")]", n) + ")]" }},
	{"nested-dotted-filters", 10, func(n int) string { return "$[?(" + rep("@.a[?(", n) + "1" + rep(")]", n) + ")]" }},
	{"nested-descent-filters", 4, func(n int) string { return "$[?(" + rep("@..[?(", n) + "1" + rep(")]", n) + ")]" }},
	// not well formed
	{"open-brackets", 60, func(n int) string { return "$" + rep("[", n) }},
	{"open-parentheses", 12, func(n int) string { return "$[?(" + rep("(", n) }},
	{"cut-off-union", 100, func(n int) string { return "$[" + rep("0,", n) }},
	{"cut-off-and", 60, func(n int) string { return "$[?(@.a" + rep(" && @.a", n) }},
	{"dots", 100, func(n int) string { return "$" + rep(".", n) }},
	{"closing-brackets", 100, func(n int) string { return "$" + rep("]", n) }},
	{"operators", 60, func(n int) string { return "$[?(1" + rep("+*", n) + "1)]" }},
	{"invalid-characters", 100, func(n int) string { return "$" + rep("\x01", n) }},
	{"quotes", 101, func(n int) string { return "$[" + rep("'", n) }},
}

type compileCost struct {
	Mallocs, Bytes uint64
	Millis         int64
	Err            string
}

// compileProbe measures the first Parse of this process
func compileProbe(text string) {
	lim := syscall.Rlimit{Cur: cpuLimit, Max: cpuLimit + 1}
	if err := syscall.Setrlimit(syscall.RLIMIT_CPU, &lim); err != nil {
		fatal(err)
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := time.Now()
	_, err := gp.Parse(text)
	d := time.Since(t)
	runtime.ReadMemStats(&b)
	c := compileCost{Mallocs: b.Mallocs - a.Mallocs, Bytes: b.TotalAlloc - a.TotalAlloc, Millis: d.Milliseconds()}
	if err != nil {
		c.Err = err.Error()
		if len(c.Err) > 100 {
			c.Err = c.Err[:100]
		}
	}
	json.NewEncoder(os.Stdout).Encode(c)
}
