package main

import (
	"fmt"
	"strings"
)

// Probes are new processes, for what depends on being the first call
func runProbe(spec string) {
	f := strings.SplitN(spec, ":", 2)
	switch f[0] {
	case "cold":
		var seed int64
		fmt.Sscan(f[1], &seed)
		coldProbe(seed)
	case "compile":
		compileProbe(f[1])
	case "family":
		var k, n int
		fmt.Sscanf(f[1], "%d:%d", &k, &n)
		compileProbe(families[k].text(n))
	default:
		fatal(fmt.Errorf("no such probe: %s", spec))
	}
}
