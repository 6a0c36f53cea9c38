module verif/harness

go 1.22.1

require github.com/bserdar/gojsonpath v0.0.0

require (
	github.com/antlr4-go/antlr v0.0.0-20230518091524-98b52378c522 // indirect
	github.com/antlr4-go/antlr/v4 v4.13.0 // indirect
	golang.org/x/exp v0.0.0-20230515195305-f3d0a9c9a5cc // indirect
)

replace github.com/bserdar/gojsonpath => /repo
