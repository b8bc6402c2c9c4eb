package main

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

type bodyKey struct{ fn *ssa.Function }

var bodyInfos sync.Map

func intrinsicsFor(fn *ssa.Function) string { return fn.String() }

// compileBody compiles the real body of a function that has an intrinsic.
func (P *Prog) compileBody(fi *finfo, name string) {
	P.compileX(fi, true)
}
