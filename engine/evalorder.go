package main

import (
	"go/ast"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// The Go compiler evaluates the calls of a statement before it loads the plain variables that
// appear as its other operands (the language leaves that order open; go/ssa uses source order).
// reorder makes the encoding follow the compiler.

type posRange struct{ lo, hi token.Pos }

func stmtRanges(n ast.Node) []posRange {
	var out []posRange
	add := func(x ast.Node) {
		if x != nil {
			out = append(out, posRange{x.Pos(), x.End()})
		}
	}
	first := true
	ast.Inspect(n, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.FuncLit:
			if !first {
				return false
			}
		case *ast.ReturnStmt, *ast.AssignStmt, *ast.ExprStmt, *ast.SendStmt, *ast.DeclStmt, *ast.GoStmt, *ast.DeferStmt:
			add(s)
		case *ast.IfStmt:
			add(s.Cond)
		case *ast.SwitchStmt:
			if s.Tag != nil {
				add(s.Tag)
			}
		}
		first = false
		return true
	})
	return out
}

func reorder(fn *ssa.Function, b *ssa.BasicBlock, ranges *[]posRange, done *bool) []ssa.Instruction {
	ins := b.Instrs
	isLoad := func(x ssa.Instruction) *ssa.UnOp {
		u, ok := x.(*ssa.UnOp)
		if ok && u.Op == token.MUL && u.Pos() != token.NoPos {
			return u
		}
		return nil
	}
	isCall := func(x ssa.Instruction) bool {
		c, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		_, bi := c.Call.Value.(*ssa.Builtin)
		return !bi
	}
	// quick filter: a load followed by a call
	seen := false
	cand := false
	for _, x := range ins {
		if isLoad(x) != nil {
			seen = true
		} else if seen && isCall(x) {
			cand = true
			break
		}
	}
	if !cand || fn.Syntax() == nil {
		return ins
	}
	if !*done {
		*done = true
		*ranges = stmtRanges(fn.Syntax())
	}
	out := append([]ssa.Instruction{}, ins...)
	for i := len(out) - 1; i >= 0; i-- {
		u := isLoad(out[i])
		if u == nil {
			continue
		}
		var r *posRange
		for k := range *ranges {
			q := &(*ranges)[k]
			if u.Pos() >= q.lo && u.Pos() < q.hi && (r == nil || q.hi-q.lo < r.hi-r.lo) {
				r = q
			}
		}
		if r == nil {
			continue
		}
		last := -1
	scan:
		for j := i + 1; j < len(out); j++ {
			for _, op := range out[j].Operands(nil) {
				if *op == ssa.Value(u) {
					break scan
				}
			}
			if isCall(out[j]) {
				p := out[j].Pos()
				if p < r.lo || p >= r.hi {
					break
				}
				last = j
			}
		}
		if last < 0 {
			continue
		}
		copy(out[i:last], out[i+1:last+1])
		out[last] = u
	}
	return out
}
