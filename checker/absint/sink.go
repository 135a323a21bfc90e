package absint

import (
	"go/ast"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// sinkAddrs moves the evaluation of an assignment's left-hand side behind the
// calls on its right-hand side. The language leaves that order open; the
// compiler calls first, go/ssa computes the address first, and the two differ
// when the call moves what the left-hand side refers to (t.data[i].x = t.grow()).
func (p *Program) sinkAddrs() {
	type span struct{ lo, hi token.Pos }
	lhs := map[token.Pos]span{} // position of the store -> extent of the expression stored to
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			as, ok := n.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 {
				return true
			}
			switch e := as.Lhs[0].(type) {
			case *ast.SelectorExpr:
				lhs[e.Sel.Pos()] = span{e.Pos(), e.End()}
			case *ast.IndexExpr:
				lhs[e.Lbrack] = span{e.Pos(), e.End()}
			}
			return true
		})
	}
	for _, fn := range p.AllFuncs() {
		for _, b := range fn.Blocks {
			for k := 0; k < len(b.Instrs); k++ {
				s, ok := b.Instrs[k].(*ssa.Store)
				if !ok {
					continue
				}
				sp, ok := lhs[s.Pos()]
				if !ok {
					continue
				}
				in := func(v ssa.Value) bool { return v.Pos() >= sp.lo && v.Pos() < sp.hi }
				chain := map[ssa.Instruction]bool{}
				var walk func(v ssa.Value)
				walk = func(v ssa.Value) {
					i, ok := v.(ssa.Instruction)
					if !ok || i.Block() != b || v.Referrers() == nil || len(*v.Referrers()) != 1 {
						return
					}
					switch x := v.(type) {
					case *ssa.FieldAddr:
						if in(x) {
							chain[i] = true
							walk(x.X)
						}
					case *ssa.IndexAddr:
						if in(x) {
							chain[i] = true
							walk(x.X)
						}
					case *ssa.UnOp:
						if x.Op != token.MUL {
							return
						}
						switch a := x.X.(type) {
						case *ssa.FieldAddr:
							if !in(a) {
								return
							}
						case *ssa.IndexAddr:
							if !in(a) {
								return
							}
						default:
							return
						}
						chain[i] = true
						walk(x.X)
					}
				}
				walk(s.Addr)
				last := -1
				first := k
				for j := 0; j < k; j++ {
					if chain[b.Instrs[j]] && j < first {
						first = j
					}
					if c, ok := b.Instrs[j].(*ssa.Call); ok {
						if _, bi := c.Call.Value.(*ssa.Builtin); !bi {
							last = j
						}
					}
				}
				if last < first {
					continue
				}
				var keep, moved []ssa.Instruction
				for j := first; j < k; j++ {
					if chain[b.Instrs[j]] {
						moved = append(moved, b.Instrs[j])
					} else {
						keep = append(keep, b.Instrs[j])
					}
				}
				copy(b.Instrs[first:], append(keep, moved...))
			}
		}
	}
}
