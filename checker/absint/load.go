package absint

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	all   []*ssa.Function
	Pkg   *packages.Package
	SSA   *ssa.Package
	Prog  *ssa.Program
	Files []*ast.File
}

// Load type-checks the package in dir and builds its SSA form.
func Load(dir, overlay string, tags string) (*Program, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		env = append(env, kv)
	}
	flags := "-mod=mod"
	if overlay != "" {
		flags = "-mod=readonly -overlay=" + overlay
	}
	env = append(env, "GOFLAGS="+flags, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GO111MODULE=on", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env,
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %v", errs)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Pkg: pkgs[0], SSA: spkgs[0], Prog: prog, Files: pkgs[0].Syntax}
	p.sinkAddrs()
	return p, nil
}

// Func finds a package-level function or a method ("T.m" / "*T.m") by name.
func (p *Program) Func(name string) *ssa.Function { return p.SSA.Func(name) }

// Method finds the declared method of a named type (value or pointer receiver).
func (p *Program) Method(typ, name string) *ssa.Function {
	o := p.SSA.Pkg.Scope().Lookup(typ)
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			if f.Name() == name && len(ms.At(i).Index()) == 1 {
				return p.Prog.FuncValue(f)
			}
		}
	}
	return nil
}

// Type finds a named type.
func (p *Program) Type(name string) types.Type {
	if tn, ok := p.SSA.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// AllFuncs lists every function with a body that belongs to the package,
// closures included.
func (p *Program) AllFuncs() []*ssa.Function {
	if p.all != nil {
		return p.all
	}
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Pkg == p.SSA && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.all = out
	return out
}

// InitGlobals interprets the package initialiser and records the contents of
// the package's globals; globals stored to anywhere else become unknown.
func (e *Engine) InitGlobals(p *Program) {
	ini := p.SSA.Func("init")
	e.InitHeap = nil
	e.DirtyGlob = map[*ssa.Global]bool{}
	inits := map[*ssa.Function]bool{ini: true}
	for _, fn := range p.AllFuncs() {
		if fn == ini || inits[fn] {
			continue
		}
		isInit := len(fn.Name()) > 5 && fn.Name()[:5] == "init#"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if !loadedMapWritten(x) {
							continue
						}
					case *ssa.Store:
						if x.Addr == g && isInit {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// reads through derived pointers are fine, writes are not
						if onlyRead(in.(ssa.Value)) {
							continue
						}
					case *ssa.Slice:
						if x.X == g {
							// a slice of a global array: treat as possibly written
						}
					}
					e.DirtyGlob[g] = true
				}
			}
		}
	}
	st := e.NewState()
	for _, m := range p.SSA.Members {
		if g, ok := m.(*ssa.Global); ok {
			st.Heap[T("global", g.String(), g.Type())] = ZeroVal(g.Type().(*types.Pointer).Elem())
		}
	}
	fins := e.Run(ini, st, nil)
	if len(fins) != 1 {
		e.Undec("package initialisation is not deterministic for the analysis (%d outcomes)", len(fins))
		return
	}
	heap := fins[0].St.Heap
	e.InitHeap = map[*V]*V{}
	for k, v := range heap {
		if k.Op == "global" {
			if g := globByName(p.SSA, k.Aux); g != nil && e.DirtyGlob[g] {
				continue
			}
		}
		e.InitHeap[k] = v
	}
}

func globByName(pkg *ssa.Package, s string) *ssa.Global {
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && g.String() == s {
			return g
		}
	}
	return nil
}

func onlyRead(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func loadedMapWritten(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Map); !ok || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return true
			}
		}
	}
	return false
}

// Call interprets fn from a finished state.
func (e *Engine) Call(fn *ssa.Function, st *State, args []*V) []*Final {
	return e.Run(fn, st, args)
}
