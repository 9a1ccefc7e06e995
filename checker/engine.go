package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Exit struct {
	st  *State
	res Val
}

type Model func(e *Engine, st *State, c *CallCtx) []Exit

// CallCtx describes a call being modelled.
type CallCtx struct {
	Site ssa.Instruction
	Fn   *ssa.Function // nil for an interface method or unknown function
	Name string
	Args []Val // receiver first
	Sig  *types.Signature

	Method *types.Func // of an interface call
	Recv   types.Type
}

func (c *CallCtx) resT() types.Type {
	r := c.Sig.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// Prog is the loaded program; it does not change.
type Prog struct {
	prog   *ssa.Program
	pkgs   []*packages.Package
	spkgs  []*ssa.Package
	fset   *token.FileSet
	mod    string
	root   string
	repo   map[string]bool
	funcs  []*ssa.Function
	infos  map[*ssa.Function]*fnInfo
	byName map[string]*ssa.Function

	fieldNonNil map[string]bool
}

type fnInfo struct {
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> body
	in    map[*ssa.BasicBlock][]*ssa.BasicBlock        // block -> heads of its loops
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	keep  map[*ssa.BasicBlock]map[ssa.Value]bool // what is kept although it is not used any more
}

type Engine struct {
	*Prog
	syms       []*SymMeta
	terms      map[string]Val
	nonNil     map[SymID]bool
	lazyIDs    map[string]ObjID
	kids       map[string][]Val // what was read from a lazily made object
	isKid      map[string]bool
	orgUp      map[string]string
	lazyOf     map[ObjID]string
	linKeys    map[string]Lin
	frozen     map[ObjID]bool
	nobj       int
	nfresh     int
	roots      []Val
	globals    map[*ssa.Global]ObjID
	globalObjs []ObjID
	init       *State
	models     map[string]Model
	noAlias    bool
	cap        int
	fine       int
	coarse     int
	peel       int
	exitCap    int
	lists      bool // the elements of lists are followed
	detCap     int  // passes of a loop with known bounds which are followed one by one
	budget     int
	steps      int
	callDepth  int
	unroll     int // calls of a function within itself which are followed
	stack      []*ssa.Function
	rec        map[*ssa.Function]map[string]bool
	recUsed    map[*ssa.Function]bool
	cellRange  func(root types.Type, path string) (int64, int64, bool)
	keyHeap    bool

	tables      map[string][]int64
	onPass      func(st *State, fn *ssa.Function, head *ssa.BasicBlock)
	onBuf       func(st *State, p VPtr, old, add []Seg)
	onDrain     func(st *State, p VPtr, old, left []Seg)
	evalHook    map[string]func(st *State, t types.Type, args []Val) Val
	mapKeys     map[string]Val
	byteArrs    map[ObjID]*Obj
	unknown     map[string]int
	keepEntries bool
	onUnknown   func(st *State, c *CallCtx)
	onEntry     func(st *State, in ssa.Instruction, p VPtr, k, v Val)
	nonNilField map[string]bool // "Type.field" always initialised by the constructors

	onPanic   func(st *State, in ssa.Instruction, kind, what string)
	onCall    func(st *State, c *CallCtx) ([]Exit, bool)
	onInvoke  func(st *State, c *CallCtx) ([]Exit, bool)
	onStore   func(st *State, in ssa.Instruction, p VPtr, v Val, t types.Type)
	onLoad    func(st *State, in ssa.Instruction, p VPtr, t types.Type)
	onLoaded  func(st *State, in ssa.Instruction, p VPtr, v Val, t types.Type)
	onEnter   func(st *State, fn *ssa.Function)
	onReturn  func(st *State, fn *ssa.Function, res Val)
	onAfter   func(st *State, c *CallCtx, res Val)
	onAppend  func(st *State, in ssa.Instruction, dst, src Val)
	onCopy    func(st *State, in ssa.Instruction, dst, src Val, n Lin)
	onMake    func(st *State, in ssa.Instruction, t types.Type, n Lin)
	onGoRun   func(st *State, in *ssa.Go, fn Val, args []Val) []*State // the states after the statement
	onChan    func(st *State, in ssa.Instruction, v Val, what string)
	definite  bool // the value reported is nil on every path
	onGo      func(st *State, in *ssa.Go, fn Val, args []Val)
	onMap     func(st *State, in ssa.Instruction, m Val, k, v Val, op string)
	onEdge    func(st *State, fi *fnInfo, from, head *ssa.BasicBlock) // a loop is entered, or about to run again
	onInfo    func(fi *fnInfo)
	onBack    func(st *State, fn *ssa.Function, head *ssa.BasicBlock)
	onHead    func(st *State, fn *ssa.Function, head *ssa.BasicBlock, entering bool)
	recursive func(st *State, c *CallCtx) ([]Exit, bool)
	stateKey  func(st *State) string
	visited   map[*ssa.Function]bool
	forkIndex int64
	trace     bool
	reporting bool
}

type budgetErr struct{ msg string }

func loadProg(root string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Fset: fset, Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
		if p.IllTyped {
			return nil, fmt.Errorf("package %s does not type-check", p.PkgPath)
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no package found in %s", root)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, pkgs: pkgs, fset: fset, root: root, repo: map[string]bool{}, infos: map[*ssa.Function]*fnInfo{}, byName: map[string]*ssa.Function{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.spkgs = append(p.spkgs, sp)
		p.repo[pkgs[i].PkgPath] = true
		if pkgs[i].Module != nil {
			p.mod = pkgs[i].Module.Path
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg != nil && p.repo[f.Pkg.Pkg.Path()] || f.Parent() != nil && f.Parent().Pkg != nil && p.repo[f.Parent().Pkg.Pkg.Path()] {
			if f.Blocks != nil && f.Synthetic == "" {
				p.funcs = append(p.funcs, f)
			}
		}
		if f.Blocks != nil || p.byName[f.String()] == nil {
			p.byName[f.String()] = f
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	return p, nil
}

func (p *Prog) isRepoPkg(path string) bool { return p.repo[path] }

func (p *Prog) pkg(short string) *ssa.Package {
	for _, s := range p.spkgs {
		if s.Pkg.Path() == p.mod+"/"+short {
			return s
		}
	}
	return nil
}

// fn finds a function by "pkg.Name" or "pkg.Type.Method".
func (p *Prog) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	sp := p.pkg(parts[0])
	if sp == nil {
		return nil
	}
	if len(parts) == 2 {
		return sp.Func(parts[1])
	}
	tn := sp.Type(parts[1])
	if tn == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
		ms := p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == parts[2] {
				if f := p.prog.MethodValue(ms.At(i)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (p *Prog) typ(name string) types.Type {
	parts := strings.Split(name, ".")
	sp := p.pkg(parts[0])
	if sp == nil {
		return nil
	}
	if t := sp.Type(parts[1]); t != nil {
		return t.Type()
	}
	return nil
}

// short is a name of a function for reports: package.Type.Method.
func (p *Prog) short(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := strings.ReplaceAll(f.String(), p.modPath()+"/", "")
	s = strings.NewReplacer("(*", "", "(", "", ")", "").Replace(s)
	return s
}

func (p *Prog) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	pos := in.Pos()
	if !pos.IsValid() {
		// the nearest instruction of the block with a position
		b := in.Block()
		if b != nil {
			at := -1
			for i, x := range b.Instrs {
				if x == in {
					at = i
				}
			}
			for d := 1; d < len(b.Instrs) && !pos.IsValid(); d++ {
				if at-d >= 0 && b.Instrs[at-d].Pos().IsValid() {
					pos = b.Instrs[at-d].Pos()
				} else if at+d < len(b.Instrs) && b.Instrs[at+d].Pos().IsValid() {
					pos = b.Instrs[at+d].Pos()
				}
			}
			if !pos.IsValid() && in.Parent() != nil {
				pos = in.Parent().Pos()
			}
		}
	}
	q := p.fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.root+"/") + ":" + fmt.Sprint(q.Line)
}

func newEngine(p *Prog) *Engine {
	e := &Engine{Prog: p, syms: []*SymMeta{{}}, terms: map[string]Val{}, nonNil: map[SymID]bool{}, lazyIDs: map[string]ObjID{}, kids: map[string][]Val{}, isKid: map[string]bool{}, orgUp: map[string]string{}, lazyOf: map[ObjID]string{}, linKeys: map[string]Lin{}, frozen: map[ObjID]bool{}, globals: map[*ssa.Global]ObjID{}, models: map[string]Model{}, noAlias: true, cap: 4, fine: 12, coarse: 12, peel: 1, exitCap: 4, detCap: 600, budget: 6000000, rec: map[*ssa.Function]map[string]bool{}, recUsed: map[*ssa.Function]bool{}, visited: map[*ssa.Function]bool{}, evalHook: map[string]func(*State, types.Type, []Val) Val{}, mapKeys: map[string]Val{}, unknown: map[string]int{}, nonNilField: map[string]bool{}, forkIndex: 32, reporting: true}
	stdModels(e)
	e.initGlobals()
	return e
}

// initGlobals evaluates the package initialisers.
func (e *Engine) initGlobals() {
	st := e.newState()
	for _, sp := range e.spkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				id := st.alloc(g.Type().(*types.Pointer).Elem(), "global "+g.Name())
				e.globals[g] = id
				e.globalObjs = append(e.globalObjs, id)
			}
		}
	}
	oc, of, op := e.cap, e.fine, e.onPanic
	e.cap, e.fine = 100, 100
	done := map[*ssa.Package]bool{}
	var run func(sp *ssa.Package)
	run = func(sp *ssa.Package) {
		if done[sp] {
			return
		}
		done[sp] = true
		for _, imp := range sp.Pkg.Imports() {
			for _, o := range e.spkgs {
				if o.Pkg == imp {
					run(o)
				}
			}
		}
		f := sp.Func("init")
		ex := e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Sig: f.Signature})
		if len(ex) == 1 {
			st = ex[0].st
		}
	}
	for _, sp := range e.spkgs {
		run(sp)
	}
	e.cap, e.fine, e.onPanic = oc, of, op
	st.fr = nil
	e.init = st
}

func (e *Engine) start() *State {
	st := e.init.clone()
	st.fr = nil
	e.steps = 0
	return st
}

// ---- functions

func (e *Engine) info(f *ssa.Function) *fnInfo {
	if fi, ok := e.infos[f]; ok {
		return fi
	}
	fi := &fnInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, in: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	e.infos[f] = fi
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						back(p)
					}
				}
				back(b)
			}
		}
	}
	for h, body := range fi.loops {
		for b := range body {
			fi.in[b] = append(fi.in[b], h)
		}
	}
	// reverse postorder, leaving loops last
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		leaves := func(s *ssa.BasicBlock) int {
			n := 0
			for _, h := range fi.in[b] {
				if !fi.loops[h][s] {
					n++
				}
			}
			return n
		}
		sort.SliceStable(succs, func(i, j int) bool { return leaves(succs[i]) > leaves(succs[j]) })
		for _, s := range succs {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	for i := range post {
		fi.order[post[len(post)-1-i]] = i
	}
	// liveness
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					l[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						delete(l, ph)
						l[ph.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(l, v)
					}
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						l[*o] = true
					}
				}
			}
			// phis of b are defined at its entry: live there as already evaluated
			for v := range l {
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
					delete(l, v)
				}
			}
			if len(l) != len(fi.live[b]) {
				fi.live[b] = l
				changed = true
			}
		}
	}
	if e.onInfo != nil {
		e.onInfo(fi)
	}
	return fi
}

// ---- evaluation

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolV(constant.BoolVal(c.Value))
	case constant.String:
		return VStr{constant.StringVal(c.Value)}
	case constant.Int:
		if isFloatT(t) {
			f, _ := constant.Float64Val(c.Value)
			return VFlt{f}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return intV(i)
		}
		u, _ := constant.Uint64Val(c.Value)
		return intV(int64(u))
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return VFlt{f}
	}
	return e.fresh(t, "const")
}

func (st *State) get(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return st.e.constVal(x)
	case *ssa.Function:
		return VFunc{F: x}
	case *ssa.Global:
		id, ok := st.e.globals[x]
		if !ok {
			id = st.e.lazyID("global " + x.String())
			st.e.globals[x] = id
		}
		if st.objs[id] == nil {
			st.lazyObj("global "+x.String(), x.Type().(*types.Pointer).Elem())
		}
		return VPtr{id, ""}
	case *ssa.Builtin:
		return VBuiltin{x.Name()}
	}
	r, ok := st.fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), st.fr.fn))
	}
	n := st.nv(r)
	return n
}

func (st *State) set(v ssa.Value, x Val) { st.fr.regs[v] = x }

func (e *Engine) tick() {
	e.steps++
	if e.steps > e.budget {
		panic(budgetErr{"analysis budget exceeded"})
	}
}

// callFn analyses a function with a body on one state.
func (e *Engine) callFn(st *State, c *CallCtx) []Exit {
	fn := c.Fn
	if fn.Blocks == nil {
		return e.unknownCall(st, c)
	}
	on := 0
	for _, f := range e.stack {
		if f == fn {
			on++
		}
	}
	if on > 0 && on >= e.unroll {
		if e.recursive != nil {
			if ex, ok := e.recursive(st, c); ok {
				return ex
			}
		}
		return e.recCall(st, c)
	}
	if len(e.stack) > 60 {
		panic(budgetErr{"call depth"})
	}
	e.visited[fn] = true
	caller := st.fr
	for round := 0; ; round++ {
		s := st
		used := e.recUsed[fn]
		e.recUsed[fn] = false
		if round > 0 || e.recursionPossible(fn) {
			s = st.clone()
		}
		e.stack = append(e.stack, fn)
		s.fr = &Frame{fn: fn, regs: map[ssa.Value]Val{}, iter: map[*ssa.BasicBlock]int{}, det: map[*ssa.BasicBlock]bool{}, nd: map[*ssa.BasicBlock]int{}, up: s.fr, site: c.Site}
		for i, p := range fn.Params {
			if i < len(c.Args) {
				s.fr.regs[p] = c.Args[i]
			} else {
				s.fr.regs[p] = e.fresh(p.Type(), p.Name())
			}
		}
		for i, p := range fn.FreeVars {
			if i < len(c.Args)-len(fn.Params) {
				s.fr.regs[p] = c.Args[len(fn.Params)+i]
			}
		}
		if e.onEnter != nil {
			e.onEnter(s, fn)
		}
		ex := e.runBody(s, fn)
		e.stack = e.stack[:len(e.stack)-1]
		recUsed := e.recUsed[fn]
		e.recUsed[fn] = used
		if recUsed {
			grew := false
			if e.rec[fn] == nil {
				e.rec[fn] = map[string]bool{}
			}
			for _, x := range ex {
				k := e.recPattern(x.st, fn, x.res)
				if !e.rec[fn][k] {
					e.rec[fn][k] = true
					grew = true
				}
			}
			if grew && round < 12 {
				st.fr = caller
				continue
			}
		}
		ex = e.mergeExits(ex, fn)
		for i := range ex {
			up := ex[i].st.fr.up
			if up != nil {
				up = up.clone()
			}
			ex[i].st.fr = up
			if e.onReturn != nil {
				e.onReturn(ex[i].st, fn, ex[i].res)
			}
		}
		return ex
	}
}

func (e *Engine) recursionPossible(fn *ssa.Function) bool {
	return e.reachSelf(fn)
}

var selfMemo = map[*ssa.Function]bool{}

// reachSelf: fn may be called again while it runs (static calls and repo methods by name).
func (e *Engine) reachSelf(fn *ssa.Function) bool {
	if r, ok := selfMemo[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if g == fn {
						return true
					}
					if !seen[g] {
						seen[g] = true
						if walk(g) {
							return true
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ci.Common().IsInvoke() {
					return true // decided on demand
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	r := walk(fn)
	selfMemo[fn] = r
	return r
}

// recPattern describes the result of a call of a recursive function.
func (e *Engine) recPattern(st *State, fn *ssa.Function, res Val) string {
	var p []string
	one := func(v Val) {
		switch st.nilness(v) {
		case 1:
			p = append(p, "nil")
		case 2:
			if c, ok := constOf(st.nv(v)); ok && (c == 0 || c == 1) {
				p = append(p, fmt.Sprint(c))
			} else {
				p = append(p, "x")
			}
		default:
			p = append(p, "?")
		}
	}
	if t, ok := res.(VTuple); ok {
		for _, v := range t {
			one(v)
		}
	} else if res != nil {
		one(res)
	}
	return strings.Join(p, ",")
}

// recCall assumes that a recursive call ends as the outer ones do, with unknown values and effects.
func (e *Engine) recCall(st *State, c *CallCtx) []Exit {
	e.recUsed[c.Fn] = true
	var ks []string
	for k := range e.rec[c.Fn] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Exit
	for i, k := range ks {
		s := st
		if i < len(ks)-1 {
			s = st.clone()
		}
		s.havoc(c.Args...)
		res := c.Sig.Results()
		parts := strings.Split(k, ",")
		mk := func(i int) Val {
			t := res.At(i).Type()
			v := e.fresh(t, "rec")
			switch parts[i] {
			case "nil":
				return VNil{}
			case "0", "1":
				if isIntT(t) {
					return intV(int64(parts[i][0] - '0'))
				}
			case "x":
				if sv, ok := v.(VSym); ok {
					s.nn[sv.S] = true
				}
			}
			return v
		}
		switch res.Len() {
		case 0:
			out = append(out, Exit{s, nil})
		case 1:
			out = append(out, Exit{s, mk(0)})
		default:
			t := VTuple{}
			for i := 0; i < res.Len(); i++ {
				t = append(t, mk(i))
			}
			out = append(out, Exit{s, t})
		}
	}
	return out
}

func (e *Engine) mergeExits(ex []Exit, fn *ssa.Function) []Exit {
	if len(ex) <= 1 {
		return ex
	}
	for i := range ex {
		// the results live in a pseudo register during the join
		ex[i].st.fr.regs = map[ssa.Value]Val{}
		if ex[i].res != nil {
			ex[i].st.fr.regs[resKey] = ex[i].res
		}
		ex[i].st.fr.defers = nil
		ex[i].st.gc()
	}
	var sts []*State
	for _, x := range ex {
		sts = append(sts, x.st)
	}
	resT := types.Type(fn.Signature.Results())
	if fn.Signature.Results().Len() == 1 {
		resT = fn.Signature.Results().At(0).Type()
	}
	resKey.t = resT
	sts = e.merge(sts, e.exitCap)
	var out []Exit
	for _, s := range sts {
		out = append(out, Exit{s, s.fr.regs[resKey]})
	}
	return out
}

// resKeyT is a pseudo register for results.
type resKeyT struct {
	ssa.Value
	t types.Type
}

func (r *resKeyT) Type() types.Type { return r.t }
func (r *resKeyT) Name() string     { return "result" }

var resKey = &resKeyT{}

// merge joins states when there are too many.
func (e *Engine) merge(sts []*State, cap int) []*State {
	if len(sts) <= 1 {
		return sts
	}
	if len(sts) <= cap {
		return sts
	}
	r := e.groupJoin(sts, 2)
	if len(r) > e.fine {
		r = e.groupJoin(r, 1)
		if len(r) > e.coarse {
			r = e.groupJoin(r, 0)
		}
	}
	return r
}

func (e *Engine) groupJoin(sts []*State, level int) []*State {
	groups := map[string]*State{}
	var order []string
	for _, s := range sts {
		k := e.key(s, level)
		if g, ok := groups[k]; ok {
			n, _, _ := e.joinStates(g, s, false)
			groups[k] = n
		} else {
			groups[k] = s
			order = append(order, k)
		}
	}
	var r []*State
	for _, k := range order {
		r = append(r, groups[k])
	}
	return r
}

// key of a state: level 0 the ghost state, 1 also the pattern of the registers, 2 also of the heap.
// counter: the value changes by a step with every pass of its loop.
func counter(ph *ssa.Phi) bool {
	for _, x := range ph.Edges {
		if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && (b.X == ph || b.Y == ph) {
			return true
		}
	}
	return false
}

func (e *Engine) key(st *State, level int) string {
	var p []string
	for k, v := range st.g {
		p = append(p, "g:"+k+"="+vkey(v))
	}
	if e.stateKey != nil {
		p = append(p, e.stateKey(st))
	}
	if level > 0 && st.fr != nil {
		for v, x := range st.fr.regs {
			if ph, ok := v.(*ssa.Phi); ok && counter(ph) {
				continue
			}
			p = append(p, v.Name()+"="+e.pattern(st, x, level, map[ObjID]bool{}))
		}
	}
	if level == 0 && st.fr != nil {
		if x, ok := st.fr.regs[resKey]; ok {
			p = append(p, "res="+e.pattern(st, x, 0, map[ObjID]bool{}))
		}
	}
	sort.Strings(p)
	return strings.Join(p, "\n")
}

func (e *Engine) pattern(st *State, v Val, level int, seen map[ObjID]bool) string {
	switch x := st.nv(v).(type) {
	case VInt:
		if x.L.isC() {
			if level > 0 || x.L.C == 0 || x.L.C == 1 {
				return fmt.Sprint(x.L.C)
			}
		}
		return "n"
	case VCond:
		return "c"
	case VNil:
		return "nil"
	case VStr:
		if level > 1 {
			return vkey(x)
		}
		return "s"
	case VSym:
		return fmt.Sprintf("v%d", st.nilness(x))
	case VIface:
		return "i" + typeKey(x.T)
	case VFunc:
		return x.F.String()
	case VTuple:
		s := "("
		for _, y := range x {
			s += e.pattern(st, y, level, seen) + ";"
		}
		return s + ")"
	case VPtr:
		if level < 2 || seen[x.O] {
			return "p"
		}
		seen[x.O] = true
		o := st.objs[x.O]
		if o == nil || o.Lazy && !e.keyHeap {
			return "p"
		}
		var ks []string
		for k, c := range o.Cells {
			s := ""
			if len(k) < 40 {
				s = e.pattern(st, c, 1, seen)
			}
			ks = append(ks, k+":"+s)
		}
		sort.Strings(ks)
		return "p{" + strings.Join(ks, ",") + "}"
	case VSlice:
		if x.Len.isC() && level > 0 {
			return fmt.Sprintf("sl%d", x.Len.C)
		}
		return "sl"
	case VIter:
		return fmt.Sprintf("it%d", x.N)
	case Custom:
		return x.Key()
	}
	return "o"
}

type invKey struct {
	b *ssa.BasicBlock
	k string
}

func (e *Engine) runBody(st *State, fn *ssa.Function) []Exit {
	fi := e.info(fn)
	pending := map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {st}}
	inv := map[invKey]*State{}
	cnt := map[invKey]int{}
	var exits []Exit
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fi.order[x] < fi.order[b] {
				b = x
			}
		}
		sts := pending[b]
		delete(pending, b)
		if fi.loops[b] != nil {
			sts = e.loopHead(fi, b, sts, inv, cnt)
		} else if len(sts) > e.cap {
			for _, s := range sts {
				s.gc()
			}
			sts = e.merge(sts, e.cap)
		}
		for _, s := range sts {
			outs, ex := e.runBlock(s, b)
			exits = append(exits, ex...)
			if len(exits) > 40 {
				exits = e.mergeExits(exits, fn)
			}
			for _, o := range outs {
				if e.edge(fi, o.st, b, o.to) {
					pending[o.to] = append(pending[o.to], o.st)
				}
			}
		}
	}
	return exits
}

type out struct {
	st *State
	to *ssa.BasicBlock
}

func (e *Engine) edge(fi *fnInfo, st *State, from, to *ssa.BasicBlock) bool {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	if e.onEdge != nil && fi.loops[to] != nil {
		e.onEdge(st, fi, from, to)
	}
	vals := map[ssa.Value]Val{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = st.get(ph.Edges[idx])
	}
	for v, x := range vals {
		st.fr.regs[v] = x
	}
	for v := range st.fr.regs {
		if !fi.live[to][v] && !fi.keep[to][v] {
			delete(st.fr.regs, v)
		}
	}
	if body := fi.loops[to]; body != nil {
		if body[from] {
			st.fr.iter[to]++
			if e.onBack != nil {
				e.onBack(st, st.fr.fn, to)
			}
		} else {
			st.fr.iter[to] = 0
			st.fr.nd[to] = 0
			delete(st.fr.det, to)
		}
		if e.onHead != nil {
			e.onHead(st, st.fr.fn, to, !body[from])
		}
	}
	return true
}

func (e *Engine) loopHead(fi *fnInfo, b *ssa.BasicBlock, sts []*State, inv map[invKey]*State, cnt map[invKey]int) []*State {
	var pass, abs []*State
	entering := true
	for _, s := range sts {
		it := s.fr.iter[b]
		if it > 0 {
			entering = false
		}
		switch {
		case it == 0:
			pass = append(pass, s)
		case it < e.detCap && s.fr.det[b]:
			pass = append(pass, s)
		case it <= e.peel:
			pass = append(pass, s)
		default:
			abs = append(abs, s)
		}
	}
	if entering {
		for k := range inv {
			if k.b == b {
				delete(inv, k)
				delete(cnt, k)
			}
		}
	}
	for _, s := range pass {
		delete(s.fr.det, b)
	}
	if len(pass) > e.cap {
		for _, s := range pass {
			s.gc()
		}
		pass = e.merge(pass, e.cap)
	}
	for _, s := range abs {
		s.gc()
		delete(s.fr.det, b)
		k := invKey{b, e.key(s, 1)}
		old := inv[k]
		if old == nil && e.countInv(inv, b) >= 8 {
			k = invKey{b, "\x00" + e.key(s, 0)}
			old = inv[k]
		}
		if old == nil {
			inv[k] = s.clone()
			pass = append(pass, s)
			continue
		}
		n, ch, why := e.joinStates(old, s, cnt[k] >= 2)
		if e.trace {
			fmt.Printf("  join at %s b%d #%d changed=%v %s\n", b.Parent().Name(), b.Index, cnt[k], ch, why)
		}
		if !ch {
			continue
		}
		cnt[k]++
		if cnt[k] > 30 {
			panic(budgetErr{fmt.Sprintf("loop of %s at %s does not stabilise: %s", e.short(b.Parent()), e.pos(b.Instrs[0]), why)})
		}
		n.gc()
		inv[k] = n.clone()
		pass = append(pass, n)
	}
	if e.onPass != nil {
		for _, s := range pass {
			e.onPass(s, b.Parent(), b)
		}
	}
	return pass
}

func (e *Engine) countInv(inv map[invKey]*State, b *ssa.BasicBlock) int {
	n := 0
	for k := range inv {
		if k.b == b {
			n++
		}
	}
	return n
}

// runBlock executes a block; a call may split the state.
func (e *Engine) runBlock(st *State, b *ssa.BasicBlock) ([]out, []Exit) {
	var outs []out
	var exits []Exit
	var run func(s *State, i int)
	run = func(s *State, i int) {
		for ; i < len(b.Instrs); i++ {
			e.tick()
			in := b.Instrs[i]
			switch x := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Jump:
				outs = append(outs, out{s, b.Succs[0]})
				return
			case *ssa.If:
				e.branch(s, x, b, &outs)
				return
			case *ssa.Return:
				var res Val
				switch len(x.Results) {
				case 0:
				case 1:
					res = s.get(x.Results[0])
				default:
					t := VTuple{}
					for _, r := range x.Results {
						t = append(t, s.get(r))
					}
					res = t
				}
				exits = append(exits, Exit{s, res})
				return
			case *ssa.Panic:
				e.panics(s, in, "panic", "explicit panic")
				return
			default:
				sts := e.instr(s, in)
				if len(sts) == 1 && sts[0] == s {
					continue
				}
				for _, n := range sts {
					run(n, i+1)
				}
				return
			}
		}
	}
	run(st, 0)
	return outs, exits
}

func (e *Engine) panics(st *State, in ssa.Instruction, kind, what string) {
	if e.onPanic != nil && e.reporting {
		e.onPanic(st, in, kind, what)
	}
}

func (e *Engine) branch(st *State, x *ssa.If, b *ssa.BasicBlock, outs *[]out) {
	fi := e.info(b.Parent())
	c := st.get(x.Cond)
	exitOf := func() []*ssa.BasicBlock {
		var r []*ssa.BasicBlock
		for _, h := range fi.in[b] {
			if fi.loops[h][b.Succs[0]] != fi.loops[h][b.Succs[1]] {
				r = append(r, h)
			}
		}
		return r
	}
	if k, ok := constOf(c); ok {
		if constTest(st, x.Cond) {
			for _, h := range exitOf() {
				st.fr.det[h] = true
			}
		}
		if k != 0 {
			*outs = append(*outs, out{st, b.Succs[0]})
		} else {
			*outs = append(*outs, out{st, b.Succs[1]})
		}
		return
	}
	other := st.clone()
	okT := st.assume(c, true)
	okF := other.assume(c, false)
	if okT && okF {
		for _, h := range exitOf() {
			st.fr.nd[h]++
			other.fr.nd[h]++
		}
	}
	if okT {
		*outs = append(*outs, out{st, b.Succs[0]})
	}
	if okF {
		*outs = append(*outs, out{other, b.Succs[1]})
	}
}

// constTest: the condition compares two constants of which one was computed.
func constTest(st *State, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		_, c1 := x.X.(*ssa.Const)
		_, c2 := x.Y.(*ssa.Const)
		if c1 && c2 {
			return false
		}
		if !isIntT(x.X.Type()) || isBoolT(x.X.Type()) {
			return false
		}
		return true
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		it, ok := st.fr.regs[nx.Iter].(VIter)
		if !ok || it.N < 0 {
			return false
		}
		if p, ok := st.nv(it.X).(VPtr); ok {
			if o := st.objs[p.O]; o != nil {
				return !mapOthers(o)
			}
		}
		return false
	}
	return false
}

func (e *Engine) stackText() string {
	var p []string
	for _, f := range e.stack {
		p = append(p, e.short(f))
	}
	return strings.Join(p, " > ")
}

func (p *Prog) modPath() string { return p.mod }

// fpos is where a function is, or nothing.
func (p *Prog) fpos(name string) string {
	f := p.fn(name)
	if f == nil || !f.Pos().IsValid() {
		return ""
	}
	x := p.fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, p.root+"/"), x.Line)
}
