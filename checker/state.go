package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	iter   map[*ssa.BasicBlock]int  // visits of the loop heads in this run of the loop
	det    map[*ssa.BasicBlock]bool // an exit test of this iteration was decided by constants
	nd     map[*ssa.BasicBlock]int  // undecided exit tests
	defers []deferred
	site   ssa.Instruction
	up     *Frame
}

type deferred struct {
	in   *ssa.Defer
	fn   Val
	args []Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.iter = cloneBI(f.iter)
	n.nd = cloneBI(f.nd)
	n.det = map[*ssa.BasicBlock]bool{}
	for k, v := range f.det {
		n.det[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

func cloneBI(m map[*ssa.BasicBlock]int) map[*ssa.BasicBlock]int {
	n := make(map[*ssa.BasicBlock]int, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

type State struct {
	e    *Engine
	own  *int
	objs map[ObjID]*Obj
	sub  map[SymID]Lin
	bind map[SymID]Val
	nn   map[SymID]bool
	neL  []Lin
	wide []Lin // sums of three symbols or more which are not positive: the zone does not hold them
	neV  map[string]bool
	z    *Zone
	g    map[string]Val // ghost state of the rule: constants only
	fr   *Frame
}

func (e *Engine) newState() *State {
	return &State{e: e, own: new(int), objs: map[ObjID]*Obj{}, sub: map[SymID]Lin{}, bind: map[SymID]Val{}, nn: map[SymID]bool{}, neV: map[string]bool{}, z: newZone(), g: map[string]Val{}}
}

func (st *State) clone() *State {
	n := &State{e: st.e, own: new(int), objs: make(map[ObjID]*Obj, len(st.objs)), sub: make(map[SymID]Lin, len(st.sub)), bind: make(map[SymID]Val, len(st.bind)), nn: make(map[SymID]bool, len(st.nn)), neV: make(map[string]bool, len(st.neV)), z: st.z.clone(), g: make(map[string]Val, len(st.g))}
	st.own = new(int)
	for k, v := range st.objs {
		n.objs[k] = v
	}
	for k, v := range st.sub {
		n.sub[k] = v
	}
	for k, v := range st.bind {
		n.bind[k] = v
	}
	for k := range st.nn {
		n.nn[k] = true
	}
	for k := range st.neV {
		n.neV[k] = true
	}
	for k, v := range st.g {
		n.g[k] = v
	}
	n.neL = append([]Lin(nil), st.neL...)
	n.wide = append([]Lin(nil), st.wide...)
	if st.fr != nil {
		n.fr = st.fr.clone()
	}
	return n
}

func (st *State) wobj(id ObjID) *Obj {
	o := st.objs[id]
	if o == nil {
		panic(fmt.Sprintf("no object o%d", id))
	}
	if o.own != st.own {
		o = o.clone(st.own)
		st.objs[id] = o
	}
	return o
}

// ---- symbols

func (e *Engine) newSym(t types.Type, name string) SymID {
	id := SymID(len(e.syms))
	lo, hi := -inf, inf
	if t != nil {
		lo, hi = intRange(t)
	}
	e.syms = append(e.syms, &SymMeta{T: t, Lo: lo, Hi: hi, Name: name})
	return id
}

func (e *Engine) newInt(t types.Type, name string, lo, hi int64) Lin {
	s := e.newSym(t, name)
	e.syms[s].Lo, e.syms[s].Hi = lo, hi
	return ls(s)
}

// fresh is an unknown value of a type.
func (e *Engine) fresh(t types.Type, name string) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 1 {
			return e.fresh(tt.At(0).Type(), name)
		}
		r := VTuple{}
		for i := 0; i < tt.Len(); i++ {
			r = append(r, e.fresh(tt.At(i).Type(), fmt.Sprintf("%s#%d", name, i)))
		}
		return r
	}
	if isIntT(t) {
		return VInt{ls(e.newSym(t, name))}
	}
	if isAggT(t) && !e.opaqueStruct(t) {
		e.nfresh++
		return VAgg{T: t, Cells: map[string]Val{}, Lazy: true, Org: fmt.Sprintf("%s~%d", name, e.nfresh)}
	}
	return VSym{e.newSym(t, name)}
}

func lins(v Val, f func(Lin)) {
	switch x := v.(type) {
	case VInt:
		f(x.L)
	case VCond:
		lins(x.X, f)
		lins(x.Y, f)
	case VSlice:
		f(x.Off)
		f(x.Len)
		f(x.Cap)
	}
}

func (e *Engine) depsOf(v Val, into map[SymID]bool) {
	switch x := v.(type) {
	case VSym:
		into[x.S] = true
		for _, d := range e.syms[x.S].Deps {
			into[d] = true
		}
	case VTuple:
		for _, y := range x {
			e.depsOf(y, into)
		}
	case VIface:
		e.depsOf(x.V, into)
	default:
		lins(v, func(l Lin) {
			for _, t := range l.T {
				into[t.S] = true
				for _, d := range e.syms[t.S].Deps {
					into[d] = true
				}
			}
		})
	}
}

// term is the value of an uninterpreted pure operation: equal arguments give the same value.
func (e *Engine) term(op string, t types.Type, args ...Val) Val {
	k := op + ":" + typeKey(t)
	for _, a := range args {
		k += "|" + vkey(a)
	}
	if v, ok := e.terms[k]; ok {
		return v
	}
	v := e.fresh(t, op)
	var s SymID = -1
	switch x := v.(type) {
	case VInt:
		s = x.L.T[0].S
	case VSym:
		s = x.S
	}
	if s >= 0 {
		m := e.syms[s]
		m.Op, m.Args = op, args
		d := map[SymID]bool{}
		for _, a := range args {
			e.depsOf(a, d)
		}
		for x := range d {
			m.Deps = append(m.Deps, x)
		}
		sort.Slice(m.Deps, func(i, j int) bool { return m.Deps[i] < m.Deps[j] })
	}
	e.terms[k] = v
	return v
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() <= types.UnsafePointer {
		return types.Typ[b.Kind()].String()
	}
	return types.TypeString(t, nil)
}

// norm applies the equalities known in the state.
func (st *State) norm(l Lin) Lin {
	for round := 0; round < 50; round++ {
		changed := false
		r := Lin{C: l.C}
		for _, t := range l.T {
			n, ch := st.normSym(t.S)
			if ch {
				changed = true
				r = r.add(n.scale(t.K))
			} else {
				r = r.add(Lin{T: []Term{t}})
			}
		}
		if !changed {
			return l
		}
		l = r
	}
	return l
}

func (st *State) normSym(s SymID) (Lin, bool) {
	if l, ok := st.sub[s]; ok {
		return l, true
	}
	m := st.e.syms[s]
	if m.Op == "" || len(st.sub) == 0 && len(st.bind) == 0 {
		return Lin{}, false
	}
	hit := false
	for _, d := range m.Deps {
		if _, ok := st.sub[d]; ok {
			hit = true
			break
		}
		if _, ok := st.bind[d]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return Lin{}, false
	}
	args := make([]Val, len(m.Args))
	ch := false
	for i, a := range m.Args {
		args[i] = st.deepNorm(a)
		if vkey(args[i]) != vkey(a) {
			ch = true
		}
	}
	if !ch {
		return Lin{}, false
	}
	if v, ok := st.e.evalOp(st, m.Op, m.T, args).(VInt); ok {
		if len(v.L.T) == 1 && v.L.C == 0 && v.L.T[0].K == 1 && v.L.T[0].S == s {
			return Lin{}, false
		}
		return v.L, true
	}
	return Lin{}, false
}

func (st *State) deepNorm(v Val) Val {
	switch x := v.(type) {
	case VInt:
		return VInt{st.norm(x.L)}
	case VTuple:
		r := make(VTuple, len(x))
		for i := range x {
			r[i] = st.deepNorm(x[i])
		}
		return r
	}
	return st.nv(v)
}

// nv resolves what is known about a value.
func (st *State) nv(v Val) Val {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case VInt:
			return VInt{st.norm(x.L)}
		case VSym:
			b, ok := st.bind[x.S]
			if !ok {
				m := st.e.syms[x.S]
				if m.Op != "" && len(st.bind)+len(st.sub) > 0 {
					if n, ok := st.renorm(x.S, m); ok {
						v = n
						continue
					}
				}
				return v
			}
			v = b
			continue
		case VSlice:
			return VSlice{x.O, x.P, st.norm(x.Off), st.norm(x.Len), st.norm(x.Cap)}
		case VCond:
			switch st.decide(x) {
			case 0:
				return boolV(false)
			case 1:
				return boolV(true)
			}
			return v
		default:
			return v
		}
	}
	return v
}

func (st *State) renorm(s SymID, m *SymMeta) (Val, bool) {
	hit := false
	for _, d := range m.Deps {
		if _, ok := st.sub[d]; ok {
			hit = true
			break
		}
		if _, ok := st.bind[d]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return nil, false
	}
	args := make([]Val, len(m.Args))
	ch := false
	for i, a := range m.Args {
		args[i] = st.deepNorm(a)
		if vkey(args[i]) != vkey(a) {
			ch = true
		}
	}
	if !ch {
		return nil, false
	}
	v := st.e.evalOp(st, m.Op, m.T, args)
	if y, ok := v.(VSym); ok && y.S == s {
		return nil, false
	}
	// what is known about the old name holds of the new one
	if y, ok := v.(VSym); ok && st.nn[s] {
		st.nn[y.S] = true
	}
	return v, true
}

func (st *State) touch(s SymID) {
	if s == 0 {
		return
	}
	if _, ok := st.z.idx[s]; ok {
		return
	}
	m := st.e.syms[s]
	if m.Hi < inf {
		st.z.add(s, 0, m.Hi)
	}
	if m.Lo > -inf {
		st.z.add(0, s, -m.Lo)
	}
}

func (st *State) touchL(l Lin) {
	for _, t := range l.T {
		st.touch(t.S)
	}
}

func (st *State) upper(l Lin) int64 {
	l = st.norm(l)
	st.touchL(l)
	u := st.z.upper(l)
	if len(l.T) > 1 {
		for i, w := range st.wide {
			w = st.norm(w)
			st.wide[i] = w
			if d := l.sub(w); len(d.T) <= 1 {
				if x := st.z.upper(d); x < u {
					u = x
				}
			}
		}
	}
	return u
}

func (st *State) lower(l Lin) int64 {
	u := st.upper(l.scale(-1))
	if u >= inf {
		return -inf
	}
	return -u
}

func (st *State) assumeLE0(l Lin) bool {
	l = st.norm(l)
	st.touchL(l)
	if len(l.T) > 2 && len(l.T) < 5 && st.upper(l) > 0 {
		if st.lower(l) > 0 {
			st.z.bad = true
			return false
		}
		if len(st.wide) > 15 {
			st.wide = st.wide[1:]
		}
		st.wide = append(st.wide, l)
	}
	st.z.assumeLE(l)
	if !st.z.bad {
		st.pinch(l)
	}
	return !st.z.bad
}

// pinch turns a symbol left with one value into that constant.
func (st *State) pinch(l Lin) {
	for _, t := range l.T {
		hi, lo := st.z.diff(t.S, 0), st.z.diff(0, t.S)
		if hi < inf && lo < inf && hi == -lo {
			if _, ok := st.sub[t.S]; !ok {
				st.sub[t.S] = lc(hi)
			}
		}
	}
}

func (st *State) assumeEQ(d Lin) bool {
	d = st.norm(d)
	if d.isC() {
		return d.C == 0
	}
	if !st.mayEQ0(d) {
		return false
	}
	if !st.assumeLE0(d) || !st.assumeLE0(d.scale(-1)) {
		return false
	}
	d = st.norm(d)
	if d.isC() {
		return d.C == 0
	}
	for i := len(d.T) - 1; i >= 0; i-- {
		t := d.T[i]
		if t.K == 1 || t.K == -1 {
			// a term cannot be replaced by an expression of itself
			rest := without(d, i, i).scale(-t.K)
			if st.e.mentions(rest, t.S) {
				continue
			}
			st.sub[t.S] = rest
			break
		}
	}
	return true
}

func (e *Engine) mentions(l Lin, s SymID) bool {
	for _, t := range l.T {
		if t.S == s {
			return true
		}
		for _, d := range e.syms[t.S].Deps {
			if d == s {
				return true
			}
		}
	}
	return false
}

func (st *State) mayEQ0(d Lin) bool {
	d = st.norm(d)
	if d.isC() {
		return d.C == 0
	}
	if st.upper(d) < 0 || st.lower(d) > 0 {
		return false
	}
	if len(d.T) == 1 && (d.T[0].K == 1 || d.T[0].K == -1) {
		if vals := st.e.syms[d.T[0].S].Vals; vals != nil {
			want := -d.C * d.T[0].K
			found := false
			for _, v := range vals {
				if v == want {
					found = true
				}
			}
			if !found {
				return false
			}
		}
	}
	for i, n := range st.neL {
		nn := st.norm(n)
		st.neL[i] = nn
		if nn.eq(d) || nn.scale(-1).eq(d) {
			return false
		}
	}
	return true
}

func (st *State) assumeNE(d Lin) bool {
	d = st.norm(d)
	if d.isC() {
		return d.C != 0
	}
	if st.lower(d) == 0 {
		return st.assumeLE0(d.scale(-1).addC(1))
	}
	if st.upper(d) == 0 {
		return st.assumeLE0(d.addC(1))
	}
	if st.upper(d) < 0 || st.lower(d) > 0 {
		return true
	}
	for _, n := range st.neL {
		if n.eq(d) || n.scale(-1).eq(d) {
			return true
		}
	}
	st.neL = append(st.neL, d)
	if len(st.neL) > 64 {
		st.neL = st.neL[len(st.neL)-64:]
	}
	return true
}

// nilness: 0 unknown, 1 nil, 2 not nil.
func (st *State) nilness(v Val) int {
	switch x := st.nv(v).(type) {
	case VNil:
		return 1
	case VSym:
		if st.nn[x.S] || st.e.nonNil[x.S] {
			return 2
		}
		return 0
	}
	return 2
}

func isLit(v Val) bool {
	switch v.(type) {
	case VStr, VFlt:
		return true
	}
	return false
}

// decide: 0 false, 1 true, 2 unknown.
func (st *State) decide(c VCond) int {
	x, y := c.X, c.Y
	if xc, ok := x.(VCond); ok {
		switch st.decide(xc) {
		case 0:
			x = boolV(false)
		case 1:
			x = boolV(true)
		default:
			return 2
		}
	}
	if yc, ok := y.(VCond); ok {
		switch st.decide(yc) {
		case 0:
			y = boolV(false)
		case 1:
			y = boolV(true)
		default:
			return 2
		}
	}
	x, y = st.nv(x), st.nv(y)
	xi, ok1 := x.(VInt)
	yi, ok2 := y.(VInt)
	if ok1 && ok2 {
		d := st.norm(xi.L.sub(yi.L))
		switch c.Op {
		case "==", "!=":
			r := 2
			if d.isC() {
				if d.C == 0 {
					r = 1
				} else {
					r = 0
				}
			} else if !st.mayEQ0(d) {
				r = 0
			}
			if c.Op == "!=" && r != 2 {
				r = 1 - r
			}
			return r
		case "<":
			if st.upper(d) < 0 {
				return 1
			}
			if st.lower(d) >= 0 {
				return 0
			}
		case "<=":
			if st.upper(d) <= 0 {
				return 1
			}
			if st.lower(d) > 0 {
				return 0
			}
		}
		return 2
	}
	if c.Op == "<" || c.Op == "<=" {
		if a, ok := x.(VFlt); ok {
			if b, ok := y.(VFlt); ok {
				if c.Op == "<" {
					return b2i(a.F < b.F)
				}
				return b2i(a.F <= b.F)
			}
		}
		return 2
	}
	r := st.valEq(x, y)
	if c.Op == "!=" && r != 2 {
		r = 1 - r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (st *State) valEq(x, y Val) int {
	_, xn := x.(VNil)
	_, yn := y.(VNil)
	if xn || yn {
		if xn && yn {
			return 1
		}
		o := x
		if xn {
			o = y
		}
		switch st.nilness(o) {
		case 1:
			return 1
		case 2:
			return 0
		}
		return 2
	}
	switch a := x.(type) {
	case VStr:
		if b, ok := y.(VStr); ok {
			return b2i(a.S == b.S)
		}
	case VFlt:
		if b, ok := y.(VFlt); ok {
			return b2i(a.F == b.F)
		}
	case VPtr:
		if b, ok := y.(VPtr); ok {
			if a == b {
				if st.objs[a.O] != nil && st.objs[a.O].Multi {
					return 2
				}
				return 1
			}
			if a.O == b.O {
				if strings.ContainsAny(a.P+b.P, "s") && strings.Contains(a.P, "[") {
					return 2
				}
				return 0
			}
			oa, ob := st.objs[a.O], st.objs[b.O]
			if oa != nil && ob != nil && !(oa.Lazy && ob.Lazy) && !oa.Multi && !ob.Multi {
				return 0
			}
			if st.e.noAlias {
				return 0
			}
			return 2
		}
	case VSym:
		if b, ok := y.(VSym); ok && a.S == b.S && !isFloatT(st.e.symT(a.S)) {
			return 1
		}
	case VIface:
		if b, ok := y.(VIface); ok {
			if !types.Identical(a.T, b.T) {
				return 0
			}
			return st.decide(VCond{"==", a.V, b.V})
		}
	case VFunc:
		return 2
	}
	if st.neV[neKey(x, y)] {
		return 0
	}
	return 2
}

func (e *Engine) symT(s SymID) types.Type {
	if t := e.syms[s].T; t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func neKey(x, y Val) string {
	a, b := vkey(x), vkey(y)
	if a > b {
		a, b = b, a
	}
	return a + "#" + b
}

// assume makes a condition true or false; the result is false if that is impossible.
func (st *State) assume(v Val, truth bool) bool {
	v = st.nvBool(v)
	switch x := v.(type) {
	case VInt:
		if truth {
			return st.assumeEQ(x.L.addC(-1))
		}
		return st.assumeEQ(x.L)
	case VCond:
		return st.assumeCond(x, truth)
	}
	return true
}

func (st *State) nvBool(v Val) Val { return st.nv(v) }

func (st *State) assumeCond(c VCond, truth bool) bool {
	switch st.decide(c) {
	case 0:
		return !truth
	case 1:
		return truth
	}
	op := c.Op
	if !truth {
		switch op {
		case "==":
			op = "!="
		case "!=":
			op = "=="
		case "<": // !(x<y) : y<=x
			op = "<="
			c.X, c.Y = c.Y, c.X
		case "<=":
			op = "<"
			c.X, c.Y = c.Y, c.X
		}
	}
	x, y := st.nv(c.X), st.nv(c.Y)
	if xc, ok := x.(VCond); ok {
		if k, ok := constOf(y); ok && (op == "==" || op == "!=") {
			return st.assumeCond(xc, (k == 1) == (op == "=="))
		}
	}
	if yc, ok := y.(VCond); ok {
		if k, ok := constOf(x); ok && (op == "==" || op == "!=") {
			return st.assumeCond(yc, (k == 1) == (op == "=="))
		}
	}
	xi, ok1 := x.(VInt)
	yi, ok2 := y.(VInt)
	if ok1 && ok2 {
		d := xi.L.sub(yi.L)
		switch op {
		case "==":
			return st.assumeEQ(d)
		case "!=":
			return st.assumeNE(d)
		case "<":
			return st.assumeLE0(d.addC(1))
		default:
			return st.assumeLE0(d)
		}
	}
	switch op {
	case "==":
		return st.assumeValEq(x, y)
	case "!=":
		if _, ok := x.(VNil); ok {
			x, y = y, x
		}
		if _, ok := y.(VNil); ok {
			if s, ok := x.(VSym); ok {
				st.nn[s.S] = true
			}
			return true
		}
		st.neV[neKey(x, y)] = true
	}
	return true
}

func (st *State) assumeValEq(x, y Val) bool {
	if _, ok := x.(VSym); !ok {
		x, y = y, x
	}
	if a, ok := x.(VSym); ok {
		if isFloatT(st.e.symT(a.S)) {
			if _, ok := y.(VFlt); !ok {
				return true
			}
		}
		if b, ok := y.(VSym); ok {
			if st.e.mentionsV(b.S, a.S) {
				x, y = y, x
				a, b = b, a
			}
			if st.nn[a.S] || st.e.nonNil[a.S] {
				st.nn[b.S] = true
			}
			if a.S == b.S {
				return true
			}
		}
		if _, ok := y.(VNil); ok && (st.nn[a.S] || st.e.nonNil[a.S]) {
			return false
		}
		st.bind[a.S] = y
		return true
	}
	if a, ok := x.(VIface); ok {
		if b, ok := y.(VIface); ok {
			return st.assumeCond(VCond{"==", a.V, b.V}, true)
		}
	}
	return true
}

func (e *Engine) mentionsV(s, in SymID) bool {
	for _, d := range e.syms[s].Deps {
		if d == in {
			return true
		}
	}
	return false
}

func (st *State) setNil(v Val) bool    { return st.assumeCond(VCond{"==", v, VNil{}}, true) }
func (st *State) setNonNil(v Val) bool { return st.assumeCond(VCond{"==", v, VNil{}}, false) }

// ---- heap

func (st *State) alloc(t types.Type, site string) ObjID {
	st.e.nobj++
	id := ObjID(st.e.nobj)
	st.objs[id] = &Obj{id: id, T: t, Cells: map[string]Val{}, Site: site, own: st.own}
	return id
}

func (e *Engine) lazyID(key string) ObjID {
	if id, ok := e.lazyIDs[key]; ok {
		return id
	}
	e.nobj++
	id := ObjID(e.nobj)
	e.lazyIDs[key] = id
	e.lazyOf[id] = key
	return id
}

func (st *State) lazyObj(key string, t types.Type) ObjID {
	id := st.e.lazyID(key)
	if st.objs[id] == nil {
		st.objs[id] = &Obj{id: id, T: t, Cells: map[string]Val{}, Lazy: true, Org: key, own: st.own}
	}
	return id
}

func (st *State) symKey(s SymID) string { return fmt.Sprintf("*v%d", s) }

// ptr resolves a pointer, map or channel which is not nil.
func (st *State) ptr(v Val) (VPtr, bool) {
	switch x := st.nv(v).(type) {
	case VPtr:
		return x, true
	case VSym:
		t := st.e.symT(x.S)
		var el types.Type = t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
		id := st.lazyObj(st.symKey(x.S), el)
		st.nn[x.S] = true
		p := VPtr{id, ""}
		st.bind[x.S] = p
		return p, true
	}
	return VPtr{}, false
}

func (st *State) lenOf(v Val) Lin {
	switch x := st.nv(v).(type) {
	case VNil:
		return lc(0)
	case VStr:
		return lc(int64(len(x.S)))
	case VSlice:
		return x.Len
	case VSym:
		l := st.e.term("len", types.Typ[types.Int], x).(VInt)
		m := st.e.syms[l.L.T[0].S]
		if m.Lo < 0 {
			m.Lo = 0
		}
		return st.norm(l.L)
	case VPtr: // map, or pointer to array
		o := st.objs[x.O]
		if at, ok := o.T.Underlying().(*types.Array); ok {
			return lc(at.Len())
		}
		if l, ok := o.Cells["#len"]; ok {
			return st.norm(l.(VInt).L)
		}
		if o.Lazy {
			l := st.e.term("maplen", types.Typ[types.Int], VStr{o.Org + o.key()}).(VInt)
			st.e.syms[l.L.T[0].S].Lo = 0
			return st.norm(l.L)
		}
		return lc(0)
	}
	return st.e.newInt(types.Typ[types.Int], "len", 0, inf)
}

// slice resolves a slice which is not nil.
func (st *State) slice(v Val) (VSlice, bool) {
	switch x := st.nv(v).(type) {
	case VSlice:
		return x, true
	case VSym:
		t, ok := st.e.symT(x.S).Underlying().(*types.Slice)
		if !ok {
			return VSlice{}, false
		}
		l := st.lenOf(x)
		id := st.lazyObj(st.symKey(x.S), types.NewArray(t.Elem(), -1))
		s := VSlice{id, "", lc(0), l, l}
		return s, true
	}
	return VSlice{}, false
}

func (e *Engine) zero(t types.Type) Val {
	if isIntT(t) {
		return VInt{lc(0)}
	}
	if isStringT(t) {
		return VStr{""}
	}
	if isFloatT(t) {
		return VFlt{0}
	}
	if nillable(t) {
		return VNil{}
	}
	if e.opaqueStruct(t) {
		return VAgg{T: t, Cells: map[string]Val{}}
	}
	if isAggT(t) {
		return VAgg{T: t, Cells: map[string]Val{}}
	}
	if tt, ok := t.(*types.Tuple); ok {
		r := VTuple{}
		for i := 0; i < tt.Len(); i++ {
			r = append(r, e.zero(tt.At(i).Type()))
		}
		return r
	}
	return VNil{}
}

// lazyCell is the unknown content of a cell.
func (e *Engine) lazyCell(org string, root types.Type, path string, t types.Type) Val {
	if isAggT(t) {
		return VAgg{T: t, Cells: map[string]Val{}, Lazy: true, Org: org + path}
	}
	v := e.term("cell", t, VStr{org + path})
	keep := true
	for _, ix := range pathLins(e, path) {
		keep = keep && ix.isC()
	}
	if keep {
		e.kid(org, v)
	}
	if s, ok := v.(VSym); ok && e.cellNonNil(root, path, t) {
		e.nonNil[s.S] = true
	}
	if i, ok := v.(VInt); ok && e.cellRange != nil {
		if lo, hi, ok := e.cellRange(root, path); ok {
			m := e.syms[i.L.T[0].S]
			m.Lo, m.Hi = lo, hi
		}
	}
	return v
}

// kid remembers a value read from a lazily made object: it can be reached from there.
func (e *Engine) kid(org string, v Val) {
	var id SymID
	switch x := v.(type) {
	case VSym:
		id = x.S
	case VInt:
		if len(x.L.T) != 1 {
			return
		}
		id = x.L.T[0].S
	default:
		return
	}
	for ; ; org = e.orgUp[org] {
		k := fmt.Sprintf("%d %s", id, org)
		if e.isKid[k] {
			return
		}
		e.isKid[k] = true
		e.kids[org] = append(e.kids[org], v)
		if _, ok := e.orgUp[org]; !ok {
			return
		}
	}
}

func splitIndex(p string) (string, string, bool) {
	// the last index of a path ending with one
	if !strings.HasSuffix(p, "]") {
		return "", "", false
	}
	i := strings.LastIndex(p, "[")
	return p[:i], p[i+1 : len(p)-1], true
}

// load reads a cell of type t.
func (st *State) load(p VPtr, t types.Type) Val {
	o := st.objs[p.O]
	if o == nil {
		return st.e.fresh(t, "gone")
	}
	if isAggT(t) {
		return st.loadAgg(o, p.P, t)
	}
	if v, ok := o.Cells[p.P]; ok {
		return st.nv(v)
	}
	return st.loadDefault(o, p.P, t)
}

func (st *State) loadAgg(o *Obj, p string, t types.Type) Val {
	r := VAgg{T: t, Cells: map[string]Val{}, Lazy: o.Lazy, Org: o.Org + p}
	if o.Lazy && p != "" {
		st.e.orgUp[r.Org] = o.Org
	}
	for k, v := range o.Cells {
		if len(k) > len(p) && strings.HasPrefix(k, p) && (k[len(p)] == '.' || k[len(p)] == '[' || k[len(p)] == '#') {
			r.Cells[k[len(p):]] = v
		}
	}
	if len(o.Base) > 0 || o.Fuzzy != nil && st.fuzzyAt(o, p) {
		r.Lazy = true
		st.e.nfresh++
		r.Org = fmt.Sprintf("agg~%d", st.e.nfresh)
	}
	return r
}

func (st *State) fuzzyAt(o *Obj, p string) bool {
	for f := range o.Fuzzy {
		if strings.HasPrefix(p, f) {
			return true
		}
	}
	return false
}

// indexIn splits path p at its first index which is below an array of o with an unknown index among the cells.
func (st *State) loadDefault(o *Obj, p string, t types.Type) Val {
	// a cell whose index may be equal makes the content unknown
	if strings.Contains(p, "[") {
		if v := st.table(o, p, t); v != nil {
			return v
		}
		if st.mayOverlap(o, p) {
			return st.e.elem(p, t, "overlap")
		}
		if len(o.Base) > 0 {
			if arr, ix, ok := splitIndex(p); ok && arr == "" {
				return st.baseAt(o, ix, t)
			}
		}
	}
	if o.Fuzzy != nil && st.fuzzyAt(o, p) {
		return st.e.elem(p, t, "fuzzy")
	}
	if o.Lazy {
		return st.nv(st.e.lazyCell(o.Org, o.T, p, t))
	}
	return st.e.zero(t)
}

// elem is an unknown element of a list, or another unknown cell.
func (e *Engine) elem(p string, t types.Type, name string) Val {
	v := e.fresh(t, name)
	if s, ok := v.(VSym); ok && strings.HasSuffix(p, "]") && e.elemNonNil(t) {
		e.nonNil[s.S] = true
	}
	return v
}

// table is an element of an array of constants at an unknown index, as a function of the content and the index.
func (st *State) table(o *Obj, p string, t types.Type) Val {
	arr, ix, ok := splitIndex(p)
	if !ok || o.Lazy || len(o.Base) > 0 || o.Fuzzy != nil || o.Multi || !isIntT(t) {
		return nil
	}
	at, ok := o.T.Underlying().(*types.Array)
	if arr != "" || !ok || at.Len() < 4 || at.Len() > 4096 {
		return nil
	}
	idx, ok := st.e.linOf(ix)
	if !ok {
		return nil
	}
	idx = st.norm(idx)
	if idx.isC() || st.lower(idx) < 0 || st.upper(idx) >= at.Len() {
		return nil
	}
	tab := make([]int64, at.Len())
	lo, hi := inf, -inf
	var key strings.Builder
	for i := range tab {
		if v, ok := o.Cells["["+st.e.linKey(lc(int64(i)))+"]"]; ok {
			c, ok := constOf(st.nv(v))
			if !ok {
				return nil
			}
			tab[i] = c
		}
		if tab[i] < lo {
			lo = tab[i]
		}
		if tab[i] > hi {
			hi = tab[i]
		}
		fmt.Fprintf(&key, "%d,", tab[i])
	}
	k := key.String()
	if st.e.tables == nil {
		st.e.tables = map[string][]int64{}
	}
	st.e.tables[k] = tab
	v := st.e.term("tab", t, VStr{k}, VInt{idx})
	if i, ok := v.(VInt); ok && len(i.L.T) == 1 {
		m := st.e.syms[i.L.T[0].S]
		m.Lo, m.Hi = lo, hi
	}
	return st.nv(v)
}

func (st *State) baseAt(o *Obj, ix string, t types.Type) Val {
	idx, ok := st.e.linOf(ix)
	if !ok {
		return st.e.fresh(t, "elem")
	}
	return st.segAt(o.Base, st.norm(idx), t)
}

// segAt is the element of a sequence at an index.
func (st *State) segAt(segs []Seg, idx Lin, t types.Type) Val {
	pos := lc(0)
	for _, s := range segs {
		n := s.length()
		d := idx.sub(pos)
		if st.lower(d) >= 0 && st.upper(d.sub(n)) < 0 {
			switch s.Kind {
			case segByte:
				return VInt{s.B}
			case segArr:
				return st.arrAt(s.Arr, s.P, s.Off.add(d), t)
			default:
				v := st.e.fresh(t, "seg")
				if i, ok := v.(VInt); ok {
					m := st.e.syms[i.L.T[0].S]
					m.Lo, m.Hi = s.Lo, s.Hi
				}
				return v
			}
		}
		if st.lower(d.sub(n)) < 0 {
			break
		}
		pos = pos.add(n)
	}
	return st.e.term("seg", t, VSegs{segs}, VInt{idx})
}

func (st *State) arrAt(o *Obj, p string, idx Lin, t types.Type) Val {
	idx = st.norm(idx)
	path := p + "[" + st.e.linKey(idx) + "]"
	if v, ok := o.Cells[path]; ok {
		return st.nv(v)
	}
	return st.loadDefault(o, path, t)
}

func (e *Engine) linKey(l Lin) string {
	k := l.String()
	e.linKeys[k] = l
	return k
}
func (e *Engine) linOf(k string) (Lin, bool) {
	l, ok := e.linKeys[k]
	return l, ok
}

// mayOverlap: a cell is stored at an index which may be that of p.
func (st *State) mayOverlap(o *Obj, p string) bool {
	for k := range o.Cells {
		if st.mayAliasPath(k, p) {
			return true
		}
	}
	return false
}

// mayAliasPath: the two paths differ only in indices which may be equal.
func (st *State) mayAliasPath(a, b string) bool {
	if !strings.Contains(a, "[") || !strings.Contains(b, "[") {
		return false
	}
	sa, ia := pathShape(a)
	sb, ib := pathShape(b)
	if sa != sb {
		return false
	}
	same := true
	for i := range ia {
		if ia[i] == ib[i] {
			continue
		}
		same = false
		la, ok1 := st.e.linOf(ia[i])
		lb, ok2 := st.e.linOf(ib[i])
		if !ok1 || !ok2 {
			continue
		}
		if !st.mayEQ0(la.sub(lb)) {
			return false
		}
	}
	return !same
}

func pathShape(p string) (string, []string) {
	var sh strings.Builder
	var ix []string
	for {
		i := strings.Index(p, "[")
		if i < 0 {
			sh.WriteString(p)
			break
		}
		j := strings.Index(p[i:], "]") + i
		sh.WriteString(p[:i] + "[]")
		ix = append(ix, p[i+1:j])
		p = p[j+1:]
	}
	return sh.String(), ix
}

func (st *State) store(p VPtr, v Val, t types.Type) {
	o := st.wobj(p.O)
	v = st.nv(v)
	if o.Multi {
		st.weaken(o, p.P)
		return
	}
	// remove the cells below and those which may be the same
	for k := range o.Cells {
		if strings.HasPrefix(k, p.P) && (len(k) == len(p.P) || strings.ContainsRune(".[#", rune(k[len(p.P)]))) {
			delete(o.Cells, k)
		} else if strings.Contains(p.P, "[") && st.mayAliasPath(k, p.P) {
			delete(o.Cells, k)
			st.fuzz(o, k)
		}
	}
	if a, ok := v.(VAgg); ok && isAggT(t) {
		for k, x := range a.Cells {
			o.Cells[p.P+k] = x
		}
		if a.Lazy == o.Lazy && !a.Lazy && len(o.Base) == 0 && !st.fuzzyAt(o, p.P) {
			return
		}
		st.e.leaves(t, func(l string, lt types.Type) {
			if _, ok := o.Cells[p.P+l]; ok {
				return
			}
			o.Cells[p.P+l] = st.aggGet(a, l, lt)
		})
		return
	}
	o.Cells[p.P] = v
}

// fuzz: the cell at a path is no longer known.
func (st *State) fuzz(o *Obj, path string) {
	if o.Fuzzy == nil {
		o.Fuzzy = map[string]bool{}
	}
	if i := strings.LastIndex(path, "["); i >= 0 {
		path = path[:i+1]
	}
	o.Fuzzy[path] = true
}

func (st *State) weaken(o *Obj, path string) {
	for k := range o.Cells {
		if strings.HasPrefix(k, path) {
			delete(o.Cells, k)
		}
	}
	if o.Fuzzy == nil {
		o.Fuzzy = map[string]bool{}
	}
	o.Fuzzy[path] = true
}

func (st *State) aggGet(a VAgg, path string, t types.Type) Val {
	if isAggT(t) && path == "" {
		return a
	}
	if isAggT(t) {
		r := VAgg{T: t, Cells: map[string]Val{}, Lazy: a.Lazy, Org: a.Org + path}
		for k, v := range a.Cells {
			if len(k) > len(path) && strings.HasPrefix(k, path) && strings.ContainsRune(".[#", rune(k[len(path)])) {
				r.Cells[k[len(path):]] = v
			}
		}
		return r
	}
	if v, ok := a.Cells[path]; ok {
		return st.nv(v)
	}
	if a.Lazy {
		return st.nv(st.e.lazyCell(a.Org, a.T, path, t))
	}
	return st.e.zero(t)
}

// havoc forgets the content of everything reachable from the values.
func (st *State) havoc(vs ...Val) {
	seen := map[ObjID]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := st.nv(v).(type) {
		case VPtr:
			if seen[x.O] || st.e.frozen[x.O] {
				return
			}
			seen[x.O] = true
			if st.objs[x.O] == nil {
				return
			}
			for _, c := range st.objs[x.O].Cells {
				walk(c)
			}
			st.havocObj(x.O)
		case VSlice:
			walk(VPtr{x.O, ""})
		case VIface:
			walk(x.V)
		case VAgg:
			for _, c := range x.Cells {
				walk(c)
			}
		case VTuple:
			for _, c := range x {
				walk(c)
			}
		case VFunc:
			for _, c := range x.B {
				walk(c)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
}

func (st *State) havocObj(id ObjID) {
	o := st.wobj(id)
	st.e.nfresh++
	keep := map[string]Val{}
	for k, v := range o.Cells {
		if _, ok := v.(Custom); ok {
			keep[k] = v
		}
	}
	o.Cells = keep
	o.Lazy = true
	o.Base = nil
	o.Fuzzy = nil
	o.Org = fmt.Sprintf("hv~%d", st.e.nfresh)
}
