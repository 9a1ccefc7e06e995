package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkNil continues with a value known not to be nil; it reports the panic if it may be.
func (e *Engine) checkNil(st *State, in ssa.Instruction, v Val, what string) bool {
	switch st.nilness(v) {
	case 2:
		return true
	case 1:
		e.definite = true
		e.panics(st, in, "nil", what)
		e.definite = false
		return false
	}
	n := st.clone()
	if n.setNil(v) {
		e.panics(n, in, "nil", what)
	}
	return st.setNonNil(v)
}

func (e *Engine) chanUse(st *State, in ssa.Instruction, v Val, what string) {
	if e.onChan != nil && e.reporting {
		e.onChan(st, in, v, what)
	}
}

// checkRange continues with lo <= idx <= hi.
func (e *Engine) checkRange(st *State, in ssa.Instruction, idx, lo, hi Lin, kind, what string) bool {
	bad := false
	if st.lower(idx.sub(lo)) < 0 {
		bad = true
	}
	if st.upper(idx.sub(hi)) > 0 {
		bad = true
	}
	if bad {
		feasible := false
		n := st.clone()
		if n.assumeLE0(idx.sub(lo).addC(1)) {
			feasible = true
			e.panics(n, in, kind, what)
		}
		if !feasible {
			n = st.clone()
			if n.assumeLE0(hi.sub(idx).addC(1)) {
				e.panics(n, in, kind, what)
			}
		}
	}
	return st.assumeLE0(lo.sub(idx)) && st.assumeLE0(idx.sub(hi))
}

func (st *State) intOf(v Val) Lin {
	switch x := st.nv(v).(type) {
	case VInt:
		return x.L
	case VCond:
		// a truth value not decided: name it
		b := st.e.term("cond", types.Typ[types.Bool], x).(VInt)
		return b.L
	}
	return st.e.newInt(types.Typ[types.Int], "int", -inf, inf)
}

func one(st *State) []*State { return []*State{st} }

func desc(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return desc(x.X)
		}
	case *ssa.FieldAddr:
		return desc(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return desc(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Global:
		return x.Name()
	case *ssa.IndexAddr:
		return desc(x.X) + "[]"
	case *ssa.Extract:
		return desc(x.Tuple)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "the result of " + f.Name()
		}
		if x.Call.IsInvoke() {
			return "the result of " + x.Call.Method.Name()
		}
	case *ssa.Lookup:
		return "an entry of " + desc(x.X)
	}
	return "a value"
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?"
}

func (e *Engine) instr(st *State, in ssa.Instruction) []*State {
	switch x := in.(type) {
	case *ssa.Alloc:
		id := st.alloc(x.Type().(*types.Pointer).Elem(), "alloc "+x.Comment+" "+e.short(x.Parent()))
		st.set(x, VPtr{id, ""})
	case *ssa.BinOp:
		return e.binop(st, x)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.Call:
		return e.callInstr(st, x, x.Common(), x)
	case *ssa.ChangeInterface:
		st.set(x, st.get(x.X))
	case *ssa.ChangeType:
		st.set(x, st.get(x.X))
	case *ssa.Convert:
		st.set(x, e.convert(st, st.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		st.set(x, e.fresh(x.Type(), "conv"))
	case *ssa.MakeInterface:
		st.set(x, VIface{x.X.Type(), st.get(x.X)})
	case *ssa.Extract:
		switch t := st.get(x.Tuple).(type) {
		case VTuple:
			if x.Index < len(t) && t[x.Index] != nil {
				st.set(x, t[x.Index])
				return one(st)
			}
		}
		st.set(x, e.fresh(x.Type(), "extract"))
	case *ssa.Field:
		f := fieldName(x.X.Type(), x.Field)
		if a, ok := st.get(x.X).(VAgg); ok {
			st.set(x, st.aggGet(a, "."+f, x.Type()))
		} else {
			st.set(x, e.fresh(x.Type(), f))
		}
	case *ssa.FieldAddr:
		v := st.get(x.X)
		if !e.checkNil(st, x, v, desc(x.X)) {
			return nil
		}
		p, ok := st.ptr(v)
		if !ok {
			st.set(x, e.fresh(x.Type(), "fieldaddr"))
			return one(st)
		}
		if e.opaqueStruct(x.X.Type().Underlying().(*types.Pointer).Elem()) {
			st.set(x, VPtr{st.lazyObj(fmt.Sprintf("opaque %d%s.%d", p.O, p.P, x.Field), x.Type().(*types.Pointer).Elem()), ""})
			return one(st)
		}
		st.set(x, VPtr{p.O, p.P + "." + fieldName(x.X.Type(), x.Field)})
	case *ssa.Index:
		return e.index(st, x)
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MakeChan:
		id := st.alloc(x.Type(), "chan")
		st.set(x, VPtr{id, ""})
	case *ssa.MakeClosure:
		f := VFunc{F: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.B = append(f.B, st.get(b))
		}
		st.set(x, f)
	case *ssa.MakeMap:
		if x.Reserve != nil && e.onMake != nil {
			e.onMake(st, x, x.Type(), st.norm(st.intOf(st.get(x.Reserve))))
		}
		id := st.alloc(x.Type(), "map "+e.short(x.Parent()))
		st.set(x, VPtr{id, ""})
	case *ssa.MakeSlice:
		n, c := st.intOf(st.get(x.Len)), st.intOf(st.get(x.Cap))
		if st.lower(n) < 0 {
			k := st.clone()
			if k.assumeLE0(n.addC(1)) {
				e.panics(k, x, "makeslice", "a negative length")
			}
			if !st.assumeLE0(n.scale(-1)) {
				return nil
			}
		}
		if !e.checkRange(st, x, n, lc(0), c, "makeslice", "a length above the capacity") {
			return nil
		}
		if e.onMake != nil {
			e.onMake(st, x, x.Type(), st.norm(c))
		}
		n, c = st.norm(n), st.norm(c)
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln := int64(-1)
		if c.isC() {
			ln = c.C
		}
		site := "make " + e.short(x.Parent())
		if n.isC() && n.C == 0 {
			site = "append " + site // filled by append alone
		}
		id := st.alloc(types.NewArray(el, ln), site)
		st.set(x, VSlice{id, "", lc(0), n, c})
	case *ssa.MapUpdate:
		return e.mapUpdate(st, x)
	case *ssa.Range:
		v := st.get(x.X)
		it := VIter{X: v}
		if p, ok := st.nv(v).(VPtr); ok {
			if _, isM := x.X.Type().Underlying().(*types.Map); isM {
				it.K = e.mapKeysOf(st, p)
			}
		}
		st.set(x, it)
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.Slice:
		return e.sliceOp(st, x)
	case *ssa.SliceToArrayPointer:
		st.set(x, e.fresh(x.Type(), "arrptr"))
	case *ssa.Store:
		v := st.get(x.Val)
		a := st.get(x.Addr)
		if !e.checkNil(st, x, a, desc(x.Addr)) {
			return nil
		}
		p, ok := st.ptr(a)
		if !ok {
			return one(st)
		}
		t := x.Val.Type()
		if e.onStore != nil {
			e.onStore(st, x, p, v, t)
		}
		st.store(p, v, t)
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Defer:
		fn, args := e.callee(st, &x.Call)
		st.fr.defers = append(st.fr.defers, deferred{x, fn, args})
	case *ssa.RunDefers:
		return e.runDefers(st, x)
	case *ssa.Go:
		fn, args := e.callee(st, &x.Call)
		if e.onGo != nil {
			e.onGo(st, x, fn, args)
		}
		if e.onGoRun != nil {
			return e.onGoRun(st, x, fn, args)
		}
	case *ssa.Send:
		e.chanUse(st, x, st.get(x.Chan), "send on")
	case *ssa.Select:
		for _, q := range x.States {
			e.chanUse(st, x, st.get(q.Chan), "select on")
		}
		st.set(x, e.fresh(x.Type(), "select"))
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			st.set(v, e.fresh(v.Type(), "unknown"))
		}
	}
	return one(st)
}

// ---- arithmetic

func isPow2(x int64) (int, bool) {
	if x <= 0 || x&(x-1) != 0 {
		return 0, false
	}
	n := 0
	for x > 1 {
		x >>= 1
		n++
	}
	return n, true
}

func lowZeros(l Lin) int {
	// the number of low bits which are zero in every value of the expression
	n := 62
	chk := func(c int64) {
		k := 0
		if c == 0 {
			return
		}
		for c&1 == 0 {
			c >>= 1
			k++
		}
		if k < n {
			n = k
		}
	}
	chk(l.C)
	for _, t := range l.T {
		chk(t.K)
	}
	return n
}

func (e *Engine) wrapLin(st *State, l Lin, t types.Type) Val {
	l = st.norm(l)
	lo, hi := intRange(t)
	if intBits(t) == 64 {
		if isUnsigned(t) {
			if l.isC() {
				return VInt{l}
			}
			if st.lower(l) >= 0 {
				return VInt{l}
			}
			return e.term("wrap", t, VInt{l})
		}
		return VInt{l}
	}
	if l.isC() {
		return intV(wrapC(l.C, t))
	}
	if st.lower(l) >= lo && st.upper(l) <= hi {
		return VInt{l}
	}
	return e.enumTerm(st, "wrap", t, VInt{l})
}

func wrapC(c int64, t types.Type) int64 {
	b := intBits(t)
	if b == 64 {
		return c
	}
	m := int64(1)<<uint(b) - 1
	c &= m
	if !isUnsigned(t) && !isBoolT(t) && c>>(uint(b)-1) == 1 {
		c -= m + 1
	}
	return c
}

// enumTerm names the result of an operation; when one argument is unknown within few values the result is bounded by trying them.
func (e *Engine) enumTerm(st *State, op string, t types.Type, args ...Val) Val {
	v := e.term(op, t, args...)
	i, ok := v.(VInt)
	if !ok || len(i.L.T) != 1 {
		return v
	}
	m := e.syms[i.L.T[0].S]
	if m.Vals != nil || m.enum {
		return v
	}
	m.enum = true
	var free SymID = -1
	multi := false
	for _, a := range args {
		if l, ok := a.(VInt); ok {
			for _, tt := range l.L.T {
				if free >= 0 && free != tt.S {
					multi = true
				}
				free = tt.S
			}
		} else {
			multi = true
		}
	}
	if free < 0 || multi {
		return v
	}
	fm := e.syms[free]
	var try []int64
	if fm.Vals != nil {
		try = fm.Vals
	} else if fm.Lo > -inf && fm.Hi < inf && fm.Hi-fm.Lo < 70000 {
		for c := fm.Lo; c <= fm.Hi; c++ {
			try = append(try, c)
		}
	} else {
		return v
	}
	set := map[int64]bool{}
	lo, hi := inf, -inf
	for _, c := range try {
		var xs []int64
		for _, a := range args {
			l := a.(VInt).L
			r := l.C
			for _, tt := range l.T {
				r += tt.K * c
			}
			xs = append(xs, r)
		}
		r, ok := constOp(op, t, xs)
		if !ok {
			return v
		}
		if r < lo {
			lo = r
		}
		if r > hi {
			hi = r
		}
		if len(set) <= 16 {
			set[r] = true
		}
	}
	if lo > m.Lo {
		m.Lo = lo
	}
	if hi < m.Hi {
		m.Hi = hi
	}
	if len(set) <= 16 && len(set) > 0 {
		for c := range set {
			m.Vals = append(m.Vals, c)
		}
		sort.Slice(m.Vals, func(a, b int) bool { return m.Vals[a] < m.Vals[b] })
	}
	return v
}

// constOp evaluates an operation on constants.
func constOp(op string, t types.Type, a []int64) (int64, bool) {
	u64 := isUnsigned(t) && intBits(t) == 64
	switch op {
	case "wrap", "conv":
		return wrapC(a[0], t), true
	case "not":
		return wrapC(^a[0], t), true
	case "b!":
		return 1 - a[0], true
	}
	if len(a) != 2 {
		return 0, false
	}
	x, y := a[0], a[1]
	switch op {
	case "+":
		return wrapC(x+y, t), true
	case "-":
		return wrapC(x-y, t), true
	case "*":
		return wrapC(x*y, t), true
	case "/":
		if y == 0 {
			return 0, false
		}
		if u64 {
			return int64(uint64(x) / uint64(y)), true
		}
		return wrapC(x/y, t), true
	case "%":
		if y == 0 {
			return 0, false
		}
		if u64 {
			return int64(uint64(x) % uint64(y)), true
		}
		return wrapC(x%y, t), true
	case "&":
		return x & y, true
	case "|":
		return x | y, true
	case "^":
		return wrapC(x^y, t), true
	case "&^":
		return x &^ y, true
	case "<<":
		if y < 0 {
			return 0, false
		}
		if y > 63 {
			return 0, true
		}
		return wrapC(x<<uint(y), t), true
	case ">>":
		if y < 0 {
			return 0, false
		}
		if u64 {
			if y > 63 {
				return 0, true
			}
			return int64(uint64(x) >> uint(y)), true
		}
		if y > 63 {
			y = 63
		}
		return x >> uint(y), true
	}
	return 0, false
}

// arith is the value of an integer operation.
func (e *Engine) arith(st *State, op string, t types.Type, a, b Lin) Val {
	a, b = st.norm(a), st.norm(b)
	if a.isC() && b.isC() {
		if r, ok := constOp(op, t, []int64{a.C, b.C}); ok {
			return intV(r)
		}
	}
	small := func(l Lin) bool {
		if l.C > inf || l.C < -inf {
			return false
		}
		for _, x := range l.T {
			if x.K > 1<<40 || x.K < -1<<40 {
				return false
			}
		}
		return true
	}
	switch op {
	case "+":
		if small(a) && small(b) {
			return e.wrapLin(st, a.add(b), t)
		}
	case "-":
		if small(a) && small(b) {
			return e.wrapLin(st, a.sub(b), t)
		}
	case "*":
		if b.isC() && b.C < 1<<20 && b.C > -1<<20 && small(a) {
			return e.wrapLin(st, a.scale(b.C), t)
		}
		if a.isC() && a.C < 1<<20 && a.C > -1<<20 && small(b) {
			return e.wrapLin(st, b.scale(a.C), t)
		}
	case "<<":
		if b.isC() && b.C >= 0 && b.C < 32 && small(a) && (intBits(t) < 64 || st.upper(a) < 1<<31 && st.lower(a) >= -1<<31) {
			return e.wrapLin(st, a.scale(1<<uint(b.C)), t)
		}
	case ">>":
		if b.isC() && b.C >= 0 && b.C < 62 {
			k := int64(1) << uint(b.C)
			if lowZeros(a) >= int(b.C) && !a.isC() {
				r := Lin{C: a.C / k}
				for _, x := range a.T {
					r.T = append(r.T, Term{x.S, x.K / k})
				}
				return VInt{r}
			}
			lo, hi := st.lower(a), st.upper(a)
			if lo >= 0 && hi < k {
				return intV(0)
			}
			v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
			l, h := shr(lo, b.C), shr(hi, b.C)
			if u := isUnsigned(t); intBits(t) == 64 && b.C >= 5 {
				w := int64(1) << uint(63-b.C)
				if u {
					w *= 2
				}
				if h > w-1 {
					h = w - 1
				}
				if l < -w {
					l = -w
				}
			}
			return st.bound(v, l, h)
		}
	case "&":
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.C == 0 {
				return intV(0)
			}
			lo, hi := st.lower(a), st.upper(a)
			if b.C > 0 {
				if _, ok := isPow2(b.C + 1); ok && lo >= 0 && hi <= b.C {
					return VInt{a}
				}
				if lz := lowZeros(a); lz > 0 && b.C < int64(1)<<uint(lz) {
					return intV(0)
				}
				v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
				if hi < b.C && lo >= 0 {
					return st.bound(v, 0, hi)
				}
				return st.bound(v, 0, b.C)
			}
			if b.C == -1 {
				return VInt{a}
			}
		}
		v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
		hi := inf
		if st.lower(a) >= 0 {
			hi = st.upper(a)
		}
		if st.lower(b) >= 0 && st.upper(b) < hi {
			hi = st.upper(b)
		}
		if hi < inf {
			return st.bound(v, 0, hi)
		}
		return v
	case "|", "^":
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.C == 0 {
			return VInt{a}
		}
		if op == "^" && b.isC() && len(a.T) == 1 && a.C == 0 && a.T[0].K == 1 {
			if m := e.syms[a.T[0].S]; m.Op == "^" && len(m.Args) == 2 {
				if c, ok := constOf(m.Args[1]); ok {
					if l, ok := m.Args[0].(VInt); ok {
						return e.arith(st, "^", t, st.norm(l.L), lc(c^b.C))
					}
				}
			}
		}
		// bits which cannot meet add up
		for _, p := range [][2]Lin{{a, b}, {b, a}} {
			x, y := p[0], p[1]
			if z := lowZeros(x); z > 0 && z < 40 && st.lower(y) >= 0 && st.upper(y) < int64(1)<<uint(z) {
				if x.isC() && x.C < 0 && op == "^" {
					continue
				}
				return e.wrapLin(st, x.add(y), t)
			}
		}
		v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
		if la, lb := st.lower(a), st.lower(b); la >= 0 && lb >= 0 {
			ha, hb := st.upper(a), st.upper(b)
			h := ha
			if hb > h {
				h = hb
			}
			if h < inf/2 {
				m := int64(1)
				for m <= h {
					m <<= 1
				}
				lo := int64(0)
				if op == "^" && b.isC() && ha-la <= 256 {
					lo, m = inf, 0
					for x := la; x <= ha; x++ {
						y := x ^ b.C
						if y < lo {
							lo = y
						}
						if y+1 > m {
							m = y + 1
						}
					}
				}
				if op == "|" {
					lo = la
					if lb > lo {
						lo = lb
					}
				}
				return st.bound(v, lo, m-1)
			}
			return st.bound(v, 0, inf)
		}
		return v
	case "/":
		if b.isC() && b.C > 0 {
			lo, hi := st.lower(a), st.upper(a)
			v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
			if lo >= 0 {
				l, h := lo/b.C, hi
				if hi < inf {
					h = hi / b.C
				}
				return st.bound(v, l, h)
			}
			return v
		}
	case "%":
		if b.isC() && b.C > 0 {
			lo, hi := st.lower(a), st.upper(a)
			if lo >= 0 && hi < b.C {
				return VInt{a}
			}
			v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
			if lo >= 0 {
				return st.bound(v, 0, b.C-1)
			}
			return st.bound(v, -b.C+1, b.C-1)
		}
	case "&^":
		v := e.enumTerm(st, op, t, VInt{a}, VInt{b})
		if st.lower(a) >= 0 {
			return st.bound(v, 0, st.upper(a))
		}
		return v
	}
	return e.enumTerm(st, op, t, VInt{a}, VInt{b})
}

func shr(c, k int64) int64 {
	if c >= inf || c <= -inf {
		return c
	}
	return c >> uint(k)
}

// bound records a range of a value in the state.
func (st *State) bound(v Val, lo, hi int64) Val {
	i, ok := v.(VInt)
	if !ok {
		return v
	}
	if lo > -inf && st.lower(i.L) < lo {
		st.assumeLE0(lc(lo).sub(i.L))
	}
	if hi < inf && st.upper(i.L) > hi {
		st.assumeLE0(i.L.addC(-hi))
	}
	return VInt{st.norm(i.L)}
}

var opText = map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/", token.REM: "%", token.AND: "&", token.OR: "|", token.XOR: "^", token.SHL: "<<", token.SHR: ">>", token.AND_NOT: "&^"}

func (e *Engine) binop(st *State, x *ssa.BinOp) []*State {
	a, b := st.get(x.X), st.get(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		if op == token.GTR {
			op, a, b = token.LSS, b, a
		} else if op == token.GEQ {
			op, a, b = token.LEQ, b, a
		}
		if isAggT(x.X.Type()) && !e.opaqueStruct(x.X.Type()) {
			st.set(x, e.aggEq(st, a, b, x.X.Type(), op == token.NEQ))
			return one(st)
		}
		st.set(x, st.nv(VCond{op.String(), a, b}))
		return one(st)
	}
	t := x.Type()
	if isStringT(t) {
		s1, ok1 := a.(VStr)
		s2, ok2 := b.(VStr)
		if ok1 && ok2 {
			st.set(x, VStr{s1.S + s2.S})
			return one(st)
		}
		if ok1 && s1.S == "" {
			st.set(x, b)
			return one(st)
		}
		if ok2 && s2.S == "" {
			st.set(x, a)
			return one(st)
		}
		v := e.term("strcat", t, a, b)
		l := st.lenOf(v)
		st.assumeEQ(l.sub(st.lenOf(a)).sub(st.lenOf(b)))
		st.set(x, v)
		return one(st)
	}
	if !isIntT(t) {
		fa, ok1 := a.(VFlt)
		fb, ok2 := b.(VFlt)
		if ok1 && ok2 {
			switch x.Op {
			case token.ADD:
				st.set(x, VFlt{fa.F + fb.F})
				return one(st)
			case token.SUB:
				st.set(x, VFlt{fa.F - fb.F})
				return one(st)
			case token.MUL:
				st.set(x, VFlt{fa.F * fb.F})
				return one(st)
			case token.QUO:
				st.set(x, VFlt{fa.F / fb.F})
				return one(st)
			}
		}
		st.set(x, e.term("f"+x.Op.String(), t, a, b))
		return one(st)
	}
	la, lb := st.intOf(a), st.intOf(b)
	switch x.Op {
	case token.QUO, token.REM:
		if st.mayEQ0(lb) {
			n := st.clone()
			if n.assumeEQ(lb) {
				e.panics(n, x, "divide", "division by zero")
			}
			if !st.assumeNE(lb) {
				return nil
			}
		}
	case token.SHL, token.SHR:
		if !isUnsigned(x.Y.Type()) && st.lower(lb) < 0 {
			n := st.clone()
			if n.assumeLE0(lb.addC(1)) {
				e.panics(n, x, "shift", "a negative shift")
			}
			if !st.assumeLE0(lb.scale(-1)) {
				return nil
			}
		}
	}
	st.set(x, e.arith(st, opText[x.Op], t, la, lb))
	return one(st)
}

func (e *Engine) aggEq(st *State, a, b Val, t types.Type, neg bool) Val {
	x, ok1 := a.(VAgg)
	y, ok2 := b.(VAgg)
	if !ok1 || !ok2 {
		return e.fresh(types.Typ[types.Bool], "eq")
	}
	r := 1
	e.leaves(t, func(p string, lt types.Type) {
		switch st.decide(VCond{"==", st.aggGet(x, p, lt), st.aggGet(y, p, lt)}) {
		case 0:
			r = 0
		case 2:
			if r == 1 {
				r = 2
			}
		}
	})
	if r == 2 {
		return e.fresh(types.Typ[types.Bool], "eq")
	}
	return boolV((r == 1) != neg)
}

func (e *Engine) unop(st *State, x *ssa.UnOp) []*State {
	v := st.get(x.X)
	switch x.Op {
	case token.MUL:
		if !e.checkNil(st, x, v, desc(x.X)) {
			return nil
		}
		p, ok := st.ptr(v)
		if !ok {
			st.set(x, e.fresh(x.Type(), "load"))
			return one(st)
		}
		if e.onLoad != nil {
			e.onLoad(st, x, p, x.Type())
		}
		r := st.load(p, x.Type())
		if e.onLoaded != nil {
			e.onLoaded(st, x, p, r, x.Type())
		}
		st.set(x, r)
	case token.NOT:
		switch c := v.(type) {
		case VInt:
			st.set(x, VInt{lc(1).sub(c.L)})
		case VCond:
			n := c
			switch c.Op {
			case "==":
				n.Op = "!="
			case "!=":
				n.Op = "=="
			case "<":
				n = VCond{"<=", c.Y, c.X}
			case "<=":
				n = VCond{"<", c.Y, c.X}
			}
			if c.Op[0] == '<' && isFloatVal(st, c) {
				st.set(x, e.fresh(x.Type(), "not"))
			} else {
				st.set(x, st.nv(n))
			}
		default:
			st.set(x, e.fresh(x.Type(), "not"))
		}
	case token.SUB:
		switch c := v.(type) {
		case VInt:
			st.set(x, e.wrapLin(st, c.L.scale(-1), x.Type()))
		case VFlt:
			st.set(x, VFlt{-c.F})
		default:
			st.set(x, e.term("fneg", x.Type(), v))
		}
	case token.XOR:
		l := st.intOf(v)
		if isUnsigned(x.Type()) && intBits(x.Type()) < 64 {
			_, hi := intRange(x.Type())
			st.set(x, e.wrapLin(st, lc(hi).sub(l), x.Type()))
		} else {
			st.set(x, e.wrapLin(st, l.scale(-1).addC(-1), x.Type()))
		}
	case token.ARROW:
		e.chanUse(st, x, st.get(x.X), "receive from")
		st.set(x, e.fresh(x.Type(), "recv"))
	default:
		st.set(x, e.fresh(x.Type(), "unop"))
	}
	return one(st)
}

func isFloatVal(st *State, c VCond) bool {
	for _, v := range []Val{c.X, c.Y} {
		switch x := v.(type) {
		case VFlt:
			return true
		case VSym:
			if isFloatT(st.e.symT(x.S)) {
				return true
			}
		}
	}
	return false
}

// evalOp evaluates a named operation again when more is known about its arguments.
func (e *Engine) evalOp(st *State, op string, t types.Type, args []Val) Val {
	switch op {
	case "cond":
		return st.boolOf(args[0])
	case "wrap":
		if i, ok := args[0].(VInt); ok {
			return e.wrapLin(st, i.L, t)
		}
	case "len":
		switch args[0].(type) {
		case VStr, VSlice, VNil:
			return VInt{st.lenOf(args[0])}
		}
	case "strcat":
		a, ok1 := args[0].(VStr)
		b, ok2 := args[1].(VStr)
		if ok1 && ok2 {
			return VStr{a.S + b.S}
		}
	case "+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>":
		a, ok1 := args[0].(VInt)
		b, ok2 := args[1].(VInt)
		if ok1 && ok2 {
			return e.arith(st, op, t, a.L, b.L)
		}
	case "seg":
		if s, ok := args[0].(VSegs); ok {
			if i, ok := args[1].(VInt); ok && i.L.isC() {
				return st.segAt(s.S, i.L, t)
			}
		}
	}
	if f, ok := e.evalHook[op]; ok {
		if v := f(st, t, args); v != nil {
			return v
		}
	}
	return e.term(op, t, args...)
}

func (st *State) boolOf(v Val) Val {
	n := st.nv(v)
	if _, ok := n.(VCond); ok {
		return st.e.term("cond", types.Typ[types.Bool], n)
	}
	return n
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	switch {
	case isIntT(from) && isIntT(to):
		l := st.intOf(v)
		return e.wrapLin(st, l, to)
	case isIntT(from) && isFloatT(to):
		if c, ok := constOf(v); ok {
			return VFlt{float64(c)}
		}
		return e.term("i2f", to, v)
	case isFloatT(from) && isIntT(to):
		if f, ok := v.(VFlt); ok {
			return intV(int64(f.F))
		}
		return e.term("f2i", to, v)
	case isFloatT(from) && isFloatT(to):
		return v
	case isStringT(to):
		if s, ok := v.(VStr); ok {
			return s
		}
		if isStringT(from) {
			return v
		}
		if _, ok := from.Underlying().(*types.Slice); ok {
			l := st.lenOf(v)
			if l.isC() && l.C == 0 {
				return VStr{""}
			}
			st.e.nfresh++
			var r Val
			if s, ok := st.nv(v).(VSym); ok {
				r = e.term("bytes2str", to, s)
			} else {
				r = e.fresh(to, "str")
			}
			rl := st.lenOf(r)
			st.assumeEQ(rl.sub(l))
			return r
		}
		return e.fresh(to, "str")
	case isStringT(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			l := st.lenOf(v)
			id := st.alloc(types.NewArray(sl.Elem(), -1), "bytes of a string")
			o := st.wobj(id)
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				o.Base = e.strSegs(st, v)
			} else {
				l = e.newInt(types.Typ[types.Int], "runes", 0, inf)
				o.Lazy = true
				o.Org = fmt.Sprintf("runes~%d", id)
			}
			return VSlice{id, "", lc(0), l, l}
		}
	}
	if _, ok := from.Underlying().(*types.Slice); ok {
		return v
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	return e.fresh(to, "conv")
}

// strSegs is the content of a string.
func (e *Engine) strSegs(st *State, v Val) []Seg {
	switch x := st.nv(v).(type) {
	case VStr:
		var r []Seg
		for i := 0; i < len(x.S); i++ {
			r = append(r, Seg{Kind: segByte, B: lc(int64(x.S[i]))})
		}
		return r
	case VSym:
		id := st.lazyObj("strdata "+vkey(x), types.NewArray(types.Typ[types.Uint8], -1))
		st.own = new(int)
		return []Seg{{Kind: segArr, Arr: st.objs[id], Off: lc(0), Len: st.lenOf(x)}}
	}
	return []Seg{{Kind: segAny, Len: st.lenOf(v), Hi: 255}}
}

// segsOf is the content of a slice of bytes or elements as it is now.
func (e *Engine) segsOf(st *State, v Val) []Seg {
	switch v.(type) {
	case VNil:
		return nil
	case VStr:
		return e.strSegs(st, v)
	}
	if s, ok := st.nv(v).(VSym); ok && isStringT(e.symT(s.S)) {
		return e.strSegs(st, s)
	}
	s, ok := st.slice(v)
	if !ok {
		return []Seg{{Kind: segAny, Len: st.lenOf(v), Hi: 255}}
	}
	return e.sliceSegs(st, s)
}

func (e *Engine) sliceSegs(st *State, s VSlice) []Seg {
	o := st.objs[s.O]
	if o == nil {
		return []Seg{{Kind: segAny, Len: s.Len, Hi: 255}}
	}
	ln, off := st.norm(s.Len), st.norm(s.Off)
	if ln.isC() && ln.C == 0 {
		return nil
	}
	var el types.Type
	if at, ok := e.pathType(o.T, s.P).Underlying().(*types.Array); ok {
		el = at.Elem()
	}
	bytes := el != nil && isIntT(el)
	if bytes && ln.isC() && off.isC() && ln.C <= 1100 {
		// element by element when all are known
		all := true
		if len(o.Base) > 0 || o.Lazy || o.Fuzzy != nil {
			all = false
		}
		for k := range o.Cells {
			if strings.HasPrefix(k, s.P+"[") {
				_, ix := pathShape(k[len(s.P):])
				if l, ok := e.linOf(ix[0]); !ok || !st.norm(l).isC() {
					all = false
				}
			}
		}
		if all || ln.C <= 16 {
			var r []Seg
			for i := int64(0); i < ln.C; i++ {
				v := st.arrAt(o, s.P, lc(off.C+i), el)
				if iv, ok := v.(VInt); ok {
					r = append(r, Seg{Kind: segByte, B: iv.L})
				} else {
					r = nil
					break
				}
			}
			if r != nil {
				return r
			}
		}
	}
	if len(o.Base) > 0 && len(o.Cells) == 0 && o.Fuzzy == nil && s.P == "" {
		if r, ok := e.cutSegs(st, o.Base, off, ln); ok {
			return r
		}
	}
	st.own = new(int)
	return []Seg{{Kind: segArr, Arr: o, P: s.P, Off: off, Len: ln}}
}

// cutSegs takes a part of a sequence.
func (e *Engine) cutSegs(st *State, segs []Seg, off, n Lin) ([]Seg, bool) {
	// skip
	i := 0
	for i < len(segs) {
		l := segs[i].length()
		d := st.norm(off.sub(l))
		if st.lower(d) >= 0 {
			off = d
			i++
			continue
		}
		break
	}
	var r []Seg
	n = st.norm(n)
	off = st.norm(off)
	for ; i < len(segs); i++ {
		if n.isC() && n.C == 0 {
			return r, true
		}
		s := segs[i]
		l := st.norm(s.length())
		if !(off.isC() && off.C == 0) {
			if st.upper(off.sub(l)) > 0 {
				return nil, false
			}
			if s.Kind == segByte {
				return nil, false
			}
			l = st.norm(l.sub(off))
			s.Len = l
			if s.Kind == segArr {
				s.Off = s.Off.add(off)
			}
			off = lc(0)
		}
		d := st.norm(n.sub(l))
		if st.lower(d) >= 0 {
			r = append(r, s)
			n = d
			continue
		}
		if st.upper(d) <= 0 {
			if s.Kind == segByte {
				return nil, false
			}
			s.Len = n
			return append(r, s), true
		}
		return nil, false
	}
	if n.isC() && n.C == 0 {
		return r, true
	}
	return nil, false
}

// ---- indexing

func (e *Engine) index(st *State, x *ssa.Index) []*State {
	v := st.get(x.X)
	idx := st.intOf(st.get(x.Index))
	if isStringT(x.X.Type()) {
		l := st.lenOf(v)
		if !e.checkRange(st, x, idx, lc(0), l.addC(-1), "index", desc(x.X)) {
			return nil
		}
		st.set(x, st.segAt(e.strSegs(st, v), st.norm(idx), x.Type()))
		return one(st)
	}
	at, ok := x.X.Type().Underlying().(*types.Array)
	if !ok {
		st.set(x, e.fresh(x.Type(), "index"))
		return one(st)
	}
	if !e.checkRange(st, x, idx, lc(0), lc(at.Len()-1), "index", desc(x.X)) {
		return nil
	}
	idx = st.norm(idx)
	a, ok := v.(VAgg)
	if !ok {
		st.set(x, e.fresh(x.Type(), "index"))
		return one(st)
	}
	id := st.alloc(x.X.Type(), "array value")
	st.store(VPtr{id, ""}, a, x.X.Type())
	if a.Lazy {
		st.objs[id].Lazy, st.objs[id].Org = true, a.Org
	}
	return e.eachIndex(st, idx, at.Len(), st.objs[id], "", func(s *State, i Lin) {
		s.set(x, s.load(VPtr{id, "[" + e.linKey(i) + "]"}, x.Type()))
	})
}

// eachIndex splits the state by the value of an unknown index into a small array.
func (e *Engine) eachIndex(st *State, idx Lin, n int64, o *Obj, p string, f func(*State, Lin)) []*State {
	if !idx.isC() && n >= 0 && n <= e.forkIndex && o != nil {
		lo, hi := st.lower(idx), st.upper(idx)
		if lo >= 0 && hi < n {
			var out []*State
			for c := lo; c <= hi; c++ {
				s := st
				if c < hi {
					s = st.clone()
				}
				if s.assumeEQ(idx.addC(-c)) {
					f(s, lc(c))
					out = append(out, s)
				}
			}
			return out
		}
	}
	f(st, idx)
	return one(st)
}

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	v := st.get(x.X)
	idx := st.intOf(st.get(x.Index))
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if !e.checkNil(st, x, v, desc(x.X)) {
			return nil
		}
		if !e.checkRange(st, x, idx, lc(0), lc(at.Len()-1), "index", desc(x.X)) {
			return nil
		}
		p, ok := st.ptr(v)
		if !ok {
			st.set(x, e.fresh(x.Type(), "indexaddr"))
			return one(st)
		}
		return e.eachIndex(st, st.norm(idx), at.Len(), st.objs[p.O], p.P, func(s *State, i Lin) {
			s.set(x, VPtr{p.O, p.P + "[" + e.linKey(i) + "]"})
		})
	case *types.Slice:
		l := st.lenOf(v)
		if !e.checkRange(st, x, idx, lc(0), l.addC(-1), "index", desc(x.X)) {
			return nil
		}
		s, ok := st.slice(v)
		if !ok {
			el := e.fresh(x.Type(), "elem")
			st.setNonNil(el)
			st.set(x, el)
			return one(st)
		}
		o := st.objs[s.O]
		if o != nil && len(o.Base) > 0 && o.Base[0].Kind == segArr && !isIntT(u.Elem()) && len(o.Cells) == 0 {
			// an element of a copied slice of structures is not shared; pointers are values
		}
		i := st.norm(s.Off.add(idx))
		n := int64(-1)
		if ll := st.norm(l); ll.isC() && o != nil && !o.Lazy && s.Off.isC() && s.Off.C == 0 && len(o.Base) == 0 && o.Fuzzy == nil {
			n = ll.C
		}
		return e.eachIndex(st, i, n, o, s.P, func(s2 *State, i Lin) {
			s2.set(x, VPtr{s.O, s.P + "[" + e.linKey(i) + "]"})
		})
	}
	st.set(x, e.fresh(x.Type(), "indexaddr"))
	return one(st)
}

func (e *Engine) sliceOp(st *State, x *ssa.Slice) []*State {
	v := st.get(x.X)
	lo := lc(0)
	if x.Low != nil {
		lo = st.intOf(st.get(x.Low))
	}
	if isStringT(x.X.Type()) {
		n := st.lenOf(v)
		hi := n
		if x.High != nil {
			hi = st.intOf(st.get(x.High))
		}
		if !e.checkRange(st, x, hi, lc(0), n, "slice", desc(x.X)) || !e.checkRange(st, x, lo, lc(0), hi, "slice", desc(x.X)) {
			return nil
		}
		lo, hi = st.norm(lo), st.norm(hi)
		if s, ok := v.(VStr); ok && lo.isC() && hi.isC() {
			st.set(x, VStr{s.S[lo.C:hi.C]})
			return one(st)
		}
		r := e.term("substr", x.Type(), v, VInt{lo}, VInt{hi})
		l := st.lenOf(r)
		st.assumeEQ(l.sub(hi.sub(lo)))
		st.set(x, r)
		return one(st)
	}
	var s VSlice
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		if !e.checkNil(st, x, v, desc(x.X)) {
			return nil
		}
		p, ok := st.ptr(v)
		if !ok {
			st.set(x, e.fresh(x.Type(), "slice"))
			return one(st)
		}
		n := lc(u.Elem().Underlying().(*types.Array).Len())
		s = VSlice{p.O, p.P, lc(0), n, n}
	case *types.Slice:
		if _, ok := v.(VNil); ok {
			z := lc(0)
			hi := z
			if x.High != nil {
				hi = st.intOf(st.get(x.High))
			}
			if !e.checkRange(st, x, hi, z, z, "slice", desc(x.X)) || !e.checkRange(st, x, lo, z, hi, "slice", desc(x.X)) {
				return nil
			}
			st.set(x, VNil{})
			return one(st)
		}
		y, ok := st.slice(v)
		if !ok {
			st.set(x, e.fresh(x.Type(), "slice"))
			return one(st)
		}
		s = y
	}
	hi := s.Len
	if x.High != nil {
		hi = st.intOf(st.get(x.High))
	}
	mx := s.Cap
	if x.Max != nil {
		mx = st.intOf(st.get(x.Max))
		if !e.checkRange(st, x, mx, lc(0), s.Cap, "slice", desc(x.X)) {
			return nil
		}
	}
	if !e.checkRange(st, x, hi, lc(0), mx, "slice", desc(x.X)) || !e.checkRange(st, x, lo, lc(0), hi, "slice", desc(x.X)) {
		return nil
	}
	if x.Low == nil && x.High == nil && x.Max == nil {
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			st.set(x, v)
			return one(st)
		}
	}
	st.set(x, VSlice{s.O, s.P, st.norm(s.Off.add(lo)), st.norm(hi.sub(lo)), st.norm(mx.sub(lo))})
	return one(st)
}

// ---- maps

func mapCell(k Val) string { return "m:" + vkey(k) }

func (e *Engine) mapKeysOf(st *State, p VPtr) []string {
	o := st.objs[p.O]
	var ks []string
	if o == nil {
		return nil
	}
	for k, v := range o.Cells {
		if isMapKey(k) {
			if t, ok := v.(VTuple); ok && len(t) == 0 {
				continue
			}
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// mapOthers: the map may hold entries besides the known ones.
func mapOthers(o *Obj) bool { return o.Lazy || o.Fuzzy["m:"] }

func (e *Engine) keyOf(cell string) Val { return e.mapKeys[cell] }

func (e *Engine) mapElem(t types.Type) (types.Type, types.Type) {
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem()
}

func (e *Engine) freshElem(st *State, mt types.Type, t types.Type, name string) Val {
	v := e.fresh(t, name)
	if s, ok := v.(VSym); ok && e.elemNonNil(t) {
		e.nonNil[s.S] = true
	}
	return v
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []*State {
	v, k := st.get(x.X), st.nv(st.get(x.Index))
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string
		idx := st.intOf(k)
		if !e.checkRange(st, x, idx, lc(0), st.lenOf(v).addC(-1), "index", desc(x.X)) {
			return nil
		}
		st.set(x, st.segAt(e.strSegs(st, v), st.norm(idx), x.Type()))
		return one(st)
	}
	put := func(s *State, val Val, found bool) {
		if x.CommaOk {
			s.set(x, VTuple{val, boolV(found)})
		} else {
			s.set(x, val)
		}
	}
	if e.onMap != nil {
		e.onMap(st, x, v, k, nil, "get")
	}
	switch st.nilness(v) {
	case 1:
		put(st, e.zero(mt.Elem()), false)
		return one(st)
	case 0:
		n := st.clone()
		var out []*State
		if n.setNil(v) {
			put(n, e.zero(mt.Elem()), false)
			out = append(out, n)
		}
		if st.setNonNil(v) {
			out = append(out, e.lookupIn(st, x, v, k, mt, put)...)
		}
		return out
	}
	return e.lookupIn(st, x, v, k, mt, put)
}

func (e *Engine) lookupIn(st *State, x *ssa.Lookup, v, k Val, mt *types.Map, put func(*State, Val, bool)) []*State {
	p, ok := st.ptr(v)
	if !ok {
		put(st, e.fresh(mt.Elem(), "entry"), false)
		return one(st)
	}
	o := st.objs[p.O]
	c := mapCell(k)
	get := func(s *State, cell string) {
		w := s.objs[p.O].Cells[cell]
		if t, ok := w.(VTuple); ok && len(t) == 0 {
			put(s, e.zero(mt.Elem()), false)
		} else {
			put(s, s.nv(w), true)
		}
	}
	if _, ok := o.Cells[c]; ok {
		get(st, c)
		return one(st)
	}
	var out []*State
	cur := st
	ks := e.mapCells(o)
	for _, kc := range ks {
		kv := e.keyOf(kc)
		if kv == nil {
			continue
		}
		eq := VCond{"==", k, kv}
		switch cur.decide(eq) {
		case 0:
			continue
		case 1:
			get(cur, kc)
			return append(out, cur)
		}
		n := cur.clone()
		if n.assume(eq, true) {
			get(n, kc)
			out = append(out, n)
		}
		if !cur.assume(eq, false) {
			return out
		}
	}
	if !mapOthers(o) {
		put(cur, e.zero(mt.Elem()), false)
		return append(out, cur)
	}
	// another entry: absent or present
	n := cur.clone()
	e.mapKeys[c] = k
	n.wobj(p.O).Cells[c] = VTuple{}
	put(n, e.zero(mt.Elem()), false)
	out = append(out, n)
	var val Val
	if o.Lazy && !o.Fuzzy["m:"] {
		val = e.lazyEntry(o, c, mt.Elem())
	} else {
		val = e.freshElem(cur, mt, mt.Elem(), "entry")
	}
	cur.wobj(p.O).Cells[c] = val
	put(cur, cur.nv(val), true)
	if _, ok := k.(VSym); ok {
	}
	return append(out, cur)
}

func (e *Engine) lazyEntry(o *Obj, cell string, t types.Type) Val {
	if isAggT(t) {
		return VAgg{T: t, Cells: map[string]Val{}, Lazy: true, Org: o.Org + cell}
	}
	v := e.term("cell", t, VStr{o.Org + cell})
	if s, ok := v.(VSym); ok && e.elemNonNil(t) {
		e.nonNil[s.S] = true
	}
	return v
}

func (e *Engine) mapCells(o *Obj) []string {
	var ks []string
	for k := range o.Cells {
		if isMapKey(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func (st *State) mapLen(o *Obj) Lin {
	if l, ok := o.Cells["#len"]; ok {
		return st.norm(l.(VInt).L)
	}
	if mapOthers(o) {
		s := st.e.newInt(types.Typ[types.Int], "maplen", 0, inf)
		st.wobj(o.id).Cells["#len"] = VInt{s}
		return s
	}
	n := int64(0)
	for k, v := range o.Cells {
		if isMapKey(k) {
			if t, ok := v.(VTuple); ok && len(t) == 0 {
				continue
			}
			n++
		}
	}
	return lc(n)
}

func (e *Engine) mapUpdate(st *State, x *ssa.MapUpdate) []*State {
	v, k, val := st.get(x.Map), st.nv(st.get(x.Key)), st.get(x.Value)
	if !e.checkNil(st, x, v, "nil map "+desc(x.Map)) {
		return nil
	}
	p, ok := st.ptr(v)
	if !ok {
		return one(st)
	}
	if e.onMap != nil {
		e.onMap(st, x, v, k, val, "set")
	}
	o := st.wobj(p.O)
	c := mapCell(k)
	e.mapKeys[c] = k
	if o.Multi {
		o.Fuzzy = map[string]bool{"m:": true}
		return one(st)
	}
	old, had := o.Cells[c]
	if _, ok := o.Cells["#len"]; ok || mapOthers(o) {
		present := 2
		if had {
			present = 1
			if t, ok := old.(VTuple); ok && len(t) == 0 {
				present = 0
			}
		}
		l := st.mapLen(o)
		o = st.wobj(p.O)
		switch present {
		case 0:
			o.Cells["#len"] = VInt{l.addC(1)}
		case 2:
			n := e.newInt(types.Typ[types.Int], "maplen", 1, inf)
			st.assumeLE0(l.sub(n))
			st.assumeLE0(n.sub(l).addC(-1))
			o.Cells["#len"] = VInt{n}
		}
	}
	for kc := range o.Cells {
		if kc == c || !isMapKey(kc) {
			continue
		}
		if kv := e.keyOf(kc); kv == nil || st.decide(VCond{"==", k, kv}) != 0 {
			// the same entry, perhaps
			delete(o.Cells, kc)
			if o.Fuzzy == nil {
				o.Fuzzy = map[string]bool{}
			}
			o.Fuzzy["m:"] = true
		}
	}
	o.Cells[c] = val
	return one(st)
}

func (e *Engine) mapDelete(st *State, in ssa.Instruction, v, k Val) {
	if st.nilness(v) == 1 {
		return
	}
	p, ok := st.ptr(v)
	if !ok {
		return
	}
	if e.onMap != nil {
		e.onMap(st, in, v, k, nil, "delete")
	}
	k = st.nv(k)
	o := st.wobj(p.O)
	c := mapCell(k)
	e.mapKeys[c] = k
	if o.Cells["#len"] != nil || mapOthers(o) {
		l := st.mapLen(o)
		o = st.wobj(p.O)
		n := e.newInt(types.Typ[types.Int], "maplen", 0, inf)
		st.assumeLE0(n.sub(l))
		o.Cells["#len"] = VInt{n}
	}
	for kc, w := range o.Cells {
		if kc == c || !isMapKey(kc) {
			continue
		}
		if t, ok := w.(VTuple); ok && len(t) == 0 {
			continue
		}
		kv := e.keyOf(kc)
		d := 2
		if kv != nil {
			d = st.decide(VCond{"==", k, kv})
		}
		switch d {
		case 1:
			o.Cells[kc] = VTuple{}
		case 2:
			delete(o.Cells, kc)
			if o.Fuzzy == nil {
				o.Fuzzy = map[string]bool{}
			}
			o.Fuzzy["m:"] = true
		}
	}
	if o.Multi {
		return
	}
	o.Cells[c] = VTuple{}
}

// next is a step of a range over a map or string. Unknown entries come first, then the known ones.
func (e *Engine) next(st *State, x *ssa.Next) []*State {
	it, ok := st.get(x.Iter).(VIter)
	tt := x.Type().(*types.Tuple)
	if x.IsString || !ok {
		end := st.clone()
		end.set(x, VTuple{boolV(false), e.zero(types.Typ[types.Int]), e.zero(types.Typ[types.Rune])})
		l := lc(0)
		if ok {
			l = st.lenOf(it.X)
			if l.isC() && l.C == 0 {
				return one(end)
			}
		}
		i := e.newInt(types.Typ[types.Int], "strpos", 0, inf)
		st.assumeLE0(i.sub(l).addC(1))
		r := e.newInt(types.Typ[types.Rune], "rune", 0, 0x10ffff)
		st.set(x, VTuple{boolV(true), VInt{i}, VInt{r}})
		return []*State{st, end}
	}
	mkZero := func(i int) Val { return e.zero(tt.At(i).Type()) }
	end := func(s *State) *State {
		s.set(x, VTuple{boolV(false), mkZero(1), mkZero(2)})
		return s
	}
	if st.nilness(it.X) == 1 {
		return one(end(st))
	}
	p, ok := st.ptr(it.X)
	if !ok {
		return one(end(st))
	}
	if e.onMap != nil {
		e.onMap(st, x, it.X, nil, nil, "range")
	}
	mt := e.mapTypeOf(st, x, p)
	o := st.objs[p.O]
	var out []*State
	rng, _ := x.Iter.(*ssa.Range)
	yield := func(s *State, k, v Val, n VIter) {
		s.set(x, VTuple{boolV(true), k, v})
		if rng != nil {
			s.fr.regs[rng] = n
		}
		out = append(out, s)
	}
	if mapOthers(o) && !(len(it.K) > 0 && it.N > 0) {
		// an unknown entry
		s := st.clone()
		k := e.fresh(mt.Key(), "key")
		v := e.freshElem(s, mt, mt.Elem(), "entry")
		if e.onEntry != nil {
			e.onEntry(s, x, p, k, v)
		}
		ok := true
		for _, kc := range e.mapCells(o) {
			if kv := e.keyOf(kc); kv != nil && !s.assume(VCond{"==", k, kv}, false) {
				ok = false
			}
		}
		if l, has := o.Cells["#len"]; has {
			if !s.assumeLE0(lc(1).sub(s.norm(l.(VInt).L))) {
				ok = false
			}
		}
		if ok {
			c := mapCell(s.nv(k))
			e.mapKeys[c] = k
			if e.keepEntries {
				s.wobj(p.O).Cells[c] = v
			}
			yield(s, k, v, it)
		}
	}
	if it.N < 0 {
		// the position is not known: any entry may come next
		for _, kc := range it.K {
			w, has := o.Cells[kc]
			if t, ok := w.(VTuple); !has || ok && len(t) == 0 {
				continue
			}
			s := st.clone()
			yield(s, e.keyOf(kc), s.nv(w), it)
		}
		out = append(out, end(st))
		return out
	}
	n := it.N
	for n >= 0 && n < len(it.K) {
		w, has := o.Cells[it.K[n]]
		if t, ok := w.(VTuple); !has || ok && len(t) == 0 {
			n++
			continue
		}
		break
	}
	if n >= 0 && n < len(it.K) {
		yield(st, e.keyOf(it.K[n]), st.nv(o.Cells[it.K[n]]), VIter{X: it.X, N: n + 1, K: it.K})
		return out
	}
	if l, has := o.Cells["#len"]; has && len(it.K) == 0 && st.lower(l.(VInt).L) > 0 && !e.visitedOne(st, x) {
		// not empty: there is a first entry
		if st.fr.iter[x.Block()] == 0 {
			return out
		}
	}
	out = append(out, end(st))
	return out
}

func (e *Engine) visitedOne(st *State, x *ssa.Next) bool { return false }

func (e *Engine) mapTypeOf(st *State, x *ssa.Next, p VPtr) *types.Map {
	if r, ok := x.Iter.(*ssa.Range); ok {
		if m, ok := r.X.Type().Underlying().(*types.Map); ok {
			return m
		}
	}
	return st.objs[p.O].T.Underlying().(*types.Map)
}

// ---- interfaces

func (e *Engine) implementers(t *types.Interface, pk *types.Package) []types.Type {
	var r []types.Type
	if t.NumMethods() == 0 {
		return nil
	}
	for _, sp := range e.spkgs {
		if pk != nil && sp.Pkg != pk {
			continue
		}
		names := sp.Pkg.Scope().Names()
		for _, n := range names {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(tn.Type(), t) {
				r = append(r, tn.Type())
			} else if p := types.NewPointer(tn.Type()); types.Implements(p, t) {
				r = append(r, p)
			}
		}
	}
	return r
}

func (e *Engine) freshDyn(st *State, t types.Type, name string) Val {
	v := e.fresh(t, name)
	if s, ok := v.(VSym); ok {
		if _, isP := t.Underlying().(*types.Pointer); isP {
			e.nonNil[s.S] = true
		}
	}
	return v
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := st.nv(st.get(x.X))
	t := x.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	okR := func(s *State, r Val) *State {
		if x.CommaOk {
			s.set(x, VTuple{r, boolV(true)})
		} else {
			s.set(x, r)
		}
		return s
	}
	var out []*State
	fail := func(s *State, what string) {
		if x.CommaOk {
			s.set(x, VTuple{e.zero(t), boolV(false)})
			out = append(out, s)
		} else {
			e.panics(s, x, "assert", what)
		}
	}
	switch y := v.(type) {
	case VNil:
		fail(st, "nil is not "+typeKey(t))
		return out
	case VIface:
		if toIface {
			if types.Implements(y.T, t.Underlying().(*types.Interface)) {
				return append(out, okR(st, y))
			}
			fail(st, "a "+typeKey(y.T)+" is not a "+typeKey(t))
			return out
		}
		if types.Identical(y.T, t) {
			return append(out, okR(st, y.V))
		}
		fail(st, "a "+typeKey(y.T)+" is not a "+typeKey(t))
		return out
	case VSym:
		// a static interface type which includes the asserted one cannot fail, except for nil
		if toIface {
			sure := false
			if it, ok := x.X.Type().Underlying().(*types.Interface); ok && types.Implements(it, t.Underlying().(*types.Interface)) {
				sure = true
			}
			if st.nilness(y) != 2 {
				n := st.clone()
				if n.setNil(y) {
					fail(n, "nil is not "+typeKey(t))
				}
				if !st.setNonNil(y) {
					return out
				}
			}
			if sure {
				return append(out, okR(st, y))
			}
			key := fmt.Sprintf("v%d#T%s", y.S, typeKey(t))
			if st.neV[key] {
				fail(st, "a value of another type is not a "+typeKey(t))
				return out
			}
			n := st.clone()
			n.neV[key] = true
			fail(n, "a value of another type is not a "+typeKey(t))
			return append(out, okR(st, y))
		}
		key := fmt.Sprintf("v%d#T%s", y.S, typeKey(t))
		n := st.clone()
		n.neV[key] = true
		fail(n, "a value of another type is not a "+typeKey(t))
		if st.neV[key] {
			return out
		}
		r := e.term("dyn", t, y)
		if s, ok := r.(VSym); ok {
			if _, isP := t.Underlying().(*types.Pointer); isP {
				e.nonNil[s.S] = true
			}
		}
		st.bind[y.S] = VIface{t, r}
		return append(out, okR(st, st.nv(r)))
	}
	okR(st, e.fresh(t, "assert"))
	return one(st)
}

// ---- calls

func (e *Engine) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, st.get(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, st.get(a))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return st.get(c.Value), args
}

func (e *Engine) callInstr(st *State, in ssa.Instruction, c *ssa.CallCommon, dst ssa.Value) []*State {
	fn, args := e.callee(st, c)
	ex := e.dispatch(st, in, c, fn, args)
	var out []*State
	for _, x := range ex {
		if dst != nil {
			res := x.res
			if res == nil {
				res = VTuple{}
			}
			x.st.set(dst, res)
		}
		out = append(out, x.st)
	}
	return out
}

func (e *Engine) runDefers(st *State, in *ssa.RunDefers) []*State {
	sts := one(st)
	for {
		var next []*State
		progress := false
		for _, s := range sts {
			n := len(s.fr.defers)
			if n == 0 {
				next = append(next, s)
				continue
			}
			progress = true
			d := s.fr.defers[n-1]
			s.fr.defers = s.fr.defers[:n-1]
			for _, x := range e.dispatch(s, d.in, &d.in.Call, d.fn, d.args) {
				next = append(next, x.st)
			}
		}
		sts = next
		if !progress {
			return sts
		}
	}
}

func (e *Engine) dispatch(st *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) []Exit {
	if c.IsInvoke() {
		return e.invoke(st, in, c, args)
	}
	switch f := fn.(type) {
	case VBuiltin:
		return e.builtin(st, in, c, f.N, args)
	case VFunc:
		return e.callFunc(st, in, f, args)
	case VNil:
		e.definite = true
		e.panics(st, in, "nil", "a nil function")
		e.definite = false
		return nil
	}
	if !e.checkNil(st, in, fn, "function "+desc(c.Value)) {
		return nil
	}
	cc := &CallCtx{Site: in, Name: "func value", Args: append([]Val{fn}, args...), Sig: c.Signature()}
	if e.onCall != nil {
		if ex, ok := e.onCall(st, cc); ok {
			return e.after(cc, ex)
		}
	}
	return e.after(cc, e.unknownCall(st, cc))
}

func (e *Engine) after(cc *CallCtx, ex []Exit) []Exit {
	if e.onAfter != nil {
		for _, x := range ex {
			e.onAfter(x.st, cc, x.res)
		}
	}
	return ex
}

func (e *Engine) callFunc(st *State, in ssa.Instruction, f VFunc, args []Val) []Exit {
	cc := &CallCtx{Site: in, Fn: f.F, Name: f.F.String(), Args: append(append([]Val(nil), args...), f.B...), Sig: f.F.Signature}
	if f.F.Origin() != nil {
		cc.Name = f.F.Origin().String()
	}
	if e.onCall != nil {
		if ex, ok := e.onCall(st, cc); ok {
			return e.after(cc, ex)
		}
	}
	if m, ok := e.models[cc.Name]; ok {
		return e.after(cc, m(e, st, cc))
	}
	if f.F.Pkg != nil && e.isRepoPkg(f.F.Pkg.Pkg.Path()) || f.F.Pkg == nil && f.F.Blocks != nil {
		return e.after(cc, e.callFn(st, cc))
	}
	return e.after(cc, e.unknownCall(st, cc))
}

func (e *Engine) invoke(st *State, in ssa.Instruction, c *ssa.CallCommon, args []Val) []Exit {
	recv := st.nv(args[0])
	rt := c.Value.Type()
	name := fmt.Sprintf("(%s).%s", typeKey(rt), c.Method.Name())
	cc := &CallCtx{Site: in, Name: name, Args: args, Sig: c.Signature(), Method: c.Method, Recv: rt}
	if !e.checkNil(st, in, recv, desc(c.Value)) {
		return nil
	}
	recv = st.nv(recv)
	cc.Args = append([]Val{recv}, args[1:]...)
	if e.onInvoke != nil {
		if ex, ok := e.onInvoke(st, cc); ok {
			return e.after(cc, ex)
		}
	}
	if m, ok := e.models[name]; ok {
		return e.after(cc, m(e, st, cc))
	}
	if r, ok := recv.(VIface); ok {
		return e.invokeOn(st, in, cc, r)
	}
	if r, ok := recv.(VSym); ok {
		if named, ok := types.Unalias(rt).(*types.Named); ok && named.Obj().Pkg() != nil && e.isRepoPkg(named.Obj().Pkg().Path()) {
			impl := e.implementers(named.Underlying().(*types.Interface), named.Obj().Pkg())
			if len(impl) > 0 && len(impl) <= 6 {
				var out []Exit
				for i, t := range impl {
					key := fmt.Sprintf("v%d#T%s", r.S, typeKey(t))
					if st.neV[key] {
						continue
					}
					s := st
					if i < len(impl)-1 {
						s = st.clone()
					}
					d := e.term("dyn", t, r)
					if sv, ok := d.(VSym); ok {
						if _, isP := t.Underlying().(*types.Pointer); isP {
							e.nonNil[sv.S] = true
						}
					}
					v := VIface{t, d}
					s.bind[r.S] = v
					c2 := *cc
					c2.Args = append([]Val{v}, args[1:]...)
					out = append(out, e.invokeOn(s, in, &c2, v)...)
				}
				return out
			}
		}
	}
	return e.after(cc, e.unknownCall(st, cc))
}

func (e *Engine) invokeOn(st *State, in ssa.Instruction, cc *CallCtx, r VIface) []Exit {
	f := e.prog.LookupMethod(r.T, cc.Method.Pkg(), cc.Method.Name())
	if f == nil {
		return e.after(cc, e.unknownCall(st, cc))
	}
	// a pointer held by an interface is taken as not nil unless it is known to be
	if isPtr(r.T) && st.nilness(r.V) == 0 {
		if !st.setNonNil(r.V) {
			return nil
		}
	}
	return e.callFunc(st, in, VFunc{F: f}, append([]Val{st.nv(r.V)}, cc.Args[1:]...))
}

func (e *Engine) isErrT(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	if et := e.typ("errors.Error"); et != nil && types.Identical(t, et) {
		return true
	}
	return false
}

// results makes unknown results of a call, with the error cases apart.
func (e *Engine) results(st *State, sig *types.Signature, name string, mayFail bool) []Exit {
	res := sig.Results()
	if res.Len() == 0 {
		return []Exit{{st, nil}}
	}
	var vals VTuple
	errAt := -1
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, e.fresh(res.At(i).Type(), name))
		if e.isErrT(res.At(i).Type()) {
			errAt = i
		}
	}
	pack := func(v VTuple) Val {
		if len(v) == 1 {
			return v[0]
		}
		return v
	}
	if errAt < 0 {
		return []Exit{{st, pack(vals)}}
	}
	okv := append(VTuple(nil), vals...)
	okv[errAt] = VNil{}
	if !mayFail {
		return []Exit{{st, pack(okv)}}
	}
	n := st.clone()
	n.setNonNil(vals[errAt])
	return []Exit{{st, pack(okv)}, {n, pack(vals)}}
}

// unknownCall: anything may happen to what the callee can reach.
func (e *Engine) unknownCall(st *State, c *CallCtx) []Exit {
	if e.onUnknown != nil {
		e.onUnknown(st, c)
	}
	if e.unknown != nil {
		e.unknown[c.Name]++
	}
	var args []Val
	for _, a := range c.Args {
		if v, ok := a.(VIface); ok {
			if _, isP := v.T.Underlying().(*types.Pointer); !isP {
				continue
			}
		}
		args = append(args, a)
	}
	if c.Fn != nil && pureName(c.Name) {
		return e.results(st, c.Sig, c.Name, true)
	}
	st.havoc(args...)
	return e.results(st, c.Sig, c.Name, true)
}

func pureName(n string) bool {
	for _, p := range []string{"fmt.", "strings.", "strconv.", "math.", "math/bits.", "errors.", "unicode", "runtime.", "time.", "path.", "sort.SearchInts", "(time.", "(*time."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ---- builtins

func (e *Engine) builtin(st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []Exit {
	ret := func(v Val) []Exit { return []Exit{{st, v}} }
	sig := c.Signature()
	switch name {
	case "len":
		v := st.nv(args[0])
		if p, ok := v.(VPtr); ok {
			if o := st.objs[p.O]; o != nil {
				if _, isM := o.T.Underlying().(*types.Map); isM {
					if e.onMap != nil {
						e.onMap(st, in, v, nil, nil, "len")
					}
					return ret(VInt{st.mapLen(o)})
				}
			}
		}
		if a, ok := v.(VAgg); ok {
			if at, ok := a.T.Underlying().(*types.Array); ok {
				return ret(intV(at.Len()))
			}
		}
		if s, ok := v.(VSym); ok {
			if _, isM := e.symT(s.S).Underlying().(*types.Map); isM {
				if p, ok := st.ptr(v); ok && st.nilness(v) == 2 {
					return ret(VInt{st.mapLen(st.objs[p.O])})
				}
			}
		}
		return ret(VInt{st.lenOf(v)})
	case "cap":
		v := st.nv(args[0])
		if s, ok := v.(VSlice); ok {
			return ret(VInt{s.Cap})
		}
		l := st.lenOf(v)
		r := e.newInt(types.Typ[types.Int], "cap", 0, inf)
		st.assumeLE0(l.sub(r))
		return ret(VInt{r})
	case "append":
		return ret(e.appendOp(st, in, args[0], args[1], c.Args[0].Type()))
	case "copy":
		return ret(e.copyOp(st, in, args[0], args[1]))
	case "delete":
		e.mapDelete(st, in, args[0], args[1])
		return ret(nil)
	case "print", "println", "close", "recover", "clear":
		if name == "recover" {
			return ret(VNil{})
		}
		if name == "clear" {
			st.havoc(args[0])
		}
		return ret(nil)
	case "min", "max":
		if isIntT(sig.Results().At(0).Type()) && len(args) == 2 {
			a, b := st.intOf(args[0]), st.intOf(args[1])
			if name == "max" {
				a, b = b, a
			}
			// a if a <= b
			d := a.sub(b)
			if st.upper(d) <= 0 {
				return ret(VInt{st.norm(st.intOf(args[0]))})
			}
			n := st.clone()
			var out []Exit
			mn := func(s *State, v Val) { out = append(out, Exit{s, VInt{s.norm(s.intOf(v))}}) }
			if st.assumeLE0(d) {
				mn(st, args[0])
			}
			if n.assumeLE0(d.scale(-1).addC(1)) {
				mn(n, args[1])
			}
			return out
		}
	case "ssa:wrapnilchk":
		if !e.checkNil(st, in, args[0], "receiver") {
			return nil
		}
		return ret(args[0])
	}
	res := sig.Results()
	if res.Len() == 0 {
		return ret(nil)
	}
	return ret(e.fresh(res.At(0).Type(), name))
}

func (e *Engine) appendOp(st *State, in ssa.Instruction, dst, src Val, t types.Type) Val {
	dst, src = st.nv(dst), st.nv(src)
	if e.onAppend != nil {
		e.onAppend(st, in, dst, src)
	}
	l1, l2 := st.lenOf(dst), st.lenOf(src)
	if l2.isC() && l2.C == 0 {
		return dst
	}
	el := t.Underlying().(*types.Slice).Elem()
	// a further element behind the last one, in place, if the array is owned by this slice alone
	total := st.norm(l1.add(l2))
	id := st.alloc(types.NewArray(el, -1), "append")
	cp := e.newInt(types.Typ[types.Int], "cap", 0, inf)
	st.assumeLE0(total.sub(cp))
	var base []Seg
	if isIntT(el) {
		base = append(base, e.segsOf(st, dst)...)
		base = append(base, e.segsOf(st, src)...)
		base = compact(st, base)
		st.wobj(id).Base = base
		return VSlice{id, "", lc(0), total, cp}
	}
	if !(l1.isC() && l1.C == 0) {
		if s, ok := st.slice(dst); ok {
			so := st.objs[s.O]
			if off := st.norm(s.Off); so != nil && off.isC() && off.C == 0 && s.P == "" {
				// the same layout: take the object over
				n := so.clone(st.own)
				n.id = id
				n.T = types.NewArray(el, -1)
				n.Site = "append"
				n.Multi = false
				if len(so.Base) == 0 && so.Lazy {
					st.own = new(int)
					n = &Obj{id: id, T: n.T, Cells: map[string]Val{}, Site: "append", own: st.own, Base: []Seg{{Kind: segArr, Arr: so, Off: lc(0), Len: l1}}}
				}
				st.objs[id] = n
			} else {
				st.wobj(id).Base = e.segsOf(st, dst)
			}
		} else {
			st.wobj(id).Base = []Seg{{Kind: segAny, Len: l1, Hi: 255}}
		}
	}
	if l2.isC() && l2.C <= 64 {
		if s, ok := st.slice(src); ok {
			for i := int64(0); i < l2.C; i++ {
				v := st.load(VPtr{s.O, s.P + "[" + e.linKey(st.norm(s.Off.addC(i))) + "]"}, el)
				st.store(VPtr{id, "[" + e.linKey(st.norm(l1.addC(i))) + "]"}, v, el)
			}
			return VSlice{id, "", lc(0), total, cp}
		}
	}
	o := st.wobj(id)
	if len(o.Cells) == 0 && (len(o.Base) > 0 || l1.isC() && l1.C == 0) {
		sg := e.segsOf(st, src)
		st.wobj(id).Base = append(append([]Seg(nil), st.objs[id].Base...), sg...)
	} else {
		o.Cells = map[string]Val{}
		o.Base = nil
		o.Lazy = true
		e.nfresh++
		o.Org = fmt.Sprintf("app~%d", e.nfresh)
	}
	return VSlice{id, "", lc(0), total, cp}
}

// compact joins runs of known bytes which are too long to keep apart.
func compact(st *State, s []Seg) []Seg {
	if len(s) <= 1300 {
		return s
	}
	lo, hi := int64(255), int64(0)
	for _, x := range s {
		l, h := segBounds(st, x)
		if l < lo {
			lo = l
		}
		if h > hi {
			hi = h
		}
	}
	return []Seg{{Kind: segAny, Len: st.norm(segsLen(s)), Lo: lo, Hi: hi}}
}

func (e *Engine) copyOp(st *State, in ssa.Instruction, dst, src Val) Val {
	l1, l2 := st.lenOf(dst), st.lenOf(src)
	d := l1.sub(l2)
	var n Lin
	switch {
	case st.upper(d) <= 0:
		n = l1
	case st.lower(d) >= 0:
		n = l2
	default:
		n = e.newInt(types.Typ[types.Int], "copied", 0, inf)
		st.assumeLE0(n.sub(l1))
		st.assumeLE0(n.sub(l2))
	}
	n = st.norm(n)
	if e.onCopy != nil {
		e.onCopy(st, in, dst, src, n)
	}
	if s, ok := st.slice(dst); ok && st.nilness(dst) != 1 {
		if n.isC() && n.C == 0 {
			return VInt{n}
		}
		off := st.norm(s.Off)
		var sg []Seg
		okc := false
		if all := e.segsOf(st, src); true {
			sg, okc = e.cutSegs(st, all, lc(0), n)
		}
		o := st.wobj(s.O)
		if !o.Multi && s.P == "" && off.isC() && off.C == 0 && okc && o.onlyIndexCells() && st.norm(s.Cap).eq(n) {
			// the whole array is replaced
			o.Cells = map[string]Val{}
			o.Fuzzy = nil
			o.Lazy = false
			o.Base = sg
		} else {
			for k := range o.Cells {
				if strings.HasPrefix(k, s.P+"[") {
					delete(o.Cells, k)
				}
			}
			if o.Fuzzy == nil {
				o.Fuzzy = map[string]bool{}
			}
			o.Fuzzy[s.P+"["] = true
		}
	}
	return VInt{n}
}

func (o *Obj) onlyIndexCells() bool {
	for k := range o.Cells {
		if !strings.HasPrefix(k, "[") {
			return false
		}
	}
	return true
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
