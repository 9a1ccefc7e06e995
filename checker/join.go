package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type locus struct {
	a, b Lin
	n    SymID
}

type joiner struct {
	e       *Engine
	a, b, r *State
	ma, mb  map[ObjID]ObjID
	ints    map[string]Lin
	loci    []locus
	syms    map[string]SymID
	asym    map[SymID]SymID
	changed bool
	widen   bool
	why     string
}

func (j *joiner) ch(why string) {
	if !j.changed {
		j.why = why
	}
	j.changed = true
}

// joinStates is the least state found which covers both; changed tells that it is weaker than a.
func (e *Engine) joinStates(a, b *State, widen bool) (*State, bool, string) {
	j := &joiner{e: e, a: a, b: b, r: e.newState(), ma: map[ObjID]ObjID{}, mb: map[ObjID]ObjID{}, ints: map[string]Lin{}, syms: map[string]SymID{}, asym: map[SymID]SymID{}, widen: widen}
	r := j.r
	for k, v := range a.g {
		r.g[k] = v
	}
	for k, v := range b.g {
		if w, ok := r.g[k]; !ok || vkey(w) != vkey(v) {
			r.g[k] = VStr{"?"}
			if ok && vkey(w) != vkey(VStr{"?"}) {
				j.ch("ghost " + k)
			}
		}
	}
	for k := range a.g {
		if _, ok := b.g[k]; !ok {
			r.g[k] = VStr{"?"}
		}
	}
	// raw symbols of the suspended frames keep their names
	seen := map[SymID]bool{}
	var retain func(v Val)
	retainSym := func(s SymID) {
		if seen[s] {
			return
		}
		seen[s] = true
	}
	retain = func(v Val) {
		switch x := v.(type) {
		case VSym:
			retainSym(x.S)
		case VPtr:
			j.obj(x.O, x.O)
		case VSlice:
			j.obj(x.O, x.O)
			lins(x, func(l Lin) {
				for _, t := range l.T {
					retainSym(t.S)
				}
			})
		case VIface:
			retain(x.V)
		case VTuple:
			for _, y := range x {
				retain(y)
			}
		case VFunc:
			for _, y := range x.B {
				retain(y)
			}
		case VAgg:
			for _, y := range x.Cells {
				retain(y)
			}
		case VIter:
			retain(x.X)
		case VCond:
			retain(x.X)
			retain(x.Y)
		default:
			lins(v, func(l Lin) {
				for _, t := range l.T {
					retainSym(t.S)
				}
			})
		}
	}
	// objects with the same identity stay themselves
	for id, o := range a.objs {
		if o2 := b.objs[id]; o2 != nil || o.Lazy {
			_ = o2
		}
	}
	if a.fr != nil {
		for f := a.fr.up; f != nil; f = f.up {
			for _, v := range f.regs {
				retain(v)
			}
			for _, d := range f.defers {
				for _, v := range d.args {
					retain(v)
				}
				retain(d.fn)
			}
		}
	}
	for _, v := range e.roots {
		retain(v)
	}
	ks := make([]SymID, 0, len(seen))
	for s := range seen {
		ks = append(ks, s)
	}
	sort.Slice(ks, func(i, k int) bool { return ks[i] < ks[k] })
	for _, s := range ks {
		m := e.syms[s]
		if m.T != nil && isIntT(m.T) || m.T == nil {
			la, lb := a.norm(ls(s)), b.norm(ls(s))
			if la.eq(ls(s)) && lb.eq(ls(s)) {
				continue
			}
			n := j.intv(la, lb, m.T)
			if !n.eq(ls(s)) {
				r.sub[s] = n
			}
			continue
		}
		va, vb := a.nv(VSym{s}), b.nv(VSym{s})
		n := j.val(va, vb, m.T)
		if n2, ok := n.(VSym); ok && n2.S == s {
			continue
		}
		r.bind[s] = n
	}
	if a.fr != nil {
		f := a.fr.clone()
		for v, x := range f.regs {
			y, ok := b.fr.regs[v]
			if !ok {
				delete(f.regs, v)
				continue
			}
			f.regs[v] = j.val(a.nv(x), b.nv(y), v.Type())
		}
		for i := range f.defers {
			if i < len(b.fr.defers) {
				for k := range f.defers[i].args {
					f.defers[i].args = append([]Val(nil), f.defers[i].args...)
					f.defers[i].args[k] = j.val(a.nv(f.defers[i].args[k]), b.nv(b.fr.defers[i].args[k]), nil)
				}
				f.defers[i].fn = j.val(a.nv(f.defers[i].fn), b.nv(b.fr.defers[i].fn), nil)
			}
		}
		for k, v := range b.fr.iter {
			if v > f.iter[k] {
				f.iter[k] = v
			}
		}
		for k, v := range b.fr.nd {
			if v > f.nd[k] {
				f.nd[k] = v
			}
		}
		for k := range f.det {
			if !b.fr.det[k] {
				delete(f.det, k)
			}
		}
		r.fr = f
	}
	for _, k := range e.globalObjs {
		if a.objs[k] != nil && b.objs[k] != nil {
			j.obj(k, k)
		}
	}
	j.facts()
	return r, j.changed, j.why
}

func (j *joiner) intv(la, lb Lin, t types.Type) Lin {
	if la.eq(lb) {
		return la
	}
	k := la.String() + "~" + lb.String()
	if l, ok := j.ints[k]; ok {
		return l
	}
	n := j.e.newSym(t, "join")
	for _, l := range []Lin{la, lb} {
		for _, x := range l.T {
			j.e.syms[n].From = append(j.e.syms[n].From, x.S)
		}
	}
	j.loci = append(j.loci, locus{la, lb, n})
	// keep the set of possible values while it is small
	if va, ok := j.e.valSet(j.a, la); ok {
		if vb, ok := j.e.valSet(j.b, lb); ok {
			u := map[int64]bool{}
			for _, x := range append(append([]int64(nil), va...), vb...) {
				u[x] = true
			}
			if len(u) > len(va) && j.widen {
				j.ch("value set dropped")
			} else if len(u) <= 8 {
				var vs []int64
				for x := range u {
					vs = append(vs, x)
				}
				sort.Slice(vs, func(i, k int) bool { return vs[i] < vs[k] })
				j.e.syms[n].Vals = vs
				if len(u) > len(va) {
					j.ch("values " + fmt.Sprint(vs) + " of " + la.String() + " / " + lb.String())
				}
			} else if len(va) <= 8 {
				j.ch("value set dropped")
			}
		} else {
			j.ch("value set lost")
		}
	}
	j.ints[k] = ls(n)
	return ls(n)
}

// valSet lists the values of an expression if they are known to be few.
func (e *Engine) valSet(st *State, l Lin) ([]int64, bool) {
	if l.isC() {
		return []int64{l.C}, true
	}
	if len(l.T) == 1 {
		if vs := e.syms[l.T[0].S].Vals; vs != nil && len(vs) <= 8 {
			var r []int64
			for _, v := range vs {
				r = append(r, v*l.T[0].K+l.C)
			}
			return r, true
		}
	}
	return nil, false
}

func (j *joiner) sym(va, vb Val, t types.Type, nn bool) Val {
	k := vkey(va) + "~" + vkey(vb)
	if s, ok := j.syms[k]; ok {
		return VSym{s}
	}
	s := j.e.newSym(t, "join")
	j.syms[k] = s
	for _, v := range []Val{va, vb} {
		switch x := v.(type) {
		case VSym:
			j.e.syms[s].From = append(j.e.syms[s].From, x.S)
		case VPtr:
			j.e.syms[s].Objs = append(j.e.syms[s].Objs, x.O)
		case VSlice:
			j.e.syms[s].Objs = append(j.e.syms[s].Objs, x.O)
		}
	}
	if a, ok := va.(VSym); ok {
		if old, ok := j.asym[a.S]; ok && old != s {
			j.ch("split symbol")
		}
		j.asym[a.S] = s
		if j.a.nilness(va) == 2 && !nn {
			j.ch("nilness")
		}
	} else {
		j.ch("symbol for " + vkey(va) + " / " + vkey(vb))
	}
	if nn {
		j.r.nn[s] = true
	}
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Slice:
			j.lenLocus(va, vb, s)
		case *types.Basic:
			if isStringT(t) {
				j.lenLocus(va, vb, s)
			}
		}
	}
	return VSym{s}
}

func (j *joiner) lenLocus(va, vb Val, s SymID) {
	la, lb := j.a.lenOf(va), j.b.lenOf(vb)
	l := j.e.term("len", types.Typ[types.Int], VSym{s}).(VInt).L
	j.e.syms[l.T[0].S].Lo = 0
	j.loci = append(j.loci, locus{la, lb, l.T[0].S})
}

func (j *joiner) val(va, vb Val, t types.Type) Val {
	if ia, ok := va.(VInt); ok {
		if ib, ok := vb.(VInt); ok {
			return VInt{j.intv(j.a.norm(ia.L), j.b.norm(ib.L), t)}
		}
	}
	if ca, ok := va.(VCond); ok {
		if vkey(va) == vkey(vb) {
			return VCond{ca.Op, j.val(j.a.nv(ca.X), j.b.nv(vb.(VCond).X), nil), j.val(j.a.nv(ca.Y), j.b.nv(vb.(VCond).Y), nil)}
		}
	}
	if isBoolish(va) && isBoolish(vb) {
		s := j.e.newSym(types.Typ[types.Bool], "joinb")
		if _, ok := va.(VInt); !ok {
			j.ch("cond")
		}
		j.loci = append(j.loci, locus{boolLin(j.a, va), boolLin(j.b, vb), s})
		return VInt{ls(s)}
	}
	switch x := va.(type) {
	case VNil:
		if _, ok := vb.(VNil); ok {
			return va
		}
	case VPtr:
		if y, ok := vb.(VPtr); ok && x.P == y.P {
			if id, ok := j.obj(x.O, y.O); ok {
				return VPtr{id, x.P}
			}
		}
		if y, ok := vb.(VSym); ok {
			// known on one side only: the lazy object of the symbol
			if j.e.lazyOf[x.O] == j.b.symKey(y.S) && x.P == "" {
				var el types.Type
				if p, ok := j.e.symT(y.S).Underlying().(*types.Pointer); ok {
					el = p.Elem()
				} else {
					el = j.e.symT(y.S)
				}
				j.b.lazyObj(j.b.symKey(y.S), el)
				j.obj(x.O, x.O)
				if j.b.nilness(vb) == 2 {
					return va
				}
				j.ch("lazy pointer")
				return y
			}
		}
	case VSym:
		if y, ok := vb.(VSym); ok && x.S == y.S {
			j.lazyOfSym(x.S)
			return va
		}
		if y, ok := vb.(VPtr); ok && y.P == "" && j.e.lazyOf[y.O] == j.a.symKey(x.S) {
			var el types.Type
			if p, ok := j.e.symT(x.S).Underlying().(*types.Pointer); ok {
				el = p.Elem()
			} else {
				el = j.e.symT(x.S)
			}
			j.a.lazyObj(j.a.symKey(x.S), el)
			j.obj(y.O, y.O)
			if j.a.nilness(va) == 2 {
				return vb
			}
			return va
		}
	case VIface:
		if y, ok := vb.(VIface); ok && types.Identical(x.T, y.T) {
			return VIface{x.T, j.val(j.a.nv(x.V), j.b.nv(y.V), x.T)}
		}
	case VSlice:
		if y, ok := vb.(VSlice); ok && x.P == y.P {
			if id, ok := j.obj(x.O, y.O); ok {
				return VSlice{id, x.P, j.intv(j.a.norm(x.Off), j.b.norm(y.Off), nil), j.intv(j.a.norm(x.Len), j.b.norm(y.Len), nil), j.intv(j.a.norm(x.Cap), j.b.norm(y.Cap), nil)}
			}
		}
		if y, ok := vb.(VSym); ok && j.e.lazyOf[x.O] == j.b.symKey(y.S) && vkey(x.Len) == vkey(j.b.lenOf(y)) {
			j.lazyOfSym(y.S)
			return y
		}
	case VStr:
		if y, ok := vb.(VStr); ok && x == y {
			return va
		}
	case VFlt:
		if vkey(va) == vkey(vb) {
			return va
		}
	case VFunc:
		if y, ok := vb.(VFunc); ok && x.F == y.F && len(x.B) == len(y.B) {
			r := VFunc{F: x.F}
			for i := range x.B {
				r.B = append(r.B, j.val(j.a.nv(x.B[i]), j.b.nv(y.B[i]), nil))
			}
			return r
		}
	case VBuiltin:
		return va
	case VTuple:
		if y, ok := vb.(VTuple); ok && len(x) == len(y) {
			r := VTuple{}
			tt, _ := t.(*types.Tuple)
			for i := range x {
				var et types.Type
				if tt != nil {
					et = tt.At(i).Type()
				}
				r = append(r, j.val(j.a.nv(x[i]), j.b.nv(y[i]), et))
			}
			return r
		}
	case VIter:
		if y, ok := vb.(VIter); ok {
			r := VIter{X: j.val(j.a.nv(x.X), j.b.nv(y.X), nil), N: x.N, K: x.K}
			if x.N != y.N {
				if x.N >= 0 {
					j.ch("iterator")
				}
				r.N = -1
			}
			return r
		}
	case VAgg:
		if y, ok := vb.(VAgg); ok {
			return j.agg(x, y, t)
		}
	case VSegs:
		if y, ok := vb.(VSegs); ok {
			return VSegs{j.segs(x.S, y.S)}
		}
	case Custom:
		if y, ok := vb.(Custom); ok {
			if x.Key() == y.Key() {
				return x
			}
			r, ch := x.Join(y, j)
			if ch {
				j.ch("custom " + x.Key() + " / " + y.Key())
			}
			return r
		}
	}
	if va == nil || vb == nil {
		j.ch("missing")
		return nil
	}
	nn := j.a.nilness(va) == 2 && j.b.nilness(vb) == 2
	if t == nil {
		t = j.typeOf(va)
		if t == nil {
			t = j.typeOf(vb)
		}
	}
	return j.sym(va, vb, t, nn)
}

func (j *joiner) typeOf(v Val) types.Type {
	switch x := v.(type) {
	case VSym:
		return j.e.syms[x.S].T
	case VPtr:
		if o := j.a.objs[x.O]; o != nil && x.P == "" {
			return types.NewPointer(o.T)
		}
		if o := j.b.objs[x.O]; o != nil && x.P == "" {
			return types.NewPointer(o.T)
		}
	case VStr:
		return types.Typ[types.String]
	}
	return nil
}

func isBoolish(v Val) bool {
	switch x := v.(type) {
	case VCond:
		return true
	case VInt:
		return true
	default:
		_ = x
	}
	return false
}

func boolLin(st *State, v Val) Lin {
	if i, ok := v.(VInt); ok {
		return i.L
	}
	return st.e.newInt(types.Typ[types.Bool], "b", 0, 1)
}

func (j *joiner) lazyOfSym(s SymID) {
	id, ok := j.e.lazyIDs[j.a.symKey(s)]
	if !ok {
		return
	}
	if j.a.objs[id] == nil && j.b.objs[id] == nil {
		return
	}
	var t types.Type
	if o := j.a.objs[id]; o != nil {
		t = o.T
	} else {
		t = j.b.objs[id].T
	}
	j.a.lazyObj(j.a.symKey(s), t)
	j.b.lazyObj(j.a.symKey(s), t)
	j.obj(id, id)
}

func (j *joiner) agg(x, y VAgg, t types.Type) Val {
	if vkey(x) == vkey(y) {
		// the cells may still refer to objects
		r := VAgg{T: x.T, Cells: map[string]Val{}, Lazy: x.Lazy, Org: x.Org}
		for k, v := range x.Cells {
			r.Cells[k] = j.val(j.a.nv(v), j.b.nv(y.Cells[k]), nil)
		}
		return r
	}
	r := VAgg{T: x.T, Cells: map[string]Val{}}
	if x.Lazy && y.Lazy && x.Org == y.Org {
		r.Lazy, r.Org = true, x.Org
	} else if x.Lazy || y.Lazy {
		j.e.nfresh++
		r.Lazy, r.Org = true, fmt.Sprintf("jagg~%d", j.e.nfresh)
	}
	keys := map[string]types.Type{}
	j.e.leaves(x.T, func(p string, lt types.Type) {
		if x.Lazy != y.Lazy || x.Org != y.Org {
			keys[p] = lt
		} else if _, ok := x.Cells[p]; ok {
			keys[p] = lt
		} else if _, ok := y.Cells[p]; ok {
			keys[p] = lt
		}
	})
	for p, lt := range keys {
		if isAggT(lt) {
			continue
		}
		r.Cells[p] = j.val(j.a.nv(j.a.aggGet(x, p, lt)), j.b.nv(j.b.aggGet(y, p, lt)), lt)
	}
	for k, v := range x.Cells {
		if strings.Contains(k, "#") {
			if w, ok := y.Cells[k]; ok {
				if n := j.val(v, w, nil); n != nil {
					r.Cells[k] = n
				}
			} else {
				j.ch("agg attr")
			}
		}
	}
	return r
}

func (j *joiner) segs(x, y []Seg) []Seg {
	var r []Seg
	i := 0
	for i < len(x) && i < len(y) {
		if x[i].key() != y[i].key() {
			break
		}
		r = append(r, x[i])
		i++
	}
	if i == len(x) && i == len(y) {
		return r
	}
	for i > 0 && x[i-1].Kind == segAny {
		i--
	}
	r = r[:i:i]
	// both end with an unknown piece at the same place
	lo, hi := int64(255), int64(0)
	hull := func(st *State, s []Seg) {
		for _, z := range s {
			l, h := segBounds(st, z)
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
		}
	}
	hull(j.a, x[i:])
	alo, ahi := lo, hi
	hull(j.b, y[i:])
	la, lb := j.a.norm(segsLen(x[i:])), j.b.norm(segsLen(y[i:]))
	if lo > hi {
		lo, hi = 0, 255
	}
	n := Seg{Kind: segAny, Len: j.intv(la, lb, types.Typ[types.Int]), Lo: lo, Hi: hi}
	if len(n.Len.T) == 1 && j.e.syms[n.Len.T[0].S].Lo < 0 {
		j.e.syms[n.Len.T[0].S].Lo = 0
	}
	if len(x[i:]) != 1 || x[i].Kind != segAny || lo < alo || hi > ahi {
		j.ch("bytes")
	}
	return append(r, n)
}

func segBounds(st *State, s Seg) (int64, int64) {
	switch s.Kind {
	case segByte:
		l, h := st.lower(s.B), st.upper(s.B)
		if l < 0 {
			l = 0
		}
		if h > 255 {
			h = 255
		}
		return l, h
	case segAny:
		return s.Lo, s.Hi
	}
	return 0, 255
}

// obj matches two objects; false if one of them already stands for another.
func (j *joiner) obj(a, b ObjID) (ObjID, bool) {
	ra, ok1 := j.ma[a]
	rb, ok2 := j.mb[b]
	if ok1 && ok2 && ra == rb {
		return ra, true
	}
	if ok1 || ok2 {
		return 0, false
	}
	oa, ob := j.a.objs[a], j.b.objs[b]
	if oa == nil || ob == nil {
		if a == b && j.e.lazyOf[a] != "" {
			if oa != nil {
				j.b.lazyObj(j.e.lazyOf[a], oa.T)
				ob = j.b.objs[b]
			} else if ob != nil {
				j.a.lazyObj(j.e.lazyOf[a], ob.T)
				oa = j.a.objs[a]
			}
		}
		if oa == nil || ob == nil {
			return 0, false
		}
	}
	if a != b {
		// an object present under its own name on both sides stays itself
		if j.b.objs[a] != nil && j.a.objs[b] != nil {
			return 0, false
		}
		if typeKey(oa.T) != typeKey(ob.T) {
			return 0, false
		}
	}
	id := a
	if a != b {
		j.e.nobj++
		id = ObjID(j.e.nobj)
	}
	j.ma[a], j.mb[b] = id, id
	n := &Obj{id: id, T: oa.T, Cells: map[string]Val{}, Site: oa.Site, Multi: oa.Multi || ob.Multi, own: j.r.own}
	j.r.objs[id] = n
	if ob.Multi && !oa.Multi {
		j.ch("multi")
	}
	explicit := false
	switch {
	case oa.Lazy && ob.Lazy && oa.Org == ob.Org:
		n.Lazy, n.Org = true, oa.Org
	case oa.Lazy || ob.Lazy:
		j.e.nfresh++
		n.Lazy, n.Org = true, fmt.Sprintf("jobj~%d", j.e.nfresh)
		explicit = true
		if !oa.Lazy {
			j.ch("lazy object")
		}
	}
	if len(oa.Base) > 0 || len(ob.Base) > 0 {
		n.Base = j.segs(oa.Base, ob.Base)
	}
	for f := range oa.Fuzzy {
		if n.Fuzzy == nil {
			n.Fuzzy = map[string]bool{}
		}
		n.Fuzzy[f] = true
	}
	for f := range ob.Fuzzy {
		if n.Fuzzy == nil {
			n.Fuzzy = map[string]bool{}
		}
		if !n.Fuzzy[f] {
			j.ch("fuzzy")
			n.Fuzzy[f] = true
		}
	}
	keys := map[string]types.Type{}
	for k := range oa.Cells {
		keys[k] = j.e.pathType(oa.T, k)
	}
	for k := range ob.Cells {
		keys[k] = j.e.pathType(oa.T, k)
	}
	if _, ok := oa.T.Underlying().(*types.Struct); ok && explicit && !j.e.opaqueStruct(oa.T) {
		j.e.leaves(oa.T, func(p string, lt types.Type) {
			if !isAggT(lt) {
				keys[p] = lt
			}
		})
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := keys[k]
		va, ok1 := oa.Cells[k]
		vb, ok2 := ob.Cells[k]
		if !ok1 {
			va = j.missing(j.a, oa, k, t)
		}
		if !ok2 {
			vb = j.missing(j.b, ob, k, t)
		}
		if va == nil || vb == nil {
			if ok1 {
				j.ch("attr " + k)
			}
			if isMapKey(k) || t != nil {
				if n.Fuzzy == nil {
					n.Fuzzy = map[string]bool{}
				}
				if !n.Fuzzy[fuzzyKey(k)] {
					j.ch("cell " + k)
					n.Fuzzy[fuzzyKey(k)] = true
				}
			}
			continue
		}
		v := j.val(j.a.nv(va), j.b.nv(vb), t)
		if v != nil {
			n.Cells[k] = v
		}
	}
	return id, true
}

func isMapKey(k string) bool { return strings.HasPrefix(k, "m:") }
func fuzzyKey(k string) string {
	if isMapKey(k) {
		return "m:"
	}
	if i := strings.LastIndex(k, "["); i >= 0 {
		return k[:i+1]
	}
	return k
}

func (j *joiner) missing(st *State, o *Obj, k string, t types.Type) Val {
	if i := strings.LastIndex(k, "#"); i >= 0 {
		return st.e.attrDefault(st, o, k)
	}
	if isMapKey(k) {
		if o.Lazy || o.Fuzzy["m:"] {
			return nil
		}
		return VTuple{} // absent
	}
	if t == nil {
		return nil
	}
	if strings.HasPrefix(o.Site, "append") && st.e.elemNonNil(t) && o.Cells[k] == nil && strings.HasPrefix(k, "[") && strings.HasSuffix(k, "]") {
		return nil // what lies beyond the length is never read
	}
	return st.load(VPtr{o.id, k}, t)
}

// pathType is the type of a cell.
func (e *Engine) pathType(t types.Type, path string) types.Type {
	for path != "" {
		if path[0] == '#' || strings.HasPrefix(path, "m:") {
			return nil
		}
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if path[0] != '.' {
				return nil
			}
			end := 1
			for end < len(path) && !strings.ContainsRune(".[#", rune(path[end])) {
				end++
			}
			var ft types.Type
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == path[1:end] {
					ft = u.Field(i).Type()
				}
			}
			t, path = ft, path[end:]
		case *types.Array:
			i := strings.Index(path, "]")
			if path[0] != '[' || i < 0 {
				return nil
			}
			t, path = u.Elem(), path[i+1:]
		default:
			return nil
		}
	}
	return t
}

// facts carries over what both states know.
func (j *joiner) facts() {
	a, b, r := j.a, j.b, j.r
	live, _ := r.mark()
	for s, l := range a.sub {
		if _, ok := r.sub[s]; ok || !live[s] {
			continue
		}
		la := a.norm(l)
		if _, ok := b.sub[s]; ok && b.norm(ls(s)).eq(la) {
			r.sub[s] = la
			continue
		}
		// it may still be known to be in some range
		j.ch("equality")
		if lb := b.norm(ls(s)); lb.eq(ls(s)) {
			j.loci = append(j.loci, locus{la, lb, s})
		} else {
			j.loci = append(j.loci, locus{la, lb, s})
		}
	}
	for s := range b.sub {
		if _, ok := a.sub[s]; !ok && live[s] {
			if _, ok := r.sub[s]; !ok {
				j.loci = append(j.loci, locus{a.norm(ls(s)), b.norm(ls(s)), s})
			}
		}
	}
	for s, v := range a.bind {
		if _, ok := r.bind[s]; ok || !live[s] {
			continue
		}
		w, ok := b.bind[s]
		if !ok {
			if p, isP := v.(VPtr); isP && j.e.lazyOf[p.O] == a.symKey(s) {
				if b.nn[s] {
					r.nn[s] = true
				}
				continue
			}
			j.ch("binding")
			continue
		}
		va, vb := a.nv(v), b.nv(w)
		if vkey(va) != vkey(vb) {
			j.ch("binding")
			if a.nilness(va) == 2 && b.nilness(vb) == 2 {
				r.nn[s] = true
			}
			continue
		}
		switch x := va.(type) {
		case VNil, VStr, VFlt:
			r.bind[s] = va
		case VSym:
			r.bind[s] = va
		case VPtr:
			if id, ok := j.obj(x.O, x.O); ok && id == x.O {
				r.bind[s] = va
			}
		}
	}
	live, _ = r.mark()
	for s := range a.nn {
		if !live[s] {
			continue
		}
		if b.nn[s] {
			r.nn[s] = true
		} else if v, ok := b.bind[s]; ok && b.nilness(v) == 2 {
			r.nn[s] = true
		} else if _, ok := r.bind[s]; !ok {
			j.ch("not nil")
		}
	}
	for s, v := range a.bind {
		if live[s] && b.nn[s] && a.nilness(v) == 2 {
			r.nn[s] = true
		}
	}
	for _, n := range a.neL {
		n = a.norm(n)
		dead := false
		for _, t := range n.T {
			dead = dead || !live[t.S]
		}
		if dead {
			continue
		}
		ok := !b.mayEQ0(n)
		if ok {
			r.neL = append(r.neL, n)
		} else if !n.isC() {
			j.ch("inequality")
		}
	}
	for _, n := range a.wide {
		n = a.norm(n)
		dead := false
		for _, t := range n.T {
			dead = dead || !live[t.S]
		}
		if dead || len(n.T) < 3 {
			continue
		}
		if b.upper(n) <= 0 {
			r.wide = append(r.wide, n)
		} else {
			j.ch("sum")
		}
	}
	for k := range a.neV {
		if !neLive(k, live) {
			continue
		}
		if b.neV[k] {
			r.neV[k] = true
		} else {
			j.ch("inequality")
		}
	}
	// difference bounds
	type ent struct {
		n    SymID
		a, b Lin
	}
	ents := []ent{{0, lc(0), lc(0)}}
	seen := map[SymID]bool{0: true}
	for _, l := range j.loci {
		if seen[l.n] || !live[l.n] {
			continue
		}
		seen[l.n] = true
		ents = append(ents, ent{l.n, a.norm(l.a), b.norm(l.b)})
	}
	for _, s := range a.z.syms {
		if seen[s] || !live[s] {
			continue
		}
		if _, ok := r.sub[s]; ok {
			continue
		}
		seen[s] = true
		ents = append(ents, ent{s, a.norm(ls(s)), b.norm(ls(s))})
	}
	n := len(ents)
	z := &Zone{idx: map[SymID]int{}, m: make([]int64, n*n)}
	for i, x := range ents {
		z.syms = append(z.syms, x.n)
		z.idx[x.n] = i
	}
	for i := range ents {
		for k := range ents {
			if i == k {
				continue
			}
			ua := a.upper(ents[i].a.sub(ents[k].a))
			ub := b.upper(ents[i].b.sub(ents[k].b))
			u := ua
			if ub > ua {
				u = ub
				j.ch(fmt.Sprintf("bound s%d-s%d %d %d", ents[i].n, ents[k].n, ua, ub))
				if j.widen {
					u = inf
					if k == 0 && j.e.syms[ents[i].n].T != nil {
						_, u = intRange(j.e.syms[ents[i].n].T)
					}
					if i == 0 && j.e.syms[ents[k].n].T != nil {
						lo, _ := intRange(j.e.syms[ents[k].n].T)
						u = inf
						if lo > -inf {
							u = -lo
						}
					}
					if ub <= 0 && u > 0 {
						u = 0
					}
				}
			}
			z.m[i*n+k] = u
		}
	}
	r.z = z
}

// mark finds the symbols and objects which can still be referred to.
func (st *State) mark() (map[SymID]bool, map[ObjID]bool) {
	live := map[SymID]bool{0: true}
	objs := map[ObjID]bool{}
	var walk func(v Val)
	var walkSym func(s SymID)
	var walkObj func(id ObjID)
	walkSym = func(s SymID) {
		if live[s] {
			return
		}
		live[s] = true
		if id, ok := st.e.lazyIDs[st.symKey(s)]; ok {
			walkObj(id)
		}
		for _, d := range st.e.syms[s].Deps {
			walkSym(d)
		}
		if l, ok := st.e.terms["len:int|v"+fmt.Sprint(s)]; ok {
			walk(l)
		}
		if l, ok := st.sub[s]; ok {
			walk(VInt{l})
		}
		if v, ok := st.bind[s]; ok {
			walk(v)
		}
	}
	walkObj = func(id ObjID) {
		if objs[id] {
			return
		}
		objs[id] = true
		o := st.objs[id]
		if o == nil {
			return
		}
		for _, v := range o.Cells {
			walk(v)
		}
		if o.Lazy {
			for _, v := range st.e.kids[o.Org] {
				walk(v)
			}
		}
		walk(VSegs{o.Base})
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case VSym:
			walkSym(x.S)
		case VPtr:
			walkObj(x.O)
			for _, ix := range pathLins(st.e, x.P) {
				walk(VInt{ix})
			}
		case VSlice:
			walkObj(x.O)
			walk(VInt{x.Off})
			walk(VInt{x.Len})
			walk(VInt{x.Cap})
		case VIface:
			walk(x.V)
		case VTuple:
			for _, y := range x {
				walk(y)
			}
		case VFunc:
			for _, y := range x.B {
				walk(y)
			}
		case VAgg:
			for _, y := range x.Cells {
				walk(y)
			}
			if x.Lazy {
				for _, y := range st.e.kids[x.Org] {
					walk(y)
				}
			}
		case VIter:
			walk(x.X)
		case VCond:
			walk(x.X)
			walk(x.Y)
		case VSegs:
			for _, s := range x.S {
				walk(VInt{s.B})
				walk(VInt{s.Len})
				walk(VInt{s.Off})
				if s.Arr != nil {
					for _, y := range s.Arr.Cells {
						walk(y)
					}
				}
			}
		case VInt:
			for _, t := range x.L.T {
				walkSym(t.S)
			}
		case Walker:
			x.Walk(walk)
		}
	}
	for f := st.fr; f != nil; f = f.up {
		for _, v := range f.regs {
			walk(v)
		}
		for _, d := range f.defers {
			walk(d.fn)
			for _, v := range d.args {
				walk(v)
			}
		}
	}
	for _, v := range st.e.roots {
		walk(v)
	}
	for _, v := range st.g {
		walk(v)
	}
	for _, id := range st.e.globalObjs {
		walkObj(id)
	}
	return live, objs
}

// gc forgets what cannot be referred to any more.
func (st *State) gc() {
	live, objs := st.mark()
	for id := range st.objs {
		if !objs[id] {
			delete(st.objs, id)
		}
	}
	for s := range st.sub {
		if !live[s] {
			delete(st.sub, s)
		}
	}
	for s := range st.bind {
		if !live[s] {
			delete(st.bind, s)
		}
	}
	for s := range st.nn {
		if !live[s] {
			delete(st.nn, s)
		}
	}
	st.z = st.z.keep(func(s SymID) bool { return live[s] })
	var ne []Lin
	for _, l := range st.neL {
		ok := true
		for _, t := range l.T {
			if !live[t.S] {
				ok = false
			}
		}
		if ok {
			ne = append(ne, l)
		}
	}
	st.neL = ne
	var wide []Lin
	for _, l := range st.wide {
		l = st.norm(l)
		ok := len(l.T) > 2
		for _, t := range l.T {
			ok = ok && live[t.S]
		}
		if ok {
			wide = append(wide, l)
		}
	}
	st.wide = wide
	for k := range st.neV {
		if !neLive(k, live) {
			delete(st.neV, k)
		}
	}
}

// Walker is a Custom value which refers to others.
type Walker interface{ Walk(func(Val)) }

func neLive(k string, live map[SymID]bool) bool {
	// keys of the form vN#...
	for _, p := range strings.Split(k, "#") {
		var n int
		if _, err := fmt.Sscanf(p, "v%d", &n); err == nil && !live[SymID(n)] {
			return false
		}
	}
	return true
}

func pathLins(e *Engine, p string) []Lin {
	if !strings.Contains(p, "[") {
		return nil
	}
	_, ix := pathShape(p)
	var r []Lin
	for _, k := range ix {
		if l, ok := e.linKeys[k]; ok {
			r = append(r, l)
		}
	}
	return r
}

var _ = ssa.BuilderMode(0)
