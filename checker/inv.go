package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// nonNilFields infers the fields which are initialised wherever an object of their type is made and
// never set to nil afterwards, as "Type.field".
func (r *Run) nonNilFields() map[string]bool {
	if r.nonNil != nil {
		return r.nonNil
	}
	r.nonNil = map[string]bool{}
	p := r.p
	structOf := func(t types.Type) (*types.Named, *types.Struct) {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !p.repo[n.Obj().Pkg().Path()] {
			return nil, nil
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		return n, s
	}
	cand := map[string]bool{}
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if n, s := structOf(tn.Type()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					switch s.Field(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Interface, *types.Chan, *types.Signature:
						cand[n.Obj().Name()+"."+s.Field(i).Name()] = true
					}
				}
			}
		}
	}
	// an inductive set: what is assumed of the fields is what is shown again at every store and allocation
	for n := -1; n != len(cand); {
		n = len(cand)
		r.nonNilRound(cand, structOf)
	}
	r.nonNil = cand
	return cand
}

func (r *Run) nonNilRound(cand map[string]bool, structOf func(types.Type) (*types.Named, *types.Struct)) {
	p := r.p
	p.fieldNonNil = cand
	// allocations: run the function and look at the objects at its exits
	for _, f := range p.funcs {
		types_ := map[*types.Named]*types.Struct{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap {
					if n, s := structOf(a.Type().(*types.Pointer).Elem()); s != nil && !copied(a) {
						types_[n] = s
					}
				}
			}
		}
		for n, s := range types_ {
			any := false
			for i := 0; i < s.NumFields(); i++ {
				any = any || cand[n.Obj().Name()+"."+s.Field(i).Name()]
			}
			if !any {
				continue
			}
			r.allocsIn(f, n, s, cand)
		}
	}
	// stores
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, s := structOf(fa.X.Type().Underlying().(*types.Pointer).Elem())
				if s == nil {
					continue
				}
				if !p.neverNil(st.Val, map[ssa.Value]bool{}) {
					delete(cand, n.Obj().Name()+"."+s.Field(fa.Field).Name())
				}
			}
		}
	}
}

// copied: the object is filled as a whole from another one (a parameter or a copy).
func copied(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == a {
			if _, isC := s.Val.(*ssa.Const); isC {
				continue
			}
			if l, ok := s.Val.(*ssa.UnOp); ok {
				if _, isA := l.X.(*ssa.Alloc); isA {
					continue
				}
			}
			return true
		}
	}
	return false
}

func (r *Run) allocsIn(f *ssa.Function, n *types.Named, s *types.Struct, cand map[string]bool) {
	drop := func() {
		for i := 0; i < s.NumFields(); i++ {
			delete(cand, n.Obj().Name()+"."+s.Field(i).Name())
		}
	}
	if len(f.FreeVars) > 0 {
		drop()
		return
	}
	e := newEngine(r.p)
	e.budget = 300000
	for k := range cand {
		e.nonNilField[k] = true
	}
	e.exitCap = 40
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(budgetErr); !ok {
				panic(x)
			}
			drop()
		}
	}()
	e.onCall = (&anyReader{e: e}).call
	st := e.start()
	args := e.freshArgs(f)
	nn := func(s2 *State) {
		for i, pa := range f.Params {
			if nillable(pa.Type()) {
				s2.setNonNil(args[i])
			}
		}
	}
	nn(st)
	for _, x := range e.call(st, f, args) {
		if errv, ok := errOf(e, f.Signature, x.res); ok && x.st.nilness(errv) == 2 {
			continue
		}
		for _, o := range x.st.objs {
			if o.Lazy || !types.Identical(o.T, n) {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				k := n.Obj().Name() + "." + s.Field(i).Name()
				if !cand[k] {
					continue
				}
				if x.st.nilness(x.st.load(VPtr{o.id, "." + s.Field(i).Name()}, s.Field(i).Type())) != 2 {
					delete(cand, k)
				}
			}
		}
	}
}

// neverNil: the value cannot be nil, arguments being taken as such.
func (p *Prog) neverNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return !nillable(x.Type()) || x.Value != nil
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Parameter:
		return true
	case *ssa.MakeInterface:
		return p.neverNil(x.X, seen)
	case *ssa.ChangeInterface:
		return p.neverNil(x.X, seen)
	case *ssa.ChangeType:
		return p.neverNil(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.neverNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return p.callNeverNil(x.Call, 0, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.callNeverNil(c.Call, x.Index, seen)
		}
	case *ssa.UnOp:
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			_ = fv
			return true
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
				if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
					return p.fieldNonNil[n.Obj().Name()+"."+fieldName(fa.X.Type(), fa.Field)]
				}
			}
		}
	case *ssa.TypeAssert:
		return !x.CommaOk
	}
	return false
}

func (p *Prog) callNeverNil(c ssa.CallCommon, i int, seen map[ssa.Value]bool) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Blocks == nil || f.Pkg == nil || !p.repo[f.Pkg.Pkg.Path()] {
		switch f.String() {
		case "container/list.New", "bytes.NewReader", "bytes.NewBuffer", "time.AfterFunc", "time.NewTimer", "(*container/list.List).Init":
			return true
		}
		return false
	}
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(rt.Results) {
			// a nil result together with an error is not used
			if len(rt.Results) > 1 {
				last := rt.Results[len(rt.Results)-1]
				if p.isErr(last.Type()) && p.neverNil(last, map[ssa.Value]bool{}) {
					continue
				}
			}
			if !p.neverNil(rt.Results[i], seen) {
				return false
			}
		}
	}
	return true
}

func (p *Prog) isErr(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	et := p.typ("errors.Error")
	return et != nil && types.Identical(t, et)
}
