package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = check{run: (*Run).c10, expl: "Abstract interpretation of the typed value: from an arbitrary earlier state each setter stores a symbol, after which the type, every getter, a copy onto a value of every type, and an encoding with its decoding are evaluated; setters are the only way to change a value, so these states are all reachable ones."}
	checks["C13"] = check{run: (*Run).c13, expl: "Abstract interpretation of every pair of a setter and a getter of contents from an arbitrary state: the getter of the property set returns the symbol which was stored, every other getter returns what it returned before, and a setter which refuses its argument changes nothing. Setters and constructors of enumerated properties succeed for exactly the declared values."}
}

// arbitrary is an object of a type in any state.
func (m *tm) arbitrary(st *State, tn string) VPtr {
	t := m.r.p.typ(tn)
	if t == nil {
		panic(budgetErr{tn + " does not exist"})
	}
	v := m.e.fresh(types.NewPointer(t), "any")
	st.setNonNil(v)
	m.e.roots = append(m.e.roots, v)
	p, ok := st.ptr(v)
	if !ok {
		panic(budgetErr{"no arbitrary " + tn})
	}
	m.e.roots = append(m.e.roots, p)
	return p
}

// A probe reads a property.
type probe struct {
	prop string // the property
	name string
	get  func(st *State) []probed
	t    types.Type
	pos  string
}

type probed struct {
	st *State
	v  Val
	ok bool // without an error
}

func (m *tm) probed(xs []Exit, f *ssa.Function) []probed {
	var out []probed
	sig := f.Signature
	for _, x := range xs {
		p := probed{x.st, resAt(sig, x.res, 0), true}
		if err, has := errOf(m.e, sig, x.res); has {
			switch x.st.nilness(err) {
			case 1:
			case 2:
				p.ok = false
			default:
				for _, nil_ := range []bool{true, false} {
					s := x.st.clone()
					if s.assumeCond(VCond{"==", err, VNil{}}, nil_) {
						out = append(out, probed{s, p.v, nil_})
					}
				}
				continue
			}
		}
		m.e.roots = append(m.e.roots, p.v)
		out = append(out, p)
	}
	return out
}

func (m *tm) callF(st *State, f *ssa.Function, args ...Val) []Exit {
	return m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: args, Sig: f.Signature})
}

// probeOf reads by a method without arguments.
func (m *tm) probeOf(f *ssa.Function, x Val) probe {
	return probe{prop: f.Name()[3:], name: m.r.p.short(f), t: f.Signature.Results().At(0).Type(), pos: m.r.p.fpos(m.r.p.short(f)), get: func(st *State) []probed {
		return m.probed(m.callF(st, f, x), f)
	}}
}

// sameProbed: two readings are the same.
func (m *tm) sameProbed(st *State, a, b probed) bool {
	return a.ok == b.ok && (!a.ok || m.eqv(st, a.v, b.v, 0))
}

var valueTypes = map[string]string{"String": "ValueTypeString", "Bool": "ValueTypeBool", "Int": "ValueTypeInteger", "Buffer": "ValueTypeBuffer", "Real": "ValueTypeReal", "RelativeOID": "ValueTypeOID"}

func (r *Run) c10() {
	const cp = "embertree.ContentParameter"
	r.rule("stored: after a store of a type the value reports being set and its type, the getter of that type yields what was stored, and every other getter returns an error, whatever the value was before")
	r.rule("unset: a new value reports the type unset, and every getter returns an error")
	r.rule("copy: a copy onto an unset value or one of the same type takes over type and value, a copy onto another type is refused and changes nothing; the source of a copy never changes")
	r.rule("coding: a value of each type is encoded and decoded to the same type and value")
	var ts []string
	for t := range valueTypes {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	typeOf := map[string]int64{}
	seen := map[int64]string{}
	for _, t := range append(ts, "") {
		n := valueTypes[t]
		if t == "" {
			n = "ValueTypeUnset"
		}
		c, ok := r.p.constOf("embertree", n)
		if !ok {
			r.fail("anchor", "embertree."+n, "", "the constant of the type is gone")
			return
		}
		r.oblige("stored", "embertree."+n, "", seen[c] == "", "it has the same number as "+seen[c])
		seen[c] = n
		typeOf[t] = c
	}
	for _, t := range ts {
		if r.need(cp+".Set"+t) == nil || r.need(cp+".Get"+t) == nil {
			return
		}
	}
	if r.need(cp+".GetType") == nil || r.need(cp+".IsSet") == nil || r.need(cp+".Set") == nil {
		return
	}
	// expect: what a value shows. Type "" is unset.
	expect := func(m *tm, st *State, rule, what, pos string, x Val, t string, v Val) {
		for _, q := range m.callF(st.clone(), r.need(cp+".GetType"), x) {
			c, ok := constOf(q.st.nv(q.res))
			r.oblige(rule, what, pos, ok && c == typeOf[t], "its type is not that of the last store")
		}
		for _, q := range m.callF(st.clone(), r.need(cp+".IsSet"), x) {
			c, ok := constOf(q.st.nv(q.res))
			r.oblige(rule, what, pos, ok && (c != 0) == (t != ""), "it does not report whether it is set")
		}
		for _, g := range ts {
			f := r.need(cp + ".Get" + g)
			for _, q := range m.probed(m.callF(st.clone(), f, x), f) {
				if g != t {
					r.oblige(rule, what, pos, !q.ok, "Get"+g+" returns no error")
				} else {
					r.oblige(rule, what, pos, q.ok, "Get"+g+" returns an error")
					r.oblige(rule, what, pos, !q.ok || m.eqv(q.st, q.v, v, 0), "Get"+g+" does not return what was stored")
				}
			}
		}
	}
	// every method which is not a getter is one of the stores or of the coders analysed here
	for _, f := range r.p.methodsOf(cp) {
		if !isExported(f) || !strings.HasPrefix(f.Name(), "Set") || f.Name() == "Set" {
			continue
		}
		_, known := valueTypes[f.Name()[3:]]
		if !known {
			r.fail("anchor", r.p.short(f), r.p.fpos(r.p.short(f)), "this store of a typed value is not known to the rule")
		}
	}
	storeF := func(m *tm, st *State, x Val, t, name string) (*State, Val) {
		f := r.need(cp + ".Set" + t)
		v := m.any(st, f.Params[1].Type(), name)
		return m.choose(r.p.short(f), m.callF(st, f, x, v)).st, v
	}
	for _, t := range append([]string{""}, ts...) {
		t := t
		pos := r.p.fpos(cp + ".Set" + t)
		r.paths(cp+".Set"+t, func(m *tm) {
			if t == "" {
				st, x := made("embertree.NewContentParameter")(m, m.e.start())
				expect(m, st, "unset", "embertree.NewContentParameter", r.p.fpos("embertree.NewContentParameter"), x, "", nil)
				w := m.writer(st)
				ex := m.do(st, cp+".Encode", x, intV(1), w)
				r.oblige("coding", "unset value", r.p.fpos(cp+".Encode"), len(ex) > 0, "an unset value cannot be encoded")
				for _, q := range ex {
					r.oblige("coding", "unset value", r.p.fpos(cp+".Encode"), len(m.toks(q.st, w)) == 0, "an unset value is encoded as something")
				}
				return
			}
			st := m.e.start()
			x := m.arbitrary(st, cp)
			st, v := storeF(m, st, x, t, "stored")
			expect(m, st, "stored", cp+".Set"+t, pos, x, t, v)
			// coding
			w := m.writer(st)
			ex := m.do(st.clone(), cp+".Encode", x, intV(3), w)
			r.oblige("coding", "value of type "+t, pos, len(ex) > 0, "it is never encoded")
			for _, q := range ex {
				expect(m, q.st, "coding", "encoded value of type "+t, pos, x, t, v)
				toks := m.toks(q.st, w)
				for form := 0; form < 2; form++ {
					form := form
					s := q.st.clone()
					rd := m.reader(s, newDoc(toks, func(int) bool { return form == 1 }))
					dx := m.callF(s, r.need("embertree.DecodeValue"), rd, intV(3))
					r.oblige("coding", "decoded value of type "+t, pos, len(dx) > 0, "it is never decoded")
					for _, y := range dx {
						got, err := m.outcome(y)
						if !r.oblige("coding", "decoded value of type "+t, pos, got != nil && y.st.nilness(err) == 1, "its encoding is refused") {
							continue
						}
						expect(m, y.st, "coding", "decoded value of type "+t, pos, got, t, v)
					}
				}
			}
		})
		// copies of this value onto others
		for _, u := range append([]string{""}, ts...) {
			u := u
			what := fmt.Sprintf("copy of %s onto %s", or(t, "an unset value"), or(u, "an unset value"))
			pos := r.p.fpos(cp + ".Set")
			r.paths(what, func(m *tm) {
				st := m.e.start()
				var x, y, v, o Val
				x, y = m.arbitrary(st, cp), m.arbitrary(st, cp)
				if t == "" {
					st, x = made("embertree.NewContentParameter")(m, st)
				} else {
					st, v = storeF(m, st, x, t, "source")
				}
				if u == "" {
					st, y = made("embertree.NewContentParameter")(m, st)
				} else {
					st, o = storeF(m, st, y, u, "target")
				}
				f := r.need(cp + ".Set")
				ex := m.callF(st, f, y, x)
				r.oblige("copy", what, pos, len(ex) > 0, "it never returns")
				for _, q := range ex {
					err, _ := errOf(m.e, f.Signature, q.res)
					n := q.st.nilness(err)
					switch {
					case t == "": // nothing to copy
						expect(m, q.st, "copy", what, pos, y, u, o)
					case u == "" || u == t:
						r.oblige("copy", what, pos, n == 1, "it is refused")
						expect(m, q.st, "copy", what, pos, y, t, v)
					default:
						r.oblige("copy", what, pos, n == 2, "it is not refused")
						expect(m, q.st, "copy", what, pos, y, u, o)
					}
					expect(m, q.st, "copy", "source of "+what, pos, x, t, v)
				}
			})
		}
	}
}

// any is a value of a type of which nothing is known.
func (m *tm) any(st *State, t types.Type, name string) Val {
	v := m.e.fresh(t, name)
	m.e.roots = append(m.e.roots, v)
	return v
}

func or(s, t string) string {
	if s == "" {
		return t
	}
	return s
}

// enumOf lists the declared constants of a named integer type.
func (r *Run) enumOf(t types.Type) map[int64]bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	out := map[int64]bool{}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				out[v] = true
			}
		}
	}
	return out
}

// A property which can be set and read.
type property struct {
	name   string
	pos    string
	set    func(st *State, v Val) []probed // the value is not used
	t      types.Type
	reads  []probe
	object bool
}

// properties pairs the setters and getters of a type.
func (m *tm) properties(tn string, x Val) []property {
	var out []property
	get := map[string]*ssa.Function{}
	for _, f := range m.r.p.methodsOf(tn) {
		if isExported(f) && strings.HasPrefix(f.Name(), "Get") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() > 0 {
			get[f.Name()[3:]] = f
		}
	}
	var open []*ssa.Function
	pair := func(s, g *ssa.Function) {
		delete(get, g.Name()[3:])
		pr := m.probeOf(g, x)
		out = append(out, property{name: tn + "." + s.Name(), pos: m.r.p.fpos(tn + "." + s.Name()), t: s.Params[1].Type(), reads: []probe{pr}, set: func(st *State, v Val) []probed {
			return m.setResults(m.callF(st, s, x, v), s)
		}})
	}
	for _, s := range m.r.setters(tn) {
		if g := get[s.Name()[3:]]; g != nil && samePropertyType(g.Signature.Results().At(0).Type(), s.Params[1].Type()) {
			pair(s, g)
		} else {
			open = append(open, s)
		}
	}
	// a setter whose name is spelt otherwise than that of its getter
	for _, s := range open {
		var g *ssa.Function
		for n, f := range get {
			if types.Identical(f.Signature.Results().At(0).Type(), s.Params[1].Type()) && editDistance(n, s.Name()[3:]) <= 2 {
				g = f
			}
		}
		if g != nil {
			pair(s, g)
		}
	}
	const cp = "embertree.ContentParameter"
	for _, g := range m.r.objectQueries(tn) {
		g := g
		obj := func(st *State) (*State, Val) {
			q := m.choose(m.r.p.short(g), m.callF(st, g, x))
			return q.st, q.res
		}
		read := func(q string) probe {
			f := m.r.need(cp + "." + q)
			if f == nil {
				panic(budgetErr{cp + "." + q + " does not exist"})
			}
			return probe{prop: g.Name(), name: m.r.p.short(g) + "." + q, pos: m.r.p.fpos(tn + "." + g.Name()), get: func(st *State) []probed {
				s, o := obj(st)
				return m.probed(m.callF(s, f, o), f)
			}}
		}
		s := m.r.need(cp + ".SetInt")
		if s == nil {
			panic(budgetErr{cp + ".SetInt does not exist"})
		}
		p := property{name: tn + "." + g.Name(), pos: m.r.p.fpos(tn + "." + g.Name()), t: s.Params[1].Type(), object: true, set: func(st *State, v Val) []probed {
			st, o := obj(st)
			return m.setResults(m.callF(st, s, o, v), s)
		}}
		for _, q := range []string{"GetInt", "GetType", "IsSet", "GetString"} {
			p.reads = append(p.reads, read(q))
		}
		out = append(out, p)
	}
	return out
}

func samePropertyType(a, b types.Type) bool {
	return types.Identical(a, b) || isIntT(a) && isIntT(b)
}

// setResults are the outcomes of a setter.
func (m *tm) setResults(xs []Exit, f *ssa.Function) []probed {
	var out []probed
	for _, x := range xs {
		p := probed{x.st, nil, true}
		if err, has := errOf(m.e, f.Signature, x.res); has {
			switch x.st.nilness(err) {
			case 2:
				p.ok = false
			case 0:
				panic(budgetErr{"whether " + m.r.p.short(f) + " succeeds is not known"})
			}
		}
		out = append(out, p)
	}
	return out
}

func editDistance(a, b string) int {
	d := make([]int, len(b)+1)
	for j := range d {
		d[j] = j
	}
	for i := 1; i <= len(a); i++ {
		prev := d[0]
		d[0] = i
		for j := 1; j <= len(b); j++ {
			c := prev
			if a[i-1] != b[j-1] {
				c++
			}
			prev = d[j]
			if d[j]+1 < c {
				c = d[j] + 1
			}
			if d[j-1]+1 < c {
				c = d[j-1] + 1
			}
			d[j] = c
		}
	}
	return d[len(b)]
}

func (r *Run) c13() {
	r.rule("own: after a setter succeeded, the getter of its property returns what was stored, without an error, from any earlier state")
	r.rule("others: after a setter returned, every other property reads as before; if the setter refused its argument, its own does too")
	r.rule("range: the setters and constructors of the matrix type and mode, and of the operation and disposition of a connection, succeed for exactly the declared values")
	types_ := []string{}
	for _, c := range contentTypes {
		types_ = append(types_, c.typ)
	}
	types_ = append(types_, "embertree.Connection", "embertree.Element")
	for _, tn := range types_ {
		if r.p.typ(tn) == nil {
			r.fail("anchor", tn, "", "the type does not exist")
			continue
		}
		m := r.newTM()
		if m == nil {
			return
		}
		n := 0
		r.guard(tn, m.e, func() {
			n = len(m.properties(tn, m.arbitrary(m.e.start(), tn)))
		})
		r.oblige("own", tn, "", n > 0, "it has no property which can be set and read")
		r.count("properties", n)
		for i := 0; i < n; i++ {
			m := r.newTM()
			name := ""
			if r.guard(tn, m.e, func() { name = m.properties(tn, m.arbitrary(m.e.start(), tn))[i].name }) {
				r.setting(tn, name, i)
			}
		}
	}
	r.ranges()
}

// setting: what one setter changes.
func (r *Run) setting(tn, name string, i int) {
	r.paths(name, func(m *tm) {
		base := m.e.start()
		x := m.arbitrary(base, tn)
		ps := m.properties(tn, x)
		p := ps[i]
		v := m.any(base, p.t, "stored")
		succeeds := false
		for j, q := range ps {
			for k, pr := range q.reads {
				if j == i && k > 0 {
					break
				}
				for _, b := range pr.get(base.clone()) {
					m.e.roots = append(m.e.roots, b.v)
					for _, s := range p.set(b.st, v) {
						succeeds = succeeds || s.ok
						for _, a := range pr.get(s.st) {
							if j == i && s.ok {
								r.oblige("own", p.name, p.pos, a.ok, pr.name+" returns an error after it")
								r.oblige("own", p.name, p.pos, !a.ok || m.eqv(a.st, a.v, v, 0), pr.name+" does not return what it stored")
							} else {
								r.oblige("others", p.name, p.pos, m.sameProbed(a.st, b, a), "it changes what "+pr.name+" returns")
							}
						}
					}
				}
			}
		}
		r.oblige("own", p.name, p.pos, succeeds, "it never succeeds")
	})
}

// ranges: enumerated properties.
func (r *Run) ranges() {
	limit := func(name string, arg int, t string) {
		f := r.need(name)
		if f == nil {
			return
		}
		var en map[int64]bool
		max := int64(-1)
		if t == "" {
			en = r.enumOf(f.Params[arg].Type())
			for v := range en {
				if v > max {
					max = v
				}
			}
		} else {
			en = map[int64]bool{}
			for _, n := range strings.Split(t, " ") {
				v, ok := r.p.constOf("embertree", n)
				if !ok {
					r.fail("anchor", "embertree."+n, "", "the constant is gone")
					return
				}
				en[v] = true
				if v > max {
					max = v
				}
			}
		}
		pos := r.p.fpos(name)
		if !r.oblige("range", name, pos, len(en) > 0 && int64(len(en)) == max+1, "the values it may be given are not declared") {
			return
		}
		for _, part := range []string{"declared values", "other values"} {
			m := r.newTM()
			r.guard(name+" "+part, m.e, func() {
				try := func(lo, hi int64) {
					st := m.e.start()
					var args []Val
					for i, p := range f.Params {
						switch {
						case i == arg:
							v := VInt{m.e.newInt(p.Type(), "value", lo, hi)}
							m.e.roots = append(m.e.roots, v)
							args = append(args, v)
						case isIntT(p.Type()):
							args = append(args, intV(0))
						default:
							args = append(args, m.arbitrary(st, "embertree."+p.Type().(*types.Pointer).Elem().(*types.Named).Obj().Name()))
						}
					}
					for _, q := range m.callF(st, f, args...) {
						err, has := errOf(m.e, f.Signature, q.res)
						if !has {
							r.fail("range", name, pos, "it cannot refuse a value")
							continue
						}
						n := q.st.nilness(err)
						if part == "declared values" {
							r.oblige("range", name, pos, n == 1, "it may refuse a declared value")
						} else {
							r.oblige("range", name, pos, n == 2, fmt.Sprintf("it may accept a value which is not declared, between %d and %d", lo, hi))
						}
					}
				}
				lo, hi := intRange(f.Params[arg].Type())
				if part == "declared values" {
					for v := range en {
						try(v, v)
					}
				} else {
					try(max+1, hi)
					if lo < 0 {
						try(lo, -1)
					}
				}
			})
		}
	}
	limit("embertree.MatrixContent.SetType", 1, "")
	limit("embertree.MatrixContent.SetMode", 1, "")
	limit("embertree.NewMatrixContent", 0, "")
	limit("embertree.NewMatrixContent", 1, "")
	limit("embertree.NewMatrix", 1, "")
	limit("embertree.NewMatrix", 2, "")
	limit("embertree.Connection.SetOperation", 1, "Absolute Connect Disconnect")
	limit("embertree.Connection.SetDisposition", 1, "Tally Modified Pending Locked")
}
