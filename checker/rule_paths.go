package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C12"] = check{run: (*Run).c12, expl: "Abstract execution of the path queries on elements with unknown numbers and unknown own paths: in branches of up to six elements, plain or qualified at each level, before and after elements are moved. The array of every path returned is followed: nothing else may refer to it. Lookups by path are executed on a tree for every path to an element, to a missing one, and through a missing one."}
}

func (r *Run) c12() {
	r.rule("path: the path of a qualified element is its own, that of another element the path of its parent, as it is now, followed by its number")
	r.rule("independent: the numbers of a path which was returned are referred to by nothing else, neither an element nor another path")
	r.rule("lookup: an element is found by exactly its path, with its parent; nothing is found through a missing element")
	get := r.need("embertree.Element.GetPath")
	if get == nil {
		return
	}
	most := 6
	if r.thorough {
		most = 8
	}
	for depth := 1; depth <= most; depth++ {
		// which elements are qualified: none, one, or one and the one below
		r.branch(depth, -1, false)
		for q := 0; q < depth; q++ {
			r.branch(depth, q, false)
			if q+1 < depth {
				r.branch(depth, q, true)
			}
		}
	}
	r.moves()
	r.lookups()
}

// pathEl makes an element, and says what its own part of the path is.
func (m *tm) pathEl(st *State, qual bool, name string) (*State, Val, Val) {
	if qual {
		p := m.sym(st, m.oidT(), name+".path")
		st, el := m.element(st, 5, nil, p)
		return st, el, p
	}
	n := m.sym(st, types.Typ[types.Int32], name+".number")
	st, el := m.element(st, 1, n, nil)
	return st, el, n
}

// wantPath: own path of the nearest qualified element, then numbers.
func (m *tm) isPath(st *State, got, own Val, nums []Val) bool {
	et := types.Typ[types.Int32]
	if own == nil {
		return m.eqv(st, got, m.list(st, et, nums...), 0)
	}
	sl, ok := st.slice(st.nv(got))
	if !ok {
		return len(nums) == 0 && m.eqv(st, got, own, 0)
	}
	osl, ok := st.slice(st.nv(own))
	if !ok {
		return false
	}
	n := lc(int64(len(nums)))
	l := st.norm(st.lenOf(got).sub(st.lenOf(own)))
	if !l.eq(n) {
		return false
	}
	want := m.e.sliceSegs(st, osl)
	if len(nums) > 0 {
		ns, ok := st.slice(m.list(st, et, nums...))
		if !ok {
			return false
		}
		want = append(append([]Seg(nil), want...), m.e.sliceSegs(st, ns)...)
	}
	return segKey(st, m.e.sliceSegs(st, sl)) == segKey(st, want)
}

// alone: nothing but the value refers to the array of a path.
func (m *tm) alone(st *State, what, pos string, p Val, others ...Val) {
	sl, ok := st.slice(st.nv(p))
	if !ok {
		return // no numbers
	}
	if c, isC := constOf(VInt{st.norm(st.lenOf(p))}); isC && c == 0 {
		return
	}
	for _, o := range others {
		if x, ok := st.slice(st.nv(o)); ok {
			m.r.oblige("independent", what, pos, x.O != sl.O, "two paths which were returned share their numbers")
		}
	}
	for id, o := range st.objs {
		if id == sl.O {
			continue
		}
		if !strings.HasSuffix(typeKey(o.T), "embertree.Element") {
			continue
		}
		for k, c := range o.Cells {
			if x, ok := st.slice(st.nv(c)); ok && x.O == sl.O {
				m.r.oblige("independent", what, pos, false, "a path which was returned shares its numbers with the element ("+k+")")
			}
		}
	}
	m.r.oblige("independent", what, pos, true, "")
}

func (r *Run) branch(depth, q int, two bool) {
	what := fmt.Sprintf("a branch of %d elements", depth)
	if q >= 0 {
		what += fmt.Sprintf(", number %d qualified", q+1)
	}
	if two {
		what += ", and the one below"
	}
	pos := r.p.fpos("embertree.Element.GetPath")
	r.paths(what, func(m *tm) {
		st := m.e.start()
		var els, ids []Val
		isQ := func(i int) bool { return i == q || two && i == q+1 }
		for i := 0; i < depth; i++ {
			var el, id Val
			st, el, id = m.pathEl(st, isQ(i), fmt.Sprint("element", i))
			if i > 0 {
				st, _ = m.one(st, "embertree.Element.AddChild", els[i-1], el)
			}
			els, ids = append(els, el), append(ids, id)
		}
		// a second child of the last parent
		sibling := depth
		if depth > 1 {
			var el, id Val
			st, el, id = m.pathEl(st, false, "sibling")
			if m.eqv(st, id, ids[depth-1], 0) {
				return
			}
			st, _ = m.one(st, "embertree.Element.AddChild", els[depth-2], el)
			els, ids = append(els, el), append(ids, id)
		}
		var got []Val
		ask := func(i int) {
			var own Val
			var nums []Val
			for j := 0; j <= i && j < depth; j++ {
				if i == sibling && j == depth-1 {
					break
				}
				if isQ(j) {
					own, nums = ids[j], nil
				} else {
					nums = append(nums, ids[j])
				}
			}
			if i == sibling {
				nums = append(nums, ids[i])
			}
			var p Val
			st, p = m.one(st, "embertree.Element.GetPath", els[i])
			r.oblige("path", what, pos, m.isPath(st, p, own, nums), fmt.Sprintf("the path of element %d is not what it should be", i+1))
			m.alone(st, what, pos, p, got...)
			got = append(got, p)
			m.e.roots = append(m.e.roots, p)
		}
		for i := range els {
			ask(i)
		}
		for i := len(els) - 1; i >= 0; i-- {
			ask(i)
		}
	})
}

// moves: paths after an element, or one of its parents, got another parent or number.
func (r *Run) moves() {
	pos := r.p.fpos("embertree.Element.GetPath")
	for _, how := range []string{"AddChild", "SetParent"} {
		for kind := 0; kind < 4; kind++ {
			qualParent, qualEl := kind&1 != 0, kind&2 != 0
			what := fmt.Sprintf("moves by %s (%s element, %s parent)", how, map[bool]string{true: "qualified", false: "plain"}[qualEl], map[bool]string{true: "qualified", false: "plain"}[qualParent])
			r.paths(what, func(m *tm) {
				st := m.e.start()
				mk := func(q bool, name string) (el, id Val) {
					st, el, id = m.pathEl(st, q, name)
					return
				}
				put := func(parent, child Val) {
					if how == "AddChild" {
						st, _ = m.one(st, "embertree.Element.AddChild", parent, child)
					} else {
						st, _ = m.one(st, "embertree.Element.SetParent", child, parent)
					}
				}
				a, ia := mk(false, "a")
				b, ib := mk(qualParent, "b")
				c, ic := mk(false, "c")
				x, ix := mk(qualEl, "x")
				y, iy := mk(false, "y")
				put(x, y)
				check := func(el Val, own Val, nums ...Val) {
					var p Val
					st, p = m.one(st, "embertree.Element.GetPath", el)
					r.oblige("path", what, pos, m.isPath(st, p, own, nums), "the path of an element which was moved is not what it should be")
				}
				both := func(own Val, nums ...Val) {
					if qualEl {
						check(x, ix)
						check(y, ix, iy)
						return
					}
					check(x, own, append(append([]Val(nil), nums...), ix)...)
					check(y, own, append(append([]Val(nil), nums...), ix, iy)...)
				}
				both(nil)
				put(a, x)
				both(nil, ia)
				put(b, x)
				if qualParent {
					both(ib)
				} else {
					both(nil, ib)
				}
				put(c, b)
				if qualParent {
					both(ib)
				} else {
					both(nil, ic, ib)
				}
				put(c, x)
				both(nil, ic)
				put(a, c)
				both(nil, ia, ic)
				// another number
				if p, ok := st.ptr(a); ok {
					n := m.sym(st, types.Typ[types.Int32], "number")
					st.store(VPtr{p.O, ".Number"}, n, intT)
					both(nil, n, ic)
				}
			})
		}
	}
}

// lookups by path in a tree.
func (r *Run) lookups() {
	f := r.need("embertree.RootElement.GetElementByPath")
	if f == nil {
		return
	}
	pos := r.at(f)
	what := r.p.short(f)
	r.paths(what, func(m *tm) {
		st, root := m.one(m.e.start(), "embertree.NewTree")
		els := map[string]Val{}
		var all [][]int64
		key := func(p []int64) string { return fmt.Sprint(p) }
		var grow func(p []int64)
		grow = func(p []int64) {
			for _, n := range []int64{0, 1, 70000} {
				q := append(append([]int64(nil), p...), n)
				if len(q) > 1 && n == 70000 && q[len(q)-2] == 70000 {
					continue // leaves
				}
				var el Val
				kind := 1
				var path Val
				if len(q) == 1 && n == 1 { // a qualified one
					kind, path = 5, m.list(st, types.Typ[types.Int32], intV(n))
				}
				st, el = m.element(st, kind, intV(n), path)
				if len(p) == 0 {
					st = m.choose("AddElement", m.do(st, "embertree.RootElement.AddElement", root, el)).st
				} else {
					st, _ = m.one(st, "embertree.Element.AddChild", els[key(p)], el)
				}
				els[key(q)] = el
				all = append(all, q)
				if len(q) < 4 && !(n == 700000000 && len(q) > 1) && !(n == 0 && len(q) > 2) {
					grow(q)
				}
			}
		}
		grow(nil)
		ask := func(p []int64) {
			var vs []Val
			for _, n := range p {
				vs = append(vs, intV(n))
			}
			arg := m.list(st, types.Typ[types.Int32], vs...)
			x := m.choose(f.Name(), m.doF(st, f, root, arg))
			parent, el := resAt(f.Signature, x.res, 0), resAt(f.Signature, x.res, 1)
			is := func(v Val, p []int64) bool {
				w := els[key(p)]
				if w == nil {
					return x.st.nilness(v) == 1
				}
				return vkey(x.st.nv(v)) == vkey(x.st.nv(w))
			}
			w := fmt.Sprintf("%s(%v)", what, p)
			r.oblige("independent", w, pos, m.isPath(x.st, arg, nil, vs), "the lookup changes the path it was given")
			r.oblige("lookup", w, pos, is(el, p), "the element found is not the one with this path")
			if len(p) < 2 {
				r.oblige("lookup", w, pos, x.st.nilness(parent) == 1, "an element of the root is found with a parent")
			} else {
				r.oblige("lookup", w, pos, is(parent, p[:len(p)-1]), "the parent found is not the one of the element with this path")
			}
		}
		ask(nil)
		for _, p := range all {
			ask(p)
			ask(append(append([]int64(nil), p...), 5))       // a missing child
			ask(append(append([]int64(nil), p...), 5, 1))    // through a missing one
			ask(append(append([]int64(nil), p...), 5, 1, 7)) // and further
			for i := range p {
				q := append([]int64(nil), p...)
				for _, n := range []int64{5, p[i] + 256, p[i] + 65536} {
					q[i] = n
					ask(q)
				}
			}
		}
		ask([]int64{5})
		ask([]int64{5, 1})
		ask([]int64{-1, 1})
	})
}
