package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C11"] = check{run: (*Run).c11, expl: "The decoder of elements is executed abstractly on an element of each of the nine kinds - with its number or path, contents, children and matrix data - alone, as a child and in the root collection, and with each of the 247 other tags. What the exported methods of the decoded element say is compared with what its tag says. The constructors of the elements are compared with the same table."}
}

// The kinds of elements by the number of their application tag.
var elementTags = []struct {
	name     string
	app      int64
	contents string
	qual     bool
	matrix   bool
	ctor     int // in elementCtors
}{
	{"parameter", 1, "embertree.ParameterContents", false, false, 0},
	{"command", 2, "embertree.CommandContents", false, false, 8},
	{"node", 3, "embertree.NodeContents", false, false, 1},
	{"qualified parameter", 9, "embertree.ParameterContents", true, false, 4},
	{"qualified node", 10, "embertree.NodeContents", true, false, 5},
	{"matrix", 13, "embertree.MatrixContent", false, true, 3},
	{"qualified matrix", 17, "embertree.MatrixContent", true, true, 6},
	{"function", 19, "embertree.FunctionContents", false, false, 2},
	{"qualified function", 20, "embertree.FunctionContents", true, false, 7},
}

func (r *Run) c11() {
	r.rule("kind: an element of each kind is decoded, alone, as a child and in the root collection; its tag, its contents, its path and whether it has matrix data are those of its kind")
	r.rule("address: an element is addressed by a path exactly when its tag is a qualified one")
	r.rule("unknown: an element with any other tag is refused")
	r.rule("made: the constructor of each kind makes an element of this kind")
	dec := r.need("embertree.DecodeElement")
	if dec == nil {
		return
	}
	for i := range elementTags {
		r.kindDecoded(i)
		r.kindMade(i)
	}
	r.unknownKinds()
}

// addr is how an element is addressed.
func addr(m *tm, st *State, qual bool) (Val, []tok) {
	if qual {
		p := m.sym(st, m.oidT(), "path")
		return p, []tok{{kind: "S", tag: 0xa0}, {kind: "oid", tag: 13, v: p}, {kind: "E"}}
	}
	n := m.sym(st, types.Typ[types.Int32], "number")
	return n, []tok{{kind: "S", tag: 0xa0}, {kind: "int", tag: 2, v: n}, {kind: "E"}}
}

// bare contents of a kind.
func bareContents(contents string) []tok {
	t := []tok{{kind: "S", tag: 0xa1}}
	if contents == "embertree.CommandContents" {
		t = append(t, tok{kind: "int", tag: 2, v: intV(0)})
	} else {
		t = append(t, tok{kind: "S", tag: 0x31}, tok{kind: "E"})
	}
	return append(t, tok{kind: "E"})
}

func wrap(tag int64, in ...[]tok) []tok {
	t := []tok{{kind: "S", tag: tag}}
	for _, l := range in {
		t = append(t, l...)
	}
	return append(t, tok{kind: "E"})
}

// isKind: what the methods of an element say.
func (m *tm) isKind(st *State, what, pos string, el Val, i int, number, path Val, contents bool) {
	r, k := m.r, elementTags[i]
	say := func(ok bool, msg string) { r.oblige("kind", what, pos, ok, msg) }
	if p, ok := st.ptr(el); !ok || p.P != "" {
		say(false, "no element is decoded")
		return
	}
	m.e.roots = append(m.e.roots, el)
	st, tag := m.one(st, "embertree.Element.GetTag", el)
	c, ok := constOf(tag)
	say(ok && c == 0x60+k.app, fmt.Sprintf("its tag is not %#x", 0x60+k.app))
	typ := func(v Val) string {
		if v == nil || st.nilness(v) == 1 {
			return "nothing"
		}
		if x, ok := st.nv(v).(VIface); ok {
			return shortT(x.T)
		}
		return "something unknown"
	}
	st, now := m.one(st, "embertree.Element.GetContent", el)
	want := "nothing"
	if contents {
		want = k.contents
	}
	if contents || k.matrix && !k.qual && what[:4] == "made" {
		want = k.contents
	}
	if what[:4] != "made" || !k.matrix {
		say(typ(now) == want, "its contents are "+typ(now)+" instead of "+want)
	}
	if !contents {
		// those made for it
		s := st.clone()
		s, made := m.one(s, "embertree.Element.CreateContent", el)
		say(typ(made) == k.contents, "the contents made for it are "+typ(made)+" instead of "+k.contents)
	}
	st, p := m.one(st, "embertree.Element.GetPath", el)
	if k.qual {
		say(m.eqv(st, p, path, 0), "its path is not the one it was sent with")
	} else {
		say(m.eqv(st, p, m.list(st, types.Typ[types.Int32], number), 0), "its path is not its number")
	}
	for _, f := range []string{"Targets", "Sources", "Connections"} {
		n := 0
		for _, x := range m.do(st.clone(), "embertree.Element.Get"+f, el) {
			_ = x
			n++
		}
		say((n > 0) == k.matrix, map[bool]string{true: "it has no " + strings.ToLower(f), false: "it has " + strings.ToLower(f)}[k.matrix])
		sf := r.need("embertree.Element.Set" + f)
		if sf == nil {
			continue
		}
		arg := m.e.fresh(sf.Params[1].Type(), "list")
		for _, x := range m.e.callFn(st.clone(), &CallCtx{Fn: sf, Name: sf.String(), Args: []Val{el, arg}, Sig: sf.Signature}) {
			say(x.st.nilness(x.res) == map[bool]int{true: 1, false: 2}[k.matrix], "its "+strings.ToLower(f)+" are set or refused against its kind")
		}
	}
}

func (r *Run) kindDecoded(i int) {
	k := elementTags[i]
	f := r.need("embertree.DecodeElement")
	pos := r.at(f)
	cs := bareContents(k.contents)
	signal := func(app int64) []tok {
		return wrap(0xa0, wrap(0x60+app, wrap(0xa0, []tok{{kind: "int", tag: 2, v: intV(7)}})))
	}
	child := wrap(0xa2, wrap(0x64, wrap(0xa0, wrap(0x63, wrap(0xa0, []tok{{kind: "int", tag: 2, v: intV(5)}})))))
	parts := []struct {
		name     string
		toks     []tok
		matrix   bool // only for a matrix
		contents bool
	}{
		{"alone", nil, false, false},
		{"with contents", cs, false, true},
		{"with a child", child, false, false},
		{"with contents and a child", append(append([]tok(nil), cs...), child...), false, true},
		{"with targets", wrap(0xa3, wrap(0x30, signal(14))), true, false},
		{"with sources", wrap(0xa4, wrap(0x30, signal(15))), true, false},
		{"with connections", wrap(0xa5, wrap(0x30, wrap(0xa0, wrap(0x70, wrap(0xa0, []tok{{kind: "int", tag: 2, v: intV(7)}}))))), true, false},
	}
	for _, p := range parts {
		for form := 0; form < 2; form++ {
			what := fmt.Sprintf("a %s %s (%s form)", k.name, p.name, forms[form].name)
			r.paths(what, func(m *tm) {
				st := m.e.start()
				id, at := addr(m, st, k.qual)
				rd := m.reader(st, withForm(wrap(0x60+k.app, at, p.toks), form))
				n := 0
				for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{rd}, Sig: f.Signature}) {
					el, err := m.outcome(x)
					if p.matrix && !k.matrix {
						r.oblige("kind", what, pos, x.st.nilness(err) == 2, "it is accepted")
						continue
					}
					if !r.oblige("kind", what, pos, x.st.nilness(err) == 1, "it is refused") {
						continue
					}
					n++
					m.isKind(x.st, what, pos, el, i, id, id, p.contents)
				}
				r.oblige("kind", what, pos, n > 0 || p.matrix && !k.matrix, "it is never decoded")
			})
		}
	}
	// addressed the other way
	what := fmt.Sprintf("a %s addressed by a %s", k.name, map[bool]string{true: "number", false: "path"}[k.qual])
	r.paths(what, func(m *tm) {
		st := m.e.start()
		_, at := addr(m, st, !k.qual)
		rd := m.reader(st, withForm(wrap(0x60+k.app, at), 0))
		for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{rd}, Sig: f.Signature}) {
			_, err := m.outcome(x)
			r.oblige("address", what, pos, x.st.nilness(err) == 2, "it is accepted")
		}
	})
	// inside of others
	dec := r.need("embertree.RootElement.Decode")
	if dec == nil {
		return
	}
	for _, deep := range []int{0, 1, 2} {
		if deep > 0 && k.qual {
			continue // a path is its own
		}
		what := fmt.Sprintf("a %s at depth %d of a message", k.name, deep)
		r.paths(what, func(m *tm) {
			st, tree := m.one(m.e.start(), "embertree.NewTree")
			var id Val = intV(3)
			at := wrap(0xa0, []tok{{kind: "int", tag: 2, v: id}})
			path := m.list(st, types.Typ[types.Int32], intV(3))
			if k.qual {
				id = path
				at = wrap(0xa0, []tok{{kind: "oid", tag: 13, v: path}})
			}
			toks := wrap(0x60+k.app, at, cs)
			for d := 0; d < deep; d++ {
				toks = wrap(0x63, wrap(0xa0, []tok{{kind: "int", tag: 2, v: intV(8)}}), wrap(0xa2, wrap(0x64, wrap(0xa0, toks))))
			}
			rd := m.reader(st, withForm(wrap(0x60, wrap(0x6b, wrap(0xa0, toks))), 0))
			for _, x := range m.e.callFn(st, &CallCtx{Fn: dec, Name: dec.String(), Args: []Val{tree, rd}, Sig: dec.Signature}) {
				if !r.oblige("kind", what, pos, x.st.nilness(x.res) == 1, "the message is refused") {
					continue
				}
				var at []Val
				for d := 0; d < deep; d++ {
					at = append(at, intV(8))
				}
				at = append(at, intV(3))
				full := m.list(x.st, types.Typ[types.Int32], at...)
				gp := r.need("embertree.RootElement.GetElementByPath")
				if gp == nil {
					return
				}
				for _, y := range m.doF(x.st, gp, tree, full) {
					el := resAt(gp.Signature, y.res, 1)
					if !r.oblige("kind", what, pos, y.st.nilness(el) == 2, "it is not in the tree") {
						continue
					}
					s, tag := m.one(y.st, "embertree.Element.GetTag", el)
					c, ok := constOf(tag)
					r.oblige("kind", what, pos, ok && c == 0x60+k.app, fmt.Sprintf("its tag is not %#x", 0x60+k.app))
					s, got := m.one(s, "embertree.Element.GetContent", el)
					cv, isC := s.nv(got).(VIface)
					r.oblige("kind", what, pos, isC && shortT(cv.T) == k.contents, "its contents are not "+k.contents)
					s, p := m.one(s, "embertree.Element.GetPath", el)
					r.oblige("kind", what, pos, m.eqv(s, p, full, 0), "its path is not the one to it")
				}
			}
		})
	}
}

// kindMade: what the constructor of a kind makes.
func (r *Run) kindMade(i int) {
	k := elementTags[i]
	what := "made by " + elementCtors[k.ctor].ctor + ": a " + k.name
	r.paths(what, func(m *tm) {
		st := m.e.start()
		var number, path Val
		if k.qual {
			path = m.sym(st, m.oidT(), "path")
		} else {
			number = m.sym(st, types.Typ[types.Int32], "number")
			if k.name == "command" {
				number = intV(32)
			}
		}
		st, el := m.element(st, k.ctor, number, path)
		m.isKind(st, what, r.p.fpos("embertree."+elementCtors[k.ctor].ctor), el, i, number, path, k.name == "command")
	})
}

func (r *Run) unknownKinds() {
	f := r.need("embertree.DecodeElement")
	known := map[int64]bool{}
	for _, k := range elementTags {
		known[0x60+k.app] = true
	}
	pos := r.at(f)
	q := r.need("embertree.IsQualifiedTag")
	for tag := int64(0); tag < 256; tag++ {
		what := fmt.Sprintf("an element with the tag %#x", tag)
		if q != nil {
			r.paths(what, func(m *tm) {
				for _, x := range m.doF(m.e.start(), q, intV(tag)) {
					want := false
					for _, k := range elementTags {
						want = want || k.qual && 0x60+k.app == tag
					}
					c, ok := constOf(x.res)
					r.oblige("address", what, pos, ok && (c != 0) == want, "whether it is qualified is not what its tag says")
				}
			})
		}
		if known[tag] {
			continue
		}
		for _, qual := range []bool{false, true} {
			for _, contents := range []bool{false, true} {
				r.paths(what, func(m *tm) {
					st := m.e.start()
					_, at := addr(m, st, qual)
					var in []tok
					if contents {
						in = bareContents("")
					}
					rd := m.reader(st, withForm(wrap(tag, at, in), 0))
					for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{rd}, Sig: f.Signature}) {
						_, err := m.outcome(x)
						r.oblige("unknown", what, pos, x.st.nilness(err) == 2, "it is accepted")
					}
				})
			}
		}
	}
}

// shortT names a type, or what it points to, by its package and name.
func shortT(t types.Type) string {
	s := strings.TrimPrefix(typeKey(t), "*")
	return s[strings.LastIndex(s, "/")+1:]
}
