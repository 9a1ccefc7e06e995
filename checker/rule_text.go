package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Texts are kept as terms over their parts: constants and the values formatted into them.

// textKey is where the parts written to a builder are kept.
func textKey(p VPtr) string { return "text:" + vkey(p) }

func (m *tm) textTerm(st *State, t types.Type, parts []Val) Val {
	var l []Val
	for _, q := range parts {
		q = st.nv(q)
		if s, ok := q.(VStr); ok {
			if s.S == "" {
				continue
			}
			if n := len(l); n > 0 {
				if s0, ok := l[n-1].(VStr); ok {
					l[n-1] = VStr{s0.S + s.S}
					continue
				}
			}
		}
		l = append(l, q)
	}
	switch {
	case len(l) == 0:
		return VStr{""}
	case len(l) == 1:
		if _, ok := l[0].(VStr); ok {
			return l[0]
		}
	}
	v := m.e.term("text", t, l...)
	m.e.roots = append(m.e.roots, v)
	return v
}

// listOf are the elements of a slice of known length.
func (m *tm) listOf(st *State, v Val) ([]Val, bool) {
	v = st.nv(v)
	if st.nilness(v) == 1 {
		return nil, true
	}
	s, ok := v.(VSlice)
	if !ok || !st.norm(s.Len).isC() || st.norm(s.Len).C > 64 {
		return nil, false
	}
	at, ok := m.e.pathType(st.objs[s.O].T, s.P).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < st.norm(s.Len).C; i++ {
		x := st.nv(st.load(VPtr{s.O, fmt.Sprintf("%s[%s]", s.P, m.e.linKey(st.norm(s.Off.addC(i))))}, at.Elem()))
		if f, ok := x.(VIface); ok {
			x = st.nv(f.V)
		}
		out = append(out, x)
	}
	return out, true
}

// formatParts are the parts of a formatted text.
func (m *tm) formatParts(st *State, format, args Val) ([]Val, bool) {
	f, ok := st.nv(format).(VStr)
	l, ok2 := m.listOf(st, args)
	if !ok || !ok2 {
		return nil, false
	}
	var out []Val
	n := 0
	for _, d := range directives(f.S) {
		switch {
		case d.verb == 0:
			out = append(out, VStr{d.text})
		case d.verb == '%':
			out = append(out, VStr{"%"})
		default:
			n += d.stars
			if n < len(l) {
				out = append(out, l[n])
			}
			n++
		}
	}
	return out, true
}

// textCall models what makes texts.
func (m *tm) textCall(st *State, c *CallCtx) ([]Exit, bool) {
	str := types.Typ[types.String]
	ret := func(parts []Val) ([]Exit, bool) { return []Exit{{st, m.textTerm(st, str, parts)}}, true }
	builder := func(v Val) (VPtr, bool) {
		v = st.nv(v)
		if f, ok := v.(VIface); ok {
			if k := typeKey(f.T); k != "*strings.Builder" && k != "*bytes.Buffer" {
				return VPtr{}, false
			}
			v = st.nv(f.V)
		}
		p, ok := v.(VPtr)
		return p, ok
	}
	written := func(p VPtr) VTuple {
		t, _ := st.g[textKey(p)].(VTuple)
		return t
	}
	add := func(p VPtr, l ...Val) {
		st.g[textKey(p)] = append(append(VTuple(nil), written(p)...), l...)
	}
	done := func() ([]Exit, bool) { return m.e.results(st, c.Sig, c.Name, true), true }
	switch c.Name {
	case "fmt.Sprintf":
		if l, ok := m.formatParts(st, c.Args[0], c.Args[1]); ok {
			return ret(l)
		}
	case "fmt.Sprint", "fmt.Sprintln":
		if l, ok := m.listOf(st, c.Args[0]); ok {
			return ret(l)
		}
	case "fmt.Fprintf":
		if p, ok := builder(c.Args[0]); ok {
			if l, ok := m.formatParts(st, c.Args[1], c.Args[2]); ok {
				add(p, l...)
				return done()
			}
		}
	case "fmt.Fprint", "fmt.Fprintln":
		if p, ok := builder(c.Args[0]); ok {
			if l, ok := m.listOf(st, c.Args[1]); ok {
				add(p, l...)
				return done()
			}
		}
	case "io.WriteString":
		if p, ok := builder(c.Args[0]); ok {
			add(p, c.Args[1])
			return done()
		}
	case "strings.Join":
		if l, ok := m.listOf(st, c.Args[0]); ok {
			var out []Val
			for i, x := range l {
				if i > 0 {
					out = append(out, c.Args[1])
				}
				out = append(out, x)
			}
			return ret(out)
		}
	case "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.ToLower", "strings.Repeat", "strings.Clone", "strconv.Quote", "strings.ReplaceAll":
		return ret([]Val{c.Args[0]})
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "strconv.FormatFloat":
		return ret([]Val{c.Args[0]})
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if p, ok := builder(c.Args[0]); ok {
			if _, isC := constOf(st.nv(c.Args[1])); !isC {
				add(p, c.Args[1])
			}
			return done()
		}
	case "bytes.NewBufferString":
		// an object of its own
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return done()
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if p, ok := builder(c.Args[0]); ok {
			return ret(written(p))
		}
	}
	return nil, false
}

// textParts collects the constants and the values of a text.
func (m *tm) textParts(st *State, v Val, lits *strings.Builder, vals map[string]bool) {
	v = st.nv(v)
	if f, ok := v.(VIface); ok {
		v = st.nv(f.V)
	}
	if s, ok := v.(VStr); ok {
		lits.WriteString(s.S + " ")
		return
	}
	if y, ok := v.(VSym); ok {
		if i := m.e.syms[y.S]; i.Op == "text" || i.Op == "strcat" {
			for _, a := range i.Args {
				m.textParts(st, a, lits, vals)
			}
			return
		}
	}
	vals[vkey(v)] = true
}

var wordRE = regexp.MustCompile(`[A-Za-z]{2,}`)

func wordsOf(t string) map[string]bool {
	out := map[string]bool{}
	for _, w := range wordRE.FindAllString(t, -1) {
		out[w] = true
	}
	return out
}

// shown is the text of contents in one outcome.
type shown struct {
	words map[string]bool
	vals  map[string]bool
	sets  map[string]string
}

// show lists the texts of contents with some properties set.
func (r *Run) show(what, typ, ctor, objSet string, which func(string) bool) []shown {
	var out []shown
	r.paths(what, func(m *tm) {
		e := m.e
		old := e.onCall
		e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
			if ex, ok := m.textCall(st, c); ok {
				return ex, true
			}
			if old != nil {
				return old(st, c)
			}
			return nil, false
		}
		sets := map[string]Val{}
		st, x := m.contents(e.start(), typ, ctor, objSet, which, false, sets)
		for _, q := range m.do(st, typ+".ToString", x) {
			var b strings.Builder
			s := shown{vals: map[string]bool{}, sets: map[string]string{}}
			m.textParts(q.st, q.res, &b, s.vals)
			s.words = wordsOf(b.String())
			for n, v := range sets {
				s.sets[n] = vkey(q.st.nv(v))
			}
			out = append(out, s)
		}
	})
	return out
}

type namedProps struct {
	typ, ctor string
	props     []string
	always    bool // every property is named, set or not
}

var rendered = []namedProps{
	{"embertree.ParameterContents", "embertree.NewParameterContents", []string{"SetIdentifier", "SetDescription", "GetValueObject", "GetMinimumObject", "GetMaximumObject", "GetDefaultObject", "SetAccess", "SetFormat", "SetEnumeration", "SetFactor", "SetStep", "SetOnline", "SetType", "SetStreanIdentifier"}, false},
	{"embertree.FunctionContents", "embertree.NewFunctionContents", []string{"SetIdentifier", "SetDescription"}, false},
	{"embertree.MatrixContent", "embertree.NewDefaultMatrixContents", []string{"SetIdentifier", "SetDescription"}, false},
	{"embertree.NodeContents", "embertree.NewNodeContents", []string{"SetIdentifier", "SetDescription"}, true},
}

func (r *Run) textOfContents() {
	r.rule("text: contents are made with no property, one property, all properties but one, and all properties set to unknown values, and their text is kept as a term over constants and values. The text of one property holds a word which the text of none does not hold, on every path; the text of all properties holds it and the text of all but this one does not; the value of a property which is set is in the text")
	for _, k := range rendered {
		pos := r.p.fpos(k.typ + ".ToString")
		none_ := r.show(k.typ+" with nothing", k.typ, k.ctor, "SetInt", none)
		all_ := r.show(k.typ+" with everything", k.typ, k.ctor, "SetInt", all)
		if len(none_) == 0 || len(all_) == 0 {
			r.fail("analysis", k.typ+".ToString", pos, "the text could not be established")
			continue
		}
		for _, p := range k.props {
			p := p
			if r.p.fn(k.typ+"."+p) == nil {
				r.fail("anchor", k.typ+"."+p, "", "the method does not exist")
				continue
			}
			con := k.typ + ".ToString: " + strings.TrimSuffix(p[3:], "Object")
			onlyP := r.show(con+" alone", k.typ, k.ctor, "SetInt", func(n string) bool { return n == p })
			others := r.show(con+" unset", k.typ, k.ctor, "SetInt", func(n string) bool { return n != p })
			if len(onlyP) == 0 || len(others) == 0 {
				r.fail("analysis", con, pos, "the text could not be established")
				continue
			}
			if strings.HasPrefix(p, "Get") {
				for _, set := range []string{"SetString", "SetReal"} {
					for _, s := range r.show(con+" by "+set, k.typ, k.ctor, set, func(n string) bool { return n == p }) {
						v, ok := s.sets[p]
						r.oblige("text-value", con+" by "+set, pos, ok && s.vals[v], "the value is not in the text")
					}
				}
			}
			// values
			bad := ""
			for i, l := range [][]shown{onlyP, all_} {
				for _, s := range l {
					if v, ok := s.sets[p]; ok && !s.vals[v] && !boolSetter(r.p.fn(k.typ+"."+p)) {
						bad = []string{"it alone is set", "everything is set"}[i]
					}
				}
			}
			r.oblige("text-value", con, pos, bad == "", "the value is not in the text when "+bad)
			if k.always {
				continue
			}
			in := func(w string, l []shown, every bool) bool {
				n := 0
				for _, s := range l {
					if s.words[w] {
						n++
					}
				}
				if every {
					return n == len(l)
				}
				return n > 0
			}
			var label []string
			for w := range onlyP[0].words {
				if !in(w, none_, false) && in(w, onlyP, true) {
					label = append(label, w)
				}
			}
			sort.Strings(label)
			if !r.oblige("text-named", con, pos, len(label) > 0, "the property is not named on every path when it alone is set") {
				continue
			}
			full, clean := false, false
			for _, w := range label {
				full = full || in(w, all_, true)
				clean = clean || in(w, all_, true) && !in(w, others, false)
			}
			r.oblige("text-named", con, pos, full, "the property is not named when everything is set")
			r.oblige("text-unset", con, pos, !full || clean, fmt.Sprintf("the property is named (%s) when it is not set and the others are", strings.Join(label, " ")))
		}
	}
}

func boolSetter(f *ssa.Function) bool {
	if f == nil || len(f.Params) < 2 {
		return false
	}
	b, ok := f.Params[1].Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
