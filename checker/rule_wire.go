package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	checks["C14"] = check{run: (*Run).c14, expl: "The encoders are executed abstractly on objects with symbolic properties; the list of BER tokens each writes is parsed by a grammar of Glow kept in the checker (application tags, context numbers, universal types), and the symbol of each property must be found under the context number which Glow gives this property. The tags which the primitives write, the frames which are built and the exported constants are compared to tables of the specifications."}
}

// A gram is a part of the grammar of Glow.
type gram struct {
	name   string
	kinds  string          // a value: the kinds of token it may be
	tag    int64           // a structure
	fields map[int64]*gram // its items
	of     *gram           // a list of items [0]
	body   *gram           // what is in the structure, if anything
	alts   []*gram
}

var glow = func() map[string]*gram {
	g := map[string]*gram{}
	def := func(n string, x gram) *gram {
		x.name = n
		g[n] = &x
		return g[n]
	}
	in := def("integer", gram{kinds: ",int2,int642,"})
	str := def("string", gram{kinds: ",strc,"})
	bl := def("boolean", gram{kinds: ",bool1,"})
	oid := def("relative object identifier", gram{kinds: ",oidd,"})
	val := def("value", gram{kinds: ",int2,int642,real9,strc,bool1,buf4,null5,"})
	either := def("access or type", gram{kinds: ",int2,int642,strc,"}) // the rule type tells
	set := def("a property without a setter", gram{kinds: val.kinds})
	location := def("parameters location", gram{kinds: ",oidd,int2,int642,"})
	mk := func(n string, tag int64, fields map[int64]*gram) *gram {
		return def(n, gram{tag: tag, fields: fields})
	}
	app := func(n int64) int64 { return 0x60 + n }
	list := func(n string, of *gram) *gram { return def(n, gram{tag: 0x30, of: of}) }
	mk("embertree.ParameterContents", 0x31, map[int64]*gram{0: str, 1: str, 2: val, 3: val, 4: val, 5: either, 6: str, 7: str, 8: in, 9: bl, 10: str, 11: in, 12: val, 13: either, 14: in, 15: set, 16: set, 17: str, 18: oid})
	mk("embertree.NodeContents", 0x31, map[int64]*gram{0: str, 1: str, 2: bl, 3: bl, 4: str, 5: oid})
	label := mk("embertree.Label", app(18), map[int64]*gram{0: oid, 1: str})
	mk("embertree.MatrixContent", 0x31, map[int64]*gram{0: str, 1: str, 2: in, 3: in, 4: in, 5: in, 6: in, 7: in, 8: location, 9: in, 10: list("labels", label), 11: str, 12: oid})
	tuple := mk("embertree.TupleDescription", app(21), map[int64]*gram{0: in, 1: str})
	tuples := list("tuple description", tuple)
	mk("embertree.FunctionContents", 0x31, map[int64]*gram{0: str, 1: str, 2: tuples, 3: tuples, 4: oid})
	target := mk("embertree.Target", app(14), map[int64]*gram{0: in})
	source := mk("embertree.Source", app(15), map[int64]*gram{0: in})
	conn := mk("embertree.Connection", app(16), map[int64]*gram{0: in, 1: oid, 2: in, 3: in})
	inv := mk("embertree.Invocation", app(22), map[int64]*gram{0: in, 1: list("tuple", val)})
	def("embertree.CommandContents", *in)
	any := def("element", gram{})
	kids := def("element collection", gram{tag: app(4), of: any})
	lists := map[int64]*gram{3: list("targets", target), 4: list("sources", source), 5: list("connections", conn)}
	el := func(n string, tag, qtag int64, contents *gram, ctx map[int64]*gram) {
		for i, t := range []int64{tag, qtag} {
			f := map[int64]*gram{0: in, 1: contents, 2: kids}
			if i == 1 {
				f[0] = oid
				n = "qualified " + n
			}
			for k, v := range ctx {
				f[k] = v
			}
			any.alts = append(any.alts, mk(n, app(t), f))
		}
	}
	el("parameter", 1, 9, g["embertree.ParameterContents"], nil)
	el("node", 3, 10, g["embertree.NodeContents"], nil)
	el("matrix", 13, 17, g["embertree.MatrixContent"], lists)
	el("function", 19, 20, g["embertree.FunctionContents"], nil)
	any.alts = append(any.alts, mk("command", app(2), map[int64]*gram{0: in, 1: in, 2: inv}))
	top := def("root element collection", gram{tag: app(11), of: any})
	def("embertree.RootElement", gram{tag: app(0), body: top})
	return g
}()

// parse parses tokens from i on.
func (g *gram) parse(toks []tok, i int) (int, string) {
	if i >= len(toks) {
		return i, "there is no " + g.name
	}
	t := toks[i]
	switch {
	case g.kinds != "":
		if !strings.Contains(g.kinds, ","+t.shape()+",") {
			return i, fmt.Sprintf("a value of type %s with the tag %#x stands for %s", t.kind, t.tag, g.name)
		}
		return i + 1, ""
	case g.alts != nil:
		for _, a := range g.alts {
			if t.kind == "S" && t.tag == a.tag {
				return a.parse(toks, i)
			}
		}
		return i, fmt.Sprintf("%s is no %s", t.shape(), g.name)
	}
	if t.kind != "S" || t.tag != g.tag {
		return i, fmt.Sprintf("%s begins with %s instead of the tag %#x", g.name, t.shape(), g.tag)
	}
	i++
	seen := map[int64]bool{}
	for i < len(toks) && toks[i].kind != "E" {
		why := ""
		if g.body != nil {
			if i, why = g.body.parse(toks, i); why != "" {
				return i, why
			}
			break
		}
		c := toks[i].tag - 0xA0
		if toks[i].kind != "S" || c < 0 || c > 30 {
			return i, fmt.Sprintf("%s instead of an item of %s", toks[i].shape(), g.name)
		}
		of := g.of
		if of != nil && c != 0 {
			return i, fmt.Sprintf("an item of %s has the context %d instead of 0", g.name, c)
		}
		if of == nil {
			of = g.fields[c]
			if of == nil {
				return i, fmt.Sprintf("%s has no field %d", g.name, c)
			}
			if seen[c] {
				return i, fmt.Sprintf("%s has two fields %d", g.name, c)
			}
			seen[c] = true
		}
		if i, why = of.parse(toks, i+1); why != "" {
			if g.of == nil {
				why = fmt.Sprintf("in field %d of %s: %s", c, g.name, why)
			}
			return i, why
		}
		if i >= len(toks) || toks[i].kind != "E" {
			return i, "an item of " + g.name + " does not end after its value"
		}
		i++
	}
	if i >= len(toks) || toks[i].kind != "E" {
		return i, g.name + " does not end where it should"
	}
	return i + 1, ""
}

// fieldNumbers are the numbers of the properties: the symbols are named after what stored them.
var fieldNumbers = map[string]map[string]int64{
	"embertree.ParameterContents": {"Identifier": 0, "Description": 1, "ValueObject": 2, "MinimumObject": 3, "MaximumObject": 4, "Access": 5, "Format": 6, "Enumeration": 7, "Factor": 8, "Online": 9, "Formula": 10, "Step": 11, "DefaultObject": 12, "Type": 13, "StreanIdentifier": 14, "StreamIdentifier": 14},
	"embertree.NodeContents":      {"Identifier": 0, "Description": 1, "IsRoot": 2, "IsOnline": 3, "SchemaIdentifiers": 4, "TemplateReference": 5},
	"embertree.MatrixContent":     {"Identifier": 0, "Description": 1, "Type": 2, "Mode": 3, "TargetCount": 4, "SourceCount": 5, "MaxTotalConnects": 6, "MaxConnectsPerTarget": 7, "ParameterLocation": 8, "GainParameterNumber": 9, "SchemaIdentifier": 11},
	"embertree.FunctionContents":  {"Identifier": 0, "Description": 1, "Arguments0.type": 2, "Arguments0.name": 2, "Result0.type": 3, "Result0.name": 3},
	"embertree.Label":             {"label.path": 0, "label.description": 1},
	"embertree.TupleDescription":  {"tupledescription.type": 0, "tupledescription.name": 1},
	"embertree.Target":            {"target": 0},
	"embertree.Source":            {"source": 0},
	"embertree.Connection":        {"connection.Target": 0, "connection.Sources": 1, "connection.Operation": 2, "connection.Disposition": 3},
	"embertree.Invocation":        {"id": 0, "argument0": 1},
	"embertree.Element":           {"number": 0, "path": 0, "Description": 1, "Target0": 3, "Source0": 4, "Connection0.Target": 5},
}

// context is the number of the item of the outermost structure which contains a value: -1 none.
func (m *tm) context(st *State, toks []tok, v Val) int64 {
	depth, ctx := 0, int64(-1)
	for _, t := range toks {
		switch t.kind {
		case "S":
			depth++
			if depth == 2 {
				ctx = t.tag - 0xA0
			}
		case "E":
			depth--
		default:
			if m.eqv(st, t.v, v, 0) {
				return ctx
			}
		}
	}
	return -1
}

// elementGrammar is what an element made by the i-th constructor is encoded to.
func elementGrammar(i int) *gram {
	n := elementCtors[i].name
	return glow[n]
}

func (r *Run) wire(what, pos string, g *gram, numbers map[string]int64, enc func(m *tm) []Exit, w func(m *tm) VPtr) {
	r.paths(what, func(m *tm) {
		ex := enc(m)
		if len(ex) == 0 {
			r.fail("grammar", what, pos, "it is never encoded without an error")
		}
		for _, x := range ex {
			toks := m.toks(x.st, w(m))
			d := newDoc(toks, func(int) bool { return false })
			{
				n, why := g.parse(toks, 0)
				if why == "" && n < len(toks) {
					why = "something follows the end of " + g.name
				}
				r.oblige("grammar", what, pos, why == "", why+" ("+d.String()+")")
			}
			for _, p := range []string{"Access", "Type"} {
				if k := "embertree.ParameterContents"; what == k+" with "+p {
					for i := range toks {
						if toks[i].kind == "S" && (toks[i].tag == 0xA5 || toks[i].tag == 0xAD) && i+1 < len(toks) {
							r.oblige("type", k+".Set"+p, r.p.fpos(k+".Set"+p), toks[i+1].tag == 2, "what it stores is encoded as "+toks[i+1].kind+" instead of an integer")
						}
					}
				}
			}
			for _, v := range m.syms {
				want, ok := numbers[v.name]
				if !ok {
					continue
				}
				got := m.context(x.st, toks, v.v)
				if got == 2 && strings.HasPrefix(what, "embertree.Element ") {
					continue // it belongs to a child
				}
				r.oblige("field", what, pos, got == want, fmt.Sprintf("%s is encoded under the context number %d instead of %d (%s)", v.name, got, want, d))
			}
		}
	})
}

func (r *Run) wireKind(k kind, g *gram, b build) {
	what := strings.TrimSpace(k.name + " " + b.name)
	var w VPtr
	r.wire(what, r.p.fpos(k.name+".Encode"), g, fieldNumbers[k.name], func(m *tm) []Exit {
		st, x := b.f(m, m.e.start())
		m.e.roots = append(m.e.roots, x)
		w = m.writer(st)
		return k.enc(m, st, x, w)
	}, func(m *tm) VPtr { return w })
}

// tags: what the functions which make tags return.
func (r *Run) tags() {
	for _, o := range []struct {
		f    string
		base int64
	}{{"Application", 0x60}, {"Context", 0xA0}, {"Universal", 0}} {
		name := "asn1." + o.f
		f := r.p.fn(name)
		if f == nil || len(f.Params) != 1 {
			continue
		}
		e := r.engine()
		r.guard(name, e, func() {
			for n := int64(0); n <= 30; n++ {
				for _, x := range e.call(e.start(), f, []Val{intV(n)}) {
					c, ok := constOf(x.st.nv(x.res))
					r.oblige("tag", name, r.at(f), ok && c&255 == o.base+n, fmt.Sprintf("the tag number %d yields %s instead of %#x", n, vkey(x.res), o.base+n))
				}
			}
		})
	}
	for _, o := range []struct {
		f   string
		tag int64 // -1: the one which is given as the argument
		arg int
	}{{"WriteBoolean", 1, 0}, {"WriteInt", 2, 0}, {"WriteInt64", 2, 0}, {"WriteNull", 5, 0}, {"WriteReal", 9, 0}, {"WriteEnum", 10, 0}, {"WriteString", 12, 0}, {"WriteRelativeOID", 13, 0}, {"WriteBuffer", -1, 2}, {"WriteIntTag", -1, 2}, {"WriteInt64Tag", -1, 2}, {"StartSequence", -1, 1}} {
		f := r.need("asn1.ASNWriter." + o.f)
		if f == nil {
			continue
		}
		name := r.p.short(f)
		e := r.engine()
		deepEngine(e)
		r.guard(name, e, func() {
			st, w := r.newWriter(e, e.start())
			args := e.freshArgs(f)
			args[0] = w
			n := 0
			for _, x := range e.call(st, f, args) {
				if errv, has := errOf(e, f.Signature, x.res); has && x.st.nilness(errv) == 2 {
					continue
				}
				n++
				out := r.written(e, x.st, w)
				ok := len(out) > 0 && out[0].Kind == segByte
				want := fmt.Sprintf("the tag %#x", o.tag)
				if o.tag < 0 {
					want = "the tag which it was given"
					ok = ok && isConst(x.st.norm(out[0].B.sub(x.st.intOf(args[o.arg]))), 0)
				} else {
					ok = ok && isConst(x.st.norm(out[0].B), o.tag)
				}
				r.oblige("tag", name, r.at(f), ok, "the first byte which it writes is not "+want)
			}
			r.oblige("tag", name, r.at(f), n > 0, "it never succeeds")
		})
	}
}

// numbers: the values of the exported constants which users give to the library or get from it.
var wireConstants = map[string]map[string]int64{
	"embertree": {
		"COMMAND_SUBSCRIBE": 30, "COMMAND_UNSUBSCRIBE": 31, "COMMAND_GETDIRECTORY": 32, "COMMAND_INVOKE": 33,
		"SparseFieldFlags": -2, "ALLFieldFlags": -1, "DefaultFieldFlags": 0, "IdentifierFieldFlags": 1, "DescriptionFieldFlags": 2, "TreeFieldFlags": 3, "ValueFieldFlags": 4, "ConnectionsFieldFlags": 5,
		"Absolute": 0, "Connect": 1, "Disconnect": 2, "Tally": 0, "Modified": 1, "Pending": 2, "Locked": 3,
		"ParameterTypeNull": 0, "ParameterTypeInteger": 1, "ParameterTypeReal": 2, "ParameterTypeString": 3, "ParameterTypeBoolean": 4, "ParameterTypeTrigger": 5, "ParameterTypeEnum": 6, "ParameterTypeOcets": 7,
		"ParamaterAccessNone": 0, "ParamaterAccessRead": 1, "ParamaterAccessWrite": 2, "ParamaterAccessReadWrite": 3,
		"OneToN": 0, "OneToOne": 1, "NToN": 2, "Linear": 0, "NonLinear": 1,
	},
	"asn1": {
		"EMBER_SEQUENCE": 0x30, "EMBER_SET": 0x31, "EMBER_BOOLEAN": 1, "EMBER_INTEGER": 2, "EMBER_BITSTRING": 3, "EMBER_OCTETSTRING": 4, "EMBER_NULL": 5, "EMBER_OBJECTIDENTIFIER": 6, "EMBER_OBJECTDESCRIPTOR": 7, "EMBER_EXTERNAL": 8, "EMBER_REAL": 9, "EMBER_ENUMERATED": 10, "EMBER_EMBEDDED": 11, "EMBER_STRING": 12, "EMBER_RELATIVE_OID": 13,
	},
	"socket": {
		"S101_BOF": 0xFE, "S101_EOF": 0xFF, "S101_CE": 0xFD, "S101_XOR": 0x20, "S101_INV": 0xF8, "SLOT": 0, "MSG_EMBER": 0x0E, "CMD_EMBER": 0, "CMD_KEEPALIVE_REQ": 1, "CMD_KEEPALIVE_RESP": 2, "VERSION": 1,
		"FLAG_SINGLE_PACKET": 0xC0, "FLAG_FIRST_MULTI_PACKET": 0x80, "FLAG_LAST_MULTI_PACKET": 0x40, "FLAG_EMPTY_PACKET": 0x20, "FLAG_MULTI_PACKET": 0, "DTD_GLOW": 1, "DTD_VERSION_MAJOR": 2, "DTD_VERSION_MINOR": 0x1F,
	},
}

func (r *Run) constants() {
	for pkg, cs := range wireConstants {
		var names []string
		for n := range cs {
			names = append(names, n)
		}
		sort.Strings(names)
		found := 0
		for _, n := range names {
			got, ok := r.p.constOf(pkg, n)
			if !ok {
				continue // what is written and read is checked without it
			}
			found++
			pos := ""
			if sp := r.p.pkg(pkg); sp != nil && sp.Members[n] != nil {
				pos = r.p.posAt(sp.Members[n].Pos())
			}
			r.oblige("constant", pkg+"."+n, pos, got == cs[n], fmt.Sprintf("its value is %d instead of %d", got, cs[n]))
		}
		r.oblige("constant", pkg, "", found > 0, "none of its constants exists")
	}
}

func (r *Run) keepAlives() {
	for cmd, n := range map[byte]string{1: "socket.GetKeepaliveRequest", 2: "socket.GetKeepAliveResponse"} {
		f := r.need(n)
		if f == nil {
			continue
		}
		e := r.engine()
		deepEngine(e)
		want := s101Frame(0, 0x0E, cmd, 1)
		r.guard(n, e, func() {
			ex := e.call(e.start(), f, nil)
			for _, x := range ex {
				p, ok := x.st.ptr(x.res)
				var got []Seg
				if ok {
					got = canon(x.st, x.st.attrSegs(p, "#segs"))
				}
				r.oblige("header", n, r.at(f), ok && sameSegs(x.st, got, want), "the frame is "+segText(x.st, got)+" instead of "+segText(x.st, want))
			}
			r.oblige("header", n, r.at(f), len(ex) > 0, "it never returns")
		})
	}
}

// requests: the messages which ask for a directory.
func (r *Run) directoryRequests() {
	f := r.need("embertree.RootElement.GetDirectoryMsg")
	if f == nil {
		return
	}
	msg := func(what, fn string, depth int, mk func(m *tm, st *State) (*State, Val)) {
		f := r.need(fn)
		if f == nil {
			return
		}
		var w VPtr
		g := glow["embertree.RootElement"]
		r.paths(what, func(m *tm) {
			st, x := mk(m, m.e.start())
			m.e.roots = append(m.e.roots, x)
			for _, q := range m.doF(st, f, x, VNil{}) {
				root := q.res
				if t, ok := root.(VTuple); ok {
					if q.st.nilness(t[1]) == 2 {
						continue
					}
					root = t[0]
				}
				w = m.writer(q.st)
				for _, y := range m.do(q.st, "embertree.RootElement.Encode", root, w) {
					toks := m.toks(y.st, w)
					d := newDoc(toks, func(int) bool { return false })
					n, why := g.parse(toks, 0)
					if why == "" && n < len(toks) {
						why = "something follows the end"
					}
					r.oblige("grammar", what, r.at(f), why == "", why+" ("+d.String()+")")
					// the command
					ok := false
					for i := range toks {
						if toks[i].kind == "S" && toks[i].tag == 0x62 && i+6 < len(toks) {
							c, k1 := constOf(y.st.nv(toks[i+2].v))
							fl, k2 := constOf(y.st.nv(toks[i+5].v))
							ok = toks[i+1].shape() == "Sa0" && toks[i+4].shape() == "Sa1" && k1 && k2 && c == 32 && fl == -1
						}
					}
					r.oblige("request", what, r.at(f), ok, "no command 32 for all fields is encoded ("+d.String()+")")
				}
			}
		})
	}
	msg("the directory request of a tree", "embertree.RootElement.GetDirectoryMsg", 0, made("embertree.NewTree"))
	branch := func(n int, qualified bool) func(m *tm, st *State) (*State, Val) {
		return func(m *tm, st *State) (*State, Val) {
			var parent, el Val
			for i := 0; i < n; i++ {
				if i == 0 && qualified {
					st, el = m.element(st, 5, nil, m.sym(st, m.oidT(), "path"))
				} else {
					st, el = m.element(st, 1, intV(int64(i+1)), nil)
				}
				if parent != nil {
					st, _ = m.one(st, "embertree.Element.AddChild", parent, el)
				}
				m.e.roots = append(m.e.roots, el)
				parent = el
			}
			return st, el
		}
	}
	for n := 1; n <= 3; n++ {
		for _, q := range []bool{false, true} {
			name := fmt.Sprintf("an element at level %d", n)
			if q {
				name += " below a qualified one"
				if n == 1 {
					name = "a qualified element"
				}
			}
			msg("the directory request of "+name, "embertree.Element.GetDirectoryMsg", n, branch(n, q))
			msg("the qualified directory request of "+name, "embertree.Element.GetQualifiedDirectoryMsg", n, branch(n, q))
		}
	}
}

func (r *Run) c14() {
	r.rule("grammar: what an encoder writes is an item of the grammar of Glow: application tags, context numbers, sets, sequences and universal types")
	r.rule("field: the value of a property stands under the context number which Glow gives this property")
	r.rule("type: the access and the type of a parameter are integers")
	r.rule("request: a directory request contains the command 32 with the field mask -1")
	r.rule("tag: the functions for tags and the primitives of the writer yield the tags of BER")
	r.rule("header, flags: frames carry slot, message type, command, version, flags and application bytes as S101 gives them, and are escaped with its bytes")
	r.rule("constant: exported constants have the values of the specifications")
	for _, k := range r.leafKinds() {
		for _, b := range k.builds {
			switch k.name {
			case "embertree.ContentParameter":
				if b.name == "by SetRelativeOID" {
					continue // no value of Glow
				}
				r.wireKind(k, &gram{name: "a value in context 5", tag: 0xA5, body: glow["value"]}, b)
			case "embertree.Invocation":
				if b.name == "with six arguments" {
					continue // object identifiers are no values of Glow
				}
				r.wireKind(k, glow[k.name], b)
			default:
				if strings.Contains(b.name, "SetRelativeOID") {
					continue
				}
				r.wireKind(k, glow[k.name], b)
			}
		}
	}
	ks := r.elementKinds()
	for n, k := range ks {
		for j, b := range k.builds {
			if strings.Contains(b.name, "(command)") && strings.Contains(b.name, "children") {
				continue // a command has none
			}
			if b.name == "with elements of all kinds" {
				b.f = func(m *tm, st *State) (*State, Val) { return m.tree(st, true, 0, 1, 2, 3, 4, 5, 6, 7) }
			}
			g := glow[k.name]
			if n == 0 {
				g = elementGrammar(j / (len(k.builds) / len(elementCtors)))
			}
			r.wireKind(k, g, b)
		}
	}
	r.directoryRequests()
	r.tags()
	r.constants()
	if em := r.need("socket.EncodeMessage"); em != nil {
		r.split(em)
		r.encodeFrames(em, true)
	}
	r.keepAlives()
}
