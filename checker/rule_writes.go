package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = check{run: (*Run).c05, expl: "Abstract interpretation of every encoder of the module on unknown objects and a writer whose writes may fail wherever the real one can: after a failed write or a failed inner encoder the error returned is not nil. Of every function which encodes and passes the result on: nothing is sent after the encoding failed."}
	checks["C07"] = check{run: (*Run).c07, expl: "Abstract interpretation of every encoder of the module on unknown objects: the sequences started and ended are counted on every path. The primitives are checked on bytes: a start is a tag and the mark of an indefinite length, an end is the end marker, everything else is a complete item."}
}

// anyWriter models the BER writer by what its operations do to the nesting, and by whether they can fail.
type anyWriter struct {
	r        *Run
	e        *Engine
	fallible map[string]bool
	fails    bool // follow failures
	entry    *ssa.Function
	bad      func(st *State, cc *CallCtx, msg string)
	outer    func(st *State, cc *CallCtx) // an encoder is called from outside of encoders
}

func (e *Engine) encoder(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil && f.Parent() == nil && f.Pkg != nil && e.isRepoPkg(f.Pkg.Pkg.Path()) && f.Pkg != e.pkg("asn1") && takesPtrTo(f, "asn1.ASNWriter")
}

// encoders: the exported functions and methods which encode to a BER writer.
func (r *Run) encoders() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.funcs {
		if f.Pkg == nil || f.Pkg == r.p.pkg("asn1") || f.Parent() != nil || f.Blocks == nil || !isExported(f) || !takesPtrTo(f, "asn1.ASNWriter") {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return r.p.short(out[i]) < r.p.short(out[j]) })
	return out
}

var encodeAnchors = []string{"embertree.RootElement.Encode", "embertree.Element.Encode", "embertree.Element.EncodeChildren", "embertree.ParameterContents.Encode", "embertree.NodeContents.Encode", "embertree.MatrixContent.Encode", "embertree.FunctionContents.Encode", "embertree.CommandContents.Encode", "embertree.Connection.Encode", "embertree.Label.Encode", "embertree.Invocation.Encode", "embertree.TupleDescription.Encode", "embertree.ContentParameter.Encode", "embertree.Element.EncodeTargets", "embertree.Element.EncodeSources", "embertree.Element.EncodeConnections"}

// writers: the exported methods of the BER writer.
func (r *Run) writerMethods() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.methodsOf("asn1.ASNWriter") {
		if isExported(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// fallibleWrites: the methods of the writer which can return an error. Each of them has to, when what it uses does.
func (r *Run) fallibleWrites() map[string]bool {
	out := map[string]bool{}
	for _, f := range r.writerMethods() {
		if f.Name() == "Read" {
			continue // of all there is, which does not fail
		}
		f := f
		name := r.p.short(f)
		e := r.engine()
		deepEngine(e)
		e.unroll = 2
		e.onReturn = func(st *State, fn *ssa.Function, res Val) {
			if fn == f || fn.Pkg == nil || fn.Pkg != r.p.pkg("asn1") {
				return
			}
			if err, ok := errOf(e, fn.Signature, res); ok && st.nilness(err) == 2 {
				st.g["failed"] = intV(1)
			}
		}
		out[f.Name()] = true
		r.guard(name, e, func() {
			st, w := r.newWriter(e, e.start())
			if st == nil {
				return
			}
			args := e.freshArgs(f)
			args[0] = w
			may := false
			for _, x := range e.call(st, f, args) {
				err, has := errOf(e, f.Signature, x.res)
				may = may || has && x.st.nilness(err) != 1
				r.oblige("writer", name, r.at(f), gint(x.st, "failed") == 0 || has && x.st.nilness(err) == 2, "the error of an inner operation is lost")
			}
			out[f.Name()] = may
		})
	}
	return out
}

func depthKey(st *State, w Val) string { return "depth:" + vkey(st.nv(w)) }

func (m *anyWriter) hook() {
	m.e.onCall = m.call
	m.e.onInvoke = m.invoke
	m.e.forkIndex = 0
}

func (m *anyWriter) inEncoder() bool {
	for _, f := range m.e.stack {
		if m.e.encoder(f) {
			return true
		}
	}
	return false
}

// nested: an encoder which is analysed on its own may fail, or write complete items.
func (m *anyWriter) nested(st *State, cc *CallCtx, recv bool) []Exit {
	e := m.e
	if recv && !e.checkNil(st, cc.Site, cc.Args[0], "receiver of "+cc.Name) {
		return nil
	}
	if m.outer != nil && !m.inEncoder() {
		m.outer(st, cc)
	}
	ex := e.results(st, cc.Sig, cc.Name, true)
	var out []Exit
	for _, x := range ex {
		if err, ok := errOf(e, cc.Sig, x.res); ok && x.st.nilness(err) == 2 {
			if !m.fails {
				continue
			}
			x.st.g["failed"] = intV(1)
		}
		out = append(out, x)
	}
	return out
}

func takesWriter(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if s := sig.Params().At(i).Type().String(); isPtr(sig.Params().At(i).Type()) && len(s) > 14 && s[len(s)-14:] == "asn1.ASNWriter" {
			return true
		}
	}
	return false
}

func (m *anyWriter) invoke(st *State, cc *CallCtx) ([]Exit, bool) {
	if m.e.isLogger(cc) {
		return m.e.results(st, cc.Sig, cc.Name, false), true
	}
	if takesWriter(cc.Sig) {
		return m.nested(st, cc, true), true
	}
	return nil, false
}

func (m *anyWriter) call(st *State, cc *CallCtx) ([]Exit, bool) {
	e := m.e
	name := e.writerMethod(cc)
	if name == "" {
		if len(e.stack) > 0 && cc.Fn != m.entry && isExported2(cc.Fn) && e.encoder(cc.Fn) {
			return m.nested(st, cc, cc.Fn.Signature.Recv() != nil), true
		}
		return nil, false
	}
	if name == "NewASNWriter" {
		return nil, false
	}
	if !e.checkNil(st, cc.Site, cc.Args[0], "receiver of ASNWriter."+name) {
		return nil, true
	}
	k := depthKey(st, cc.Args[0])
	switch name {
	case "StartSequence":
		st.g[k] = intV(gint(st, k) + 1)
		if gint(st, k) > 40 {
			m.bad(st, cc, "sequences are started again and again without being ended")
			return nil, true
		}
	case "EndSequence":
		st.g[k] = intV(gint(st, k) - 1)
		if gint(st, k) < 0 {
			m.bad(st, cc, "a sequence is ended which was not started")
			return nil, true
		}
	case "WriteByte":
		m.bad(st, cc, "a single byte is written, which is not a complete item")
	}
	if m.fails && m.fallible[name] {
		out := e.results(st, cc.Sig, name, true)
		for _, x := range out {
			if err, ok := errOf(e, cc.Sig, x.res); ok && x.st.nilness(err) == 2 {
				x.st.g["failed"] = intV(1)
			}
		}
		return out, true
	}
	var out []Exit
	for _, x := range e.results(st, cc.Sig, name, true) {
		if err, ok := errOf(e, cc.Sig, x.res); ok && x.st.nilness(err) == 2 {
			continue
		}
		out = append(out, x)
	}
	return out, true
}

func isExported2(f *ssa.Function) bool { return f != nil && isExported(f) }

// anyEncoder analyses an encoder of the module on an unknown object.
func (r *Run) anyEncoder(f *ssa.Function, fails bool, fallible map[string]bool, bad func(pos, msg string), after func(e *Engine, x Exit)) bool {
	e := r.engine()
	m := &anyWriter{r: r, e: e, fallible: fallible, fails: fails, entry: f}
	m.bad = func(st *State, cc *CallCtx, msg string) {
		if bad != nil {
			bad(r.p.pos(cc.Site), msg)
		}
	}
	m.hook()
	return r.guard(r.p.short(f), e, func() {
		ex := e.call(e.start(), f, e.freshArgs(f))
		n := 0
		for _, x := range ex {
			if err, has := errOf(e, f.Signature, x.res); has && x.st.nilness(err) == 1 {
				n++
			}
			after(e, x)
		}
		r.count("paths", len(ex))
		r.oblige("succeeds", r.p.short(f), r.at(f), n > 0, "no execution succeeds")
	})
}

func (r *Run) c07() {
	r.rule("nesting: on every successful path of an encoder each sequence started is ended once, and none is ended which it did not start; inner encoders are assumed to do the same and are checked themselves")
	r.rule("primitive: starting a sequence writes its tag and the mark of an indefinite length, ending it the end marker, and every other operation writes one complete item")
	for _, a := range encodeAnchors {
		r.need(a)
	}
	r.startEnd()
	for _, f := range r.encoders() {
		f := f
		name := r.p.short(f)
		clean := true
		r.anyEncoder(f, false, nil, func(pos, msg string) {
			clean = false
			r.fail("nesting", name, pos, msg)
		}, func(e *Engine, x Exit) {
			err, has := errOf(e, f.Signature, x.res)
			if has && x.st.nilness(err) == 2 {
				return
			}
			for _, k := range gkeys(x.st, "depth:") {
				d := gint(x.st, k)
				r.oblige("nesting", name, r.at(f), d == 0 && clean, fmt.Sprintf("a path ends with %d sequences which are not ended", d))
			}
			if len(gkeys(x.st, "depth:")) == 0 && clean {
				r.oblige("nesting", name, r.at(f), true, "")
			}
		})
	}
}

// startEnd: the primitives, on bytes.
func (r *Run) startEnd() {
	prim := map[*ssa.Function]bool{}
	for _, f := range r.primitives() {
		prim[f] = true
	}
	for _, f := range r.writerMethods() {
		name := r.p.short(f)
		switch f.Name() {
		case "Read", "Len", "WriteByte":
			continue
		case "StartSequence", "EndSequence":
		default:
			if !prim[f] {
				r.fail("primitive", name, r.at(f), "an operation of the writer about which nothing is known")
			}
		}
		f := f
		e := r.engine()
		deepEngine(e)
		r.guard(name+" (bytes)", e, func() {
			st, w := r.newWriter(e, e.start())
			if st == nil {
				return
			}
			args := e.freshArgs(f)
			args[0] = w
			for _, x := range e.call(st, f, args) {
				if err, has := errOf(e, f.Signature, x.res); has && x.st.nilness(err) == 2 {
					continue
				}
				out := r.written(e, x.st, w)
				b := func(i int) (Lin, bool) {
					if i >= len(out) || out[i].Kind != segByte {
						return Lin{}, false
					}
					return x.st.norm(out[i].B), true
				}
				is := func(i int, c int64) bool { l, ok := b(i); return ok && l.isC() && l.C == c }
				switch f.Name() {
				case "StartSequence":
					l, ok := b(0)
					if ok {
						d := x.st.norm(l.sub(x.st.intOf(args[1])))
						ok = d.isC() && d.C == 0
					}
					r.oblige("primitive", name, r.at(f), ok && len(out) == 2 && is(1, 0x80), "what is written is not the tag given and the mark of an indefinite length")
				case "EndSequence":
					r.oblige("primitive", name, r.at(f), len(out) == 2 && is(0, 0) && is(1, 0), "what is written is not the end marker")
				default:
					if len(out) == 0 || out[0].Kind != segByte {
						r.fail("primitive", name, r.at(f), "what is written does not start with a tag")
						continue
					}
					val, n, why := e.header(x.st, out[1:])
					if val == nil {
						r.fail("primitive", name, r.at(f), why)
						continue
					}
					ok, why := val(segsLen(out[1+n:]))
					r.oblige("primitive", name, r.at(f), ok, why)
				}
			}
		})
	}
}

func (r *Run) c05() {
	r.rule("writer: an operation of the BER writer which meets an error of an inner one returns an error")
	r.rule("reported: when a write or an inner encoder fails, the encoder which called it returns an error")
	r.rule("value: the encoding of a value which is set writes it, or fails")
	r.rule("not-sent: what encodes a message and passes it on sends nothing when the encoding failed, and reports it to its caller if it returns errors")
	for _, a := range encodeAnchors {
		r.need(a)
	}
	fallible := r.fallibleWrites()
	for _, ok := range fallible {
		if ok {
			r.count("operations_which_can_fail", 1)
		}
	}
	for _, f := range r.encoders() {
		f := f
		name := r.p.short(f)
		r.anyEncoder(f, true, fallible, nil, func(e *Engine, x Exit) {
			err, has := errOf(e, f.Signature, x.res)
			r.oblige("reported", name, r.at(f), gint(x.st, "failed") == 0 || has && x.st.nilness(err) == 2, "an execution in which a write or an inner encoder failed may return no error")
		})
	}
	r.valueWritten()
	r.notSent(fallible)
}

// valueWritten: a value which is set is written.
func (r *Run) valueWritten() {
	f := r.need("embertree.ContentParameter.Encode")
	if f == nil {
		return
	}
	name := r.p.short(f)
	set := r.need("embertree.ContentParameter.IsSet")
	if set == nil {
		return
	}
	e := r.engine()
	m := &anyWriter{r: r, e: e, entry: f}
	m.bad = func(st *State, cc *CallCtx, msg string) {}
	m.hook()
	e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
		if n := e.writerMethod(cc); n != "" && n != "StartSequence" && n != "EndSequence" {
			st.g["values"] = intV(gint(st, "values") + 1)
		}
		return m.call(st, cc)
	}
	r.guard(name+" of a set value", e, func() {
		args := e.freshArgs(f)
		e.roots = append(e.roots, args...)
		for _, s := range e.call(e.start(), set, args[:1]) {
			if !s.st.assume(s.res, true) {
				continue
			}
			n := 0
			for _, x := range e.call(s.st, f, args) {
				if err, _ := errOf(e, f.Signature, x.res); x.st.nilness(err) == 2 {
					continue
				}
				n++
				r.oblige("value", name, r.at(f), gint(x.st, "values") == 1, fmt.Sprintf("a value which is set leads to %d values written, without an error", gint(x.st, "values")))
			}
			r.oblige("value", name, r.at(f), n > 0, "it never succeeds")
		}
	})
}

// reaching: the functions from which a call of a kind can be reached by calls whose target is known.
func (r *Run) reaching(hit func(c *ssa.CallCommon) bool, not func(f *ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for more := true; more; {
		more = false
		for _, f := range r.p.funcs {
			if out[f] || f.Blocks == nil || not != nil && not(f) {
				continue
			}
			found := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch c := in.(type) {
					case ssa.CallInstruction:
						g := c.Common().StaticCallee()
						found = found || hit(c.Common()) || g != nil && out[g]
					case *ssa.MakeClosure:
						g, _ := c.Fn.(*ssa.Function)
						found = found || out[g]
					}
				}
			}
			if found {
				out[f], more = true, true
			}
		}
	}
	return out
}

func isConnWrite(recv types.Type, m *types.Func) bool {
	return recv != nil && recv.String() == "net.Conn" && m != nil && m.Name() == "Write"
}

// notSent: functions which encode without being encoders.
func (r *Run) notSent(fallible map[string]bool) {
	e0 := r.engine()
	enc := r.reaching(func(c *ssa.CallCommon) bool {
		if c.IsInvoke() {
			return takesWriter(c.Signature())
		}
		g := c.StaticCallee()
		return g != nil && e0.encoder(g)
	}, func(f *ssa.Function) bool { return e0.encoder(f) || f.Pkg == nil || f.Pkg == r.p.pkg("asn1") })
	sends := r.reaching(func(c *ssa.CallCommon) bool { return c.IsInvoke() && isConnWrite(c.Value.Type(), c.Method) }, nil)
	above := r.reaching(func(c *ssa.CallCommon) bool {
		g := c.StaticCallee()
		return g != nil && enc[g] && sends[g]
	}, nil)
	var fs []*ssa.Function
	for f := range enc {
		if f.Parent() == nil && !above[f] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return r.p.short(fs[i]) < r.p.short(fs[j]) })
	r.oblige("not-sent", "callers of encoders", "", len(fs) > 0, "nothing encodes messages")
	for _, f := range fs {
		f := f
		name := r.p.short(f)
		e := r.engine()
		m := &anyWriter{r: r, e: e, fails: true, fallible: fallible, entry: f}
		m.bad = func(st *State, cc *CallCtx, msg string) {}
		m.outer = func(st *State, cc *CallCtx) { st.g["failed"] = intV(0) }
		m.hook()
		e.onInvoke = func(st *State, cc *CallCtx) ([]Exit, bool) {
			if ex, ok := m.invoke(st, cc); ok {
				return ex, true
			}
			if isConnWrite(cc.Recv, cc.Method) {
				r.oblige("not-sent", name, r.p.pos(cc.Site), gint(st, "failed") == 0, "a message is sent after its encoding failed")
				st.g["sent"] = intV(1)
			}
			return nil, false
		}
		e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
			if ex, ok := m.call(st, cc); ok {
				return ex, true
			}
			if g := cc.Fn; g != nil && g != f && g.Blocks != nil && g.Pkg != nil && e.isRepoPkg(g.Pkg.Pkg.Path()) && g.Pkg != e.pkg("errors") && !enc[g] && !sends[g] && !e.encoder(g) {
				for _, a := range cc.Args {
					st.havoc(a)
				}
				return e.results(st, cc.Sig, cc.Name, true), true
			}
			return nil, false
		}
		if !r.guard(name, e, func() {
			for _, x := range e.call(e.start(), f, e.freshArgs(f)) {
				err, has := errOf(e, f.Signature, x.res)
				r.oblige("not-sent", name, r.at(f), !has || gint(x.st, "failed") == 0 || x.st.nilness(err) == 2, "the failure of an encoding is not reported")
			}
		}) {
			continue
		}
	}
}
