package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = check{run: (*Run).c01, expl: "Abstract interpretation of every decoding function of the module on unknown input: the BER reader on an unknown byte sequence, the Ember+ decoders on a reader each of whose operations may fail or yield any value, the S101 decoder on unknown bytes in every state."}
}

// decoders: the exported functions and methods which decode from a BER reader.
func (r *Run) decoders(all bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.funcs {
		if f.Pkg == nil || f.Pkg == r.p.pkg("asn1") || f.Parent() != nil || !takesPtrTo(f, "asn1.ASNReader") {
			continue
		}
		if all || isExported(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return r.p.short(out[i]) < r.p.short(out[j]) })
	return out
}

// readers: the exported functions and methods of the BER reader.
func (r *Run) readers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.methodsOf("asn1.ASNReader") {
		if isExported(f) {
			out = append(out, f)
		}
	}
	if f := r.need("asn1.NewASNReader"); f != nil {
		out = append(out, f)
	}
	for _, n := range []string{"Peek", "Len", "NewReader", "ReadByte", "ReadBoolean", "ReadOID", "ReadLength", "ReadSequenceStart", "ReadSequenceEnd", "CheckSequenceEnd", "ReadInt", "ReadInt64", "ReadString", "ReadBitString", "ReadOctetString", "ReadReal"} {
		r.need("asn1.ASNReader." + n)
	}
	return out
}

var decodeAnchors = []string{"embertree.RootElement.Decode", "embertree.DecodeElement", "embertree.DecodeValue", "embertree.ParameterContents.Decode", "embertree.NodeContents.Decode", "embertree.MatrixContent.Decode", "embertree.FunctionContents.Decode", "embertree.CommandContents.Decode", "embertree.Connection.Decode", "embertree.Label.Decode", "embertree.Invocation.Decode", "embertree.TupleDescription.Decode", "embertree.DecodeSignal", "embertree.Element.DecodeTargets", "embertree.Element.DecodeSources", "embertree.Element.DecodeConnections"}

// anyDecoder analyses a decoder of the module on a reader which may do anything.
func (r *Run) anyDecoder(f *ssa.Function, prep func(e *Engine, m *anyReader), after func(e *Engine, ex []Exit)) bool {
	e := r.engine()
	e.forkIndex = 0
	m := &anyReader{e: e, modular: true}
	e.onCall = m.call
	if prep != nil {
		prep(e, m)
	}
	return r.guard(r.p.short(f), e, func() {
		st := e.start()
		ex := e.call(st, f, e.freshArgs(f))
		if after != nil {
			after(e, ex)
		}
	})
}

func (r *Run) panicHook(e *Engine, entry *ssa.Function, n *int) {
	e.onPanic = func(st *State, in ssa.Instruction, kind, what string) {
		*n++
		if os.Getenv("EMBER_TIME") != "" {
			fmt.Println("PANIC", kind, what, r.p.pos(in), e.stackText())
		}
		r.fail("no-panic", e.exported()+": "+kind+" "+what, r.p.pos(in), fmt.Sprintf("decoding by %s can panic (%s: %s); calls %s", r.p.short(entry), kind, what, e.stackText()))
	}
}

func (r *Run) c01() {
	r.rule("no-panic: no instruction reachable from a decoding function can panic on any abstract state: pointers, maps, functions and interfaces used are not nil, indexes and slice bounds are in range, sizes are not negative, type conversions match")
	r.rule("not-nil: a decoding function which returns no error returns what it decoded, and nothing which is nil")
	r.rule("bounded-recursion: where a decoding function can reach itself again, an integer argument moves towards a constant bound which is tested in between")
	for _, a := range decodeAnchors {
		r.need(a)
	}
	again := map[again1]bool{}
	for _, f := range r.readers() {
		n := 0
		e := r.engine()
		r.panicHook(e, f, &n)
		r.boundRecursion(e, again)
		if r.guard(r.p.short(f), e, func() { r.notNil(e, f, e.call(e.start(), f, e.freshArgs(f))) }) && n == 0 {
			r.oblige("no-panic", r.p.short(f), r.at(f), true, "")
		}
	}
	r.assumes("CalculateCRC computes the CRC which C18 checks, so no frame of fewer than two bytes validates; bufLen is not above the length of the buffer; handlers do not panic")
	for _, n := range []string{"socket.S101Decoder.DecodeBuffer", "socket.S101Decoder.HandleFrame", "socket.S101Decoder.HandleEmberFrame", "socket.ValidateFrame", "socket.CalculateCRC", "socket.EmberFrameHeader.Read"} {
		f := r.need(n)
		if f == nil {
			continue
		}
		k := 0
		r.anyFrames(f, func(e *Engine, s *s101) {
			r.panicHook(e, f, &k)
			r.boundRecursion(e, again)
		}, nil)
		if k == 0 {
			r.oblige("no-panic", r.p.short(f), r.at(f), true, "")
		}
	}
	g := map[*ssa.Function]map[*ssa.Function]bool{}
	all := r.decoders(false)
	for _, f := range all {
		n := 0
		g[f] = map[*ssa.Function]bool{}
		if r.anyDecoder(f, func(e *Engine, m *anyReader) {
			r.panicHook(e, f, &n)
			r.boundRecursion(e, again)
			m.onNested = func(h *ssa.Function) { g[f][h] = true }
		}, func(e *Engine, ex []Exit) { r.notNil(e, f, ex) }) && n == 0 {
			r.oblige("no-panic", r.p.short(f), r.at(f), true, "")
		}
	}
	r.recursive(all, g, again, func(e *Engine, m *anyReader, f *ssa.Function, name string) func() {
		n := 0
		r.panicHook(e, f, &n)
		return func() {
			if n == 0 {
				r.oblige("no-panic", name, r.at(f), true, "")
			}
		}
	})
}

// recursive analyses decoders which reach themselves through others as one, and then what was assumed of
// inner calls: that they behave on any arguments as the outer ones do.
func (r *Run) recursive(all []*ssa.Function, g map[*ssa.Function]map[*ssa.Function]bool, again map[again1]bool, prep func(e *Engine, m *anyReader, f *ssa.Function, name string) func()) {
	for _, f := range all {
		loop := map[*ssa.Function]bool{}
		for _, h := range all {
			if reaches(g, f, h) && reaches(g, h, f) {
				loop[h] = true
			}
		}
		if loop[f] {
			r.anyDecoder(f, func(e *Engine, m *anyReader) {
				m.inline = loop
				r.boundRecursion(e, again)
			}, nil)
		}
	}
	done := map[again1]bool{}
	for more := true; more; {
		more = false
		for _, a := range sortedAgain(again, r.p) {
			if done[a] {
				continue
			}
			done[a], more = true, true
			name := r.p.short(a.f) + " called again"
			if a.nils != "" {
				name += " with nil for argument " + strings.TrimSuffix(a.nils, ",")
			}
			e := r.engine()
			e.forkIndex = 0
			m := &anyReader{e: e, modular: true}
			e.onCall = m.call
			after := prep(e, m, a.f, name)
			r.boundRecursion(e, again)
			if r.guard(name, e, func() {
				args := e.freshArgs(a.f)
				for i := range args {
					if strings.Contains(","+a.nils, fmt.Sprint(",", i, ",")) {
						args[i] = VNil{}
					}
				}
				e.call(e.start(), a.f, args)
			}) {
				after()
			}
		}
	}
}

func sortedAgain(m map[again1]bool, p *Prog) []again1 {
	var out []again1
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool {
		x, y := p.short(out[i].f), p.short(out[j].f)
		return x < y || x == y && out[i].nils < out[j].nils
	})
	return out
}

// again1 is a function which is called while it runs, and the numbers of the arguments which may be nil then.
type again1 struct {
	f    *ssa.Function
	nils string
}

func reaches(g map[*ssa.Function]map[*ssa.Function]bool, a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for h := range g[f] {
			if h == b {
				return true
			}
			if !seen[h] {
				seen[h] = true
				if walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

func (r *Run) notNil(e *Engine, f *ssa.Function, ex []Exit) {
	res := f.Signature.Results()
	for _, x := range ex {
		for i := 0; i < res.Len(); i++ {
			if !mustBeThere(e, res.At(i).Type()) {
				continue
			}
			if err, ok := errOf(e, f.Signature, x.res); ok && x.st.nilness(err) == 2 {
				continue
			}
			r.oblige("not-nil", r.p.short(f), r.at(f), x.st.nilness(resAt(f.Signature, x.res, i)) == 2, "it can return nil without an error")
		}
	}
}

// boundRecursion checks each call of a function which is running already.
// What is called again is put into again, with the arguments which may be nil then.
func (r *Run) boundRecursion(e *Engine, again map[again1]bool) {
	e.recursive = func(st *State, cc *CallCtx) ([]Exit, bool) {
		reads := false
		nils := ""
		for i, a := range cc.Args {
			reads = reads || st.isReader(a)
			if i < len(cc.Fn.Params) && st.nilness(a) != 2 {
				switch cc.Fn.Params[i].Type().Underlying().(type) {
				case *types.Pointer, *types.Map:
					nils += fmt.Sprint(i, ",")
				}
			}
		}
		if cc.Fn.Blocks != nil && cc.Fn.Parent() == nil {
			again[again1{cc.Fn, nils}] = true
		}
		if !reads {
			return nil, false // it follows the tree, which is no deeper than what was decoded
		}
		fr := st.fr
		for fr != nil && fr.fn != cc.Fn {
			fr = fr.up
		}
		ok := false
		for i, a := range cc.Args {
			if fr == nil || i >= len(cc.Fn.Params) {
				break
			}
			n, isI := st.nv(a).(VInt)
			o, isO := st.nv(fr.regs[cc.Fn.Params[i]]).(VInt)
			if !isI || !isO {
				continue
			}
			d := st.norm(n.L.sub(o.L))
			if st.lower(d) >= 1 && st.upper(n.L) <= 1<<16 || st.upper(d) <= -1 && st.lower(n.L) >= -1<<16 && (st.upper(o.L) <= 1<<16 || fr.up == nil || fr.up.fn == nil) {
				ok = true
			}
		}
		r.oblige("bounded-recursion", r.p.short(cc.Fn), r.p.pos(cc.Site), ok, "it calls itself again without a bound on the nesting, which the input decides: a deeply nested message exhausts the stack; calls "+e.stackText())
		return nil, false
	}
}

// isReader: v points to a BER reader or a byte reader, or to a variable which holds one.
func (st *State) isReader(v Val) bool {
	v = st.nv(v)
	var t types.Type
	switch x := v.(type) {
	case VSym:
		t = st.e.syms[x.S].T
	case VPtr:
		if x.P == "" && st.objs[x.O] != nil {
			t = types.NewPointer(st.objs[x.O].T)
		}
	}
	for t != nil {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		t = p.Elem()
		if s := t.String(); s == st.e.modPath()+"/asn1.ASNReader" || s == "bytes.Reader" || s == "bytes.Buffer" {
			return true
		}
	}
	return false
}

// anyFrames analyses a function of the S101 decoder in any state on any bytes.
func (r *Run) anyFrames(f *ssa.Function, prep func(e *Engine, s *s101), after func(e *Engine, ex []Exit)) bool {
	e := r.engine()
	e.peel = 0
	cf := r.need("socket.CalculateCRC")
	if cf != nil && cf != f && crcShort() {
		e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
			if len(e.stack) > 0 && c.Fn != nil && c.Fn != f && isExported(c.Fn) && c.Fn.Signature.Recv() != nil && strings.HasSuffix(c.Fn.Signature.Recv().Type().String(), "socket.S101Decoder") {
				// analysed by itself, in any state of the decoder
				for i, a := range c.Args {
					if isPtr(c.Fn.Params[i].Type()) && !e.checkNil(st, c.Site, a, fmt.Sprintf("argument %d of %s", i, c.Fn.Name())) {
						return nil, true
					}
				}
				st.havocData(c.Args[0])
				return e.results(st, c.Sig, c.Fn.Name(), true), true
			}
			p, ok := VPtr{}, false
			if c.Fn == cf {
				p, ok = st.ptr(c.Args[0])
			}
			if !ok {
				return nil, false
			}
			all, _, left := st.rdLeft(p)
			st.setAttr(p, "#pos", VInt{st.norm(segsLen(all))})
			var out []Exit
			end := func(s *State) {
				out = append(out, Exit{s, VInt{e.newInt(types.Typ[types.Uint16], "crc", 0, 65535)}})
			}
			st.forkLE0(left.addC(-1), func(s *State) {
				end(s)
				s.assumeNE(st.intOf(out[len(out)-1].res).addC(-crcGood))
			}, end)
			return out, true
		}
	}
	return r.guard(r.p.short(f), e, func() {
		s, st := r.newS101(e, e.start())
		if s == nil {
			return
		}
		st.havocData(s.dec)
		if prep != nil {
			prep(e, s)
		}
		args := e.freshArgs(f)
		if strings.HasSuffix(f.Params[0].Type().String(), "socket.S101Decoder") {
			args[0] = s.dec
		}
		// a number goes with a buffer which is no shorter
		for i, p := range f.Params {
			if !isIntT(p.Type()) {
				continue
			}
			for j, q := range f.Params {
				if _, ok := q.Type().Underlying().(*types.Slice); ok {
					n := e.newInt(intT, "buflen", 0, 1<<40)
					more := e.newInt(intT, "spare", 0, 1<<40)
					args[i], args[j] = VInt{n}, st.freshBytes(n.add(more), "buffer")
				}
			}
		}
		ex := e.call(st, f, args)
		if after != nil {
			after(e, ex)
		}
	})
}
