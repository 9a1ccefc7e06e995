package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = check{run: (*Run).c04, expl: "Abstract interpretation with a record of failures: of the BER reader on unknown bytes, where a failed read of bytes has to lead to an error; of every decoder on a reader each of whose operations may fail, where a failure of the reader, of an inner decoder or of a step which applies what was decoded has to lead to an error; of the S101 decoder on unknown bytes, where a frame which is refused has to reach the error handler; of the client, whose packet handler has to report what the tree reports."}
}

func (r *Run) c04() {
	r.rule("bytes: an operation of the BER reader which meets a failed read of bytes returns an error")
	r.rule("short-read: it does so too when fewer bytes were read than asked for")
	r.rule("length: a boolean or number of a length which it cannot have, and a text or buffer which is longer than what is left, is refused; so is a relative OID which ends in the middle of a number")
	r.rule("reported: a decoder returns an error when a read, an inner decoder, or a step which applies what was decoded fails")
	r.rule("malformed: an encoding which stands for nothing - another tag, a text or a sequence without its end, a real number without its exponent - is refused")
	r.rule("unexpected: an object with another tag or type in one place is refused, or what is read is what was there")
	r.rule("unapplied: an element which has no place in the tree is reported")
	r.rule("frame: a frame which is refused, and the error of a handler, reaches the error handler")
	r.rule("client: the packet handler of the client returns the error of the tree, and accepts no message without giving it to the tree")
	r.bytesFail()
	r.badLengths()
	for _, a := range decodeAnchors {
		r.need(a)
	}
	for _, f := range r.decoders(false) {
		r.decoderFails(f)
	}
	r.malformed()
	for _, ks := range [][]kind{r.leafKinds(), r.elementKinds()} {
		for _, k := range ks {
			for i, b := range k.builds {
				if strings.HasPrefix(b.name, "with elements of") || i > 0 && strings.HasPrefix(b.name, "with all properties") {
					continue // every kind is looked at by itself
				}
				r.aliens(k, b)
			}
		}
	}
	r.unapplied()
	r.framesFail()
	r.foreignFrames()
	r.clientFails()
}

// malformed: encodings which stand for nothing.
func (r *Run) malformed() {
	run := func(name, what string, in func(e *Engine) []Lin, args func(e *Engine, st *State) []Val) {
		f := r.need("asn1.ASNReader." + name)
		if f == nil {
			return
		}
		what = r.p.short(f) + " of " + what
		e := r.engine()
		deepEngine(e)
		r.guard(what, e, func() {
			st, rd := r.bytesReader(e, in(e))
			if st == nil {
				return
			}
			al := []Val{rd}
			if args != nil {
				al = append(al, args(e, st)...)
			}
			for _, x := range e.call(st, f, al) {
				err, has := errOf(e, f.Signature, x.res)
				r.oblige("malformed", what, r.at(f), has && x.st.nilness(err) == 2, "it is accepted")
			}
		})
	}
	consts := func(l ...int64) func(e *Engine) []Lin {
		return func(e *Engine) []Lin {
			var out []Lin
			for _, b := range l {
				out = append(out, lc(b))
			}
			return out
		}
	}
	tags := map[string]int64{}
	for _, o := range []struct{ f, tag string }{{"ReadBoolean", "EMBER_BOOLEAN"}, {"ReadInt", "EMBER_INTEGER"}, {"ReadInt64", "EMBER_INTEGER"}, {"ReadString", "EMBER_STRING"}, {"ReadBitString", "EMBER_BITSTRING"}, {"ReadOctetString", "EMBER_OCTETSTRING"}, {"ReadReal", "EMBER_REAL"}, {"ReadOID", "EMBER_RELATIVE_OID"}, {"ReadSequenceStart", ""}} {
		tag, ok := int64(0x61), true
		if o.tag != "" {
			tag, ok = r.p.constOf("asn1", o.tag)
		}
		if !ok {
			r.fail("anchor", "asn1."+o.tag, "", "it does not exist")
			continue
		}
		tags[o.f] = tag
		args := func(e *Engine, st *State) []Val {
			if o.f == "ReadOID" || o.f == "ReadSequenceStart" {
				return []Val{intV(tag)}
			}
			return nil
		}
		for _, body := range [][]int64{{1, 0, 0, 0, 0}, {0x80, 0, 0}, {}} {
			for _, rng := range [][2]int64{{0, tag - 1}, {tag + 1, 255}} {
				run(o.f, fmt.Sprintf("something else (tag %#x to %#x) of length %x", rng[0], rng[1], body), func(e *Engine) []Lin {
					return append([]Lin{e.newInt(byteT, "tag", rng[0], rng[1])}, consts(body...)(e)...)
				}, args)
			}
		}
		run(o.f, "nothing", consts(), args)
	}
	if t, ok := tags["ReadReal"]; ok {
		for _, rng := range [][2]int64{{0, 0x3f}, {0x44, 0xff}} {
			run("ReadReal", fmt.Sprintf("nothing but the preamble %#x to %#x", rng[0], rng[1]), func(e *Engine) []Lin {
				return []Lin{lc(t), lc(1), e.newInt(byteT, "preamble", rng[0], rng[1])}
			}, nil)
		}
		for _, pre := range []int64{0x81, 0x82, 0xc1, 0xc2, 0x8d} {
			for n := int64(1); n <= pre&3; n++ {
				n := n
				run("ReadReal", fmt.Sprintf("the preamble %#x and %d bytes of exponent", pre, n), func(e *Engine) []Lin {
					return append([]Lin{lc(t), lc(1 + n), lc(pre)}, r.byteSyms(e, int(n), 0)...)
				}, nil)
			}
		}
	}
	for _, f := range []string{"ReadString", "ReadBitString", "ReadOctetString"} {
		if t, ok := tags[f]; ok {
			for n := 0; n < 3; n++ {
				n := n
				run(f, fmt.Sprintf("indefinite length with %d bytes and no end", n), func(e *Engine) []Lin {
					in := []Lin{lc(t), lc(0x80)}
					for i := 0; i < n; i++ {
						in = append(in, e.newInt(byteT, "b", 1, 255))
					}
					return in
				}, nil)
			}
		}
	}
	some := func(n int) func(e *Engine) []Lin {
		return func(e *Engine) []Lin {
			in := []Lin{}
			for i := 0; i < n; i++ {
				in = append(in, e.newInt(byteT, "b", 1, 255))
			}
			return in
		}
	}
	run("ReadSequenceEnd", "a byte which is not zero", some(1), nil)
	run("ReadSequenceEnd", "bytes which are not zero", some(3), nil)
	run("ReadSequenceEnd", "half an end", consts(0), nil)
	run("ReadSequenceEnd", "half an end and something else", func(e *Engine) []Lin { return append([]Lin{lc(0)}, some(2)(e)...) }, nil)
	run("Peek", "nothing", consts(), nil)
	r.unterminated()
	run("ReadLength", "nothing", consts(), nil)
	for n := int64(1); n <= 4; n++ {
		n := n
		run("ReadLength", fmt.Sprintf("%d of %d bytes", n-1, n), func(e *Engine) []Lin { return append([]Lin{lc(0x80 + n)}, r.byteSyms(e, int(n-1), 0)...) }, nil)
	}
	run("ReadLength", "more than eight bytes", func(e *Engine) []Lin {
		return append([]Lin{e.newInt(byteT, "count", 0x89, 0xff)}, r.byteSyms(e, 16, 0)...)
	}, nil)
}

// unterminated: a sequence of indefinite length of which the end is missing.
func (r *Run) unterminated() {
	start, end := r.need("asn1.ASNReader.ReadSequenceStart"), r.need("asn1.ASNReader.ReadSequenceEnd")
	if start == nil || end == nil {
		return
	}
	what := "asn1.ASNReader.ReadSequenceEnd at the missing end of a sequence of indefinite length"
	e := r.engine()
	deepEngine(e)
	r.guard(what, e, func() {
		st, rd := r.bytesReader(e, []Lin{lc(0x61), lc(0x80)})
		if st == nil {
			return
		}
		for _, x := range e.call(st, start, []Val{rd, intV(0x61)}) {
			if x.st.nilness(resAt(start.Signature, x.res, 2)) != 1 {
				continue
			}
			for _, y := range e.call(x.st, end, []Val{resAt(start.Signature, x.res, 1)}) {
				r.oblige("malformed", what, r.at(end), y.st.nilness(y.res) == 2, "it is accepted")
			}
		}
	})
}

// aliens: an item in which one tag or type is another. It is refused, or what is read is what was there.
func (r *Run) aliens(k kind, b build) {
	what := strings.TrimSpace(k.name + " " + b.name)
	pos := r.p.fpos(k.name + ".Encode")
	r.paths(what, func(m *tm) {
		st, x := b.f(m, m.e.start())
		m.e.roots = append(m.e.roots, x)
		w := m.writer(st)
		for _, q := range k.enc(m, st, x, w) {
			toks := m.toks(q.st, w)
			node := k.name == "embertree.NodeContents"
			set := 0 // the end of contents
			for i, t := range toks {
				if t.kind == "S" && t.tag == 0x31 && i >= set {
					set = itemEnd(toks, i)
				} else if i < set && strings.HasSuffix(k.name, "Element") {
					continue // looked at by themselves
				}
				as := alien(t)
				if t.kind == "S" && (t.tag != 0x31 || !strings.HasSuffix(k.name, "Element")) {
					as = append(as, tok{kind: "+"})
				}
				for _, a := range as {
					in := append([]tok(nil), toks...)
					in[i] = a
					if a.kind == "+" { // an unknown part which is empty
						if node && t.tag == 0x31 {
							continue
						}
						j := itemEnd(toks, i) - 1
						in = append(append(append([]tok(nil), toks[:j]...), tok{kind: "S", tag: 0xbd}, tok{kind: "E"}), toks[j:]...)
					}
					s := q.st.clone()
					rd := m.reader(s, withForm(in, i%2))
					for _, y := range k.dec(m, s, rd) {
						got, err := m.outcome(y)
						if y.st.nilness(err) == 2 {
							r.oblige("unexpected", what, pos, true, "")
							continue
						}
						why := "which is not an error"
						if gp, ok := got.(VPtr); ok && y.st.nilness(err) == 1 {
							m.e.roots = append(m.e.roots, gp)
							w2 := m.writer(y.st)
							for _, z := range k.enc(m, y.st, gp, w2) {
								want := in
								if node && a.kind == "S" && path(toks, i) == " in 31" {
									want = append(append([]tok(nil), in[:i]...), in[itemEnd(in, i):]...) // skipped
								}
								why = m.sameToks(z.st, want, m.toks(z.st, w2))
							}
						}
						r.oblige("unexpected", what, pos, why == "", fmt.Sprintf("%s in place of %s%s is accepted and ignored: %s", a.shape(), t.shape(), path(toks, i), why))
					}
				}
			}
		}
	})
}

// alien: what may stand in place of a token.
func alien(t tok) []tok {
	switch t.kind {
	case "S":
		a, b := t, t
		a.tag = t.tag&0xe0 | 0x1d
		b.tag = 0x3d
		return []tok{a, b}
	case "E":
		return nil
	case "bool":
		return []tok{{kind: "str", tag: 12, v: VStr{"text"}}}
	}
	return []tok{{kind: "bool", tag: 1, v: boolV(true)}, {kind: t.kind, tag: 0x1d, v: t.v}}
}

// unapplied: elements which have no place in the tree.
func (r *Run) unapplied() {
	dec := r.need("embertree.RootElement.Decode")
	if dec == nil {
		return
	}
	pos := r.at(dec)
	send := func(what string, have []int, path []int64, i int) {
		r.paths(what, func(m *tm) {
			st, tree := m.tree(m.e.start(), false, have...)
			m.e.roots = append(m.e.roots, tree)
			var vs []Val
			for _, n := range path {
				vs = append(vs, intV(n))
			}
			st, root := m.one(st, "embertree.NewTree")
			st, el := m.element(st, i, vs[0], m.list(st, types.Typ[types.Int32], vs...))
			st = m.withContents(st, i, el, func(s string) bool { return s == "SetIdentifier" }, false)
			st = m.choose("AddElement", m.do(st, "embertree.RootElement.AddElement", root, el)).st
			w := m.writer(st)
			for _, q := range m.do(st, "embertree.RootElement.Encode", root, w) {
				rd := m.reader(q.st, withForm(m.toks(q.st, w), 0))
				n := 0
				for _, x := range m.e.callFn(q.st, &CallCtx{Fn: dec, Name: dec.String(), Args: []Val{tree, rd}, Sig: dec.Signature}) {
					n++
					r.oblige("unapplied", what, pos, x.st.nilness(x.res) == 2, "an element which has no place in the tree is reported as processed")
				}
				r.oblige("unapplied", what, pos, n > 0, "it is never decoded")
			}
		})
	}
	for i, c := range elementCtors {
		if strings.HasPrefix(c.name, "qualified") {
			send("a "+c.name+" whose parent is not in the empty tree", nil, []int64{10, 1}, i)
			send("a "+c.name+" whose parent is not in the tree", []int{1, 1}, []int64{10, 1, 1}, i)
			send("a "+c.name+" in place of something else", []int{(i + 2) % 4}, []int64{10}, i)
		} else if c.name != "command" {
			send("a "+c.name+" in place of something else", []int{(i + 2) % 4}, []int64{10}, i)
		}
	}
}

// bytesFail: failures of the byte reader below the BER reader.
func (r *Run) bytesFail() {
	for _, f := range r.readers() {
		f := f
		name := r.p.short(f)
		e := r.engine()
		mod := func(g *ssa.Function) bool {
			return g != nil && g.Pkg != nil && e.isRepoPkg(g.Pkg.Pkg.Path())
		}
		e.onAfter = func(st *State, cc *CallCtx, res Val) {
			if mod(cc.Fn) || cc.Sig == nil || !strings.HasPrefix(cc.Name, "(*bytes.") && !strings.HasPrefix(cc.Name, "io.") && !strings.HasPrefix(cc.Name, "encoding/binary.") {
				return
			}
			depth := intV(int64(len(e.stack))) // the function which has to report it
			if err, ok := errOf(e, cc.Sig, res); ok && st.nilness(err) == 2 {
				st.g["failed"] = depth
				return
			}
			if strings.HasSuffix(cc.Name, ").Read") && len(cc.Args) == 2 {
				if d := st.norm(st.intOf(resAt(cc.Sig, res, 0)).sub(st.lenOf(cc.Args[1]))); !(d.isC() && d.C == 0) && st.lower(d) < 0 {
					st.g["short"], st.g["missing"] = depth, VInt{d}
				}
			}
		}
		// what is lost is reported where it is lost first
		e.onReturn = func(st *State, fn *ssa.Function, res Val) {
			if fn.Pkg == r.p.pkg("errors") {
				return
			}
			err, has := errOf(e, fn.Signature, res)
			lost := !has || st.nilness(err) != 2
			for k, rule := range map[string]string{"failed": "bytes", "short": "short-read"} {
				n := r.p.short(fn)
				due := gint(st, k) > int64(len(e.stack))
				if d, ok := st.g["missing"].(VInt); ok && due && k == "short" && st.lower(st.norm(d.L)) >= 0 {
					due = false // it was found out since that none are missing
					delete(st.g, k)
				}
				if isExported(fn) && fn.Parent() == nil && fn.Pkg == r.p.pkg("asn1") {
					r.oblige(rule, n, r.at(fn), !due || !lost, map[string]string{"failed": "the error of a failed read of bytes is lost", "short": "fewer bytes than asked for may be read without an error"}[k])
					if due && lost {
						delete(st.g, k)
						continue
					}
				}
				if due {
					st.g[k] = intV(int64(len(e.stack)))
				}
			}
		}
		r.guard(name, e, func() {
			r.count("paths", len(e.call(e.start(), f, e.freshArgs(f))))
		})
	}
}

// badLengths: values of lengths which they cannot have.
func (r *Run) badLengths() {
	type one struct {
		f, tag string
		good   func(n int64) bool
	}
	for _, o := range []one{
		{"ReadBoolean", "EMBER_BOOLEAN", func(n int64) bool { return n == 1 }},
		{"ReadInt", "EMBER_INTEGER", func(n int64) bool { return n >= 1 && n <= 4 }},
		{"ReadInt64", "EMBER_INTEGER", func(n int64) bool { return n >= 1 && n <= 8 }},
	} {
		f := r.need("asn1.ASNReader." + o.f)
		tag, ok := r.p.constOf("asn1", o.tag)
		if f == nil || !ok {
			continue
		}
		for n := int64(-1); n < 14; n++ {
			e := r.engine()
			deepEngine(e)
			what := fmt.Sprintf("%s of length %d", r.p.short(f), n)
			l := n
			if n < 0 {
				l, what = 0x80, r.p.short(f)+" of indefinite length"
			}
			r.guard(what, e, func() {
				in := append([]Lin{lc(tag), lc(l)}, r.byteSyms(e, 16, 0)...)
				st, rd := r.bytesReader(e, in)
				if st == nil {
					return
				}
				for _, x := range e.call(st, f, []Val{rd}) {
					nl := x.st.nilness(resAt(f.Signature, x.res, 1))
					if o.good(n) {
						r.oblige("length", what, r.at(f), nl == 1, "a value of this length is refused")
					} else {
						r.oblige("length", what, r.at(f), nl == 2, "a value of this length is accepted")
					}
				}
			})
		}
	}
	for _, o := range []one{{f: "ReadString", tag: "EMBER_STRING"}, {f: "ReadBitString", tag: "EMBER_BITSTRING"}, {f: "ReadOctetString", tag: "EMBER_OCTETSTRING"}, {f: "ReadOID", tag: "EMBER_RELATIVE_OID"}, {f: "ReadReal", tag: "EMBER_REAL"}} {
		f := r.need("asn1.ASNReader." + o.f)
		tag, ok := r.p.constOf("asn1", o.tag)
		if f == nil || !ok {
			continue
		}
		args := func(rd Val) []Val {
			if o.f == "ReadOID" {
				return []Val{rd, intV(tag)}
			}
			return []Val{rd}
		}
		for _, head := range [][]int64{{5}, {0x7f}, {0x81, 0xff}, {0x82, 1, 0}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x85, 0, 0, 0, 0, 1}} {
			e := r.engine()
			deepEngine(e)
			what := fmt.Sprintf("%s of length %x with four bytes left", r.p.short(f), head)
			r.guard(what, e, func() {
				in := []Lin{lc(tag)}
				for _, h := range head {
					in = append(in, lc(h))
				}
				st, rd := r.bytesReader(e, append(in, r.byteSyms(e, 4, 0)...))
				if st == nil {
					return
				}
				for _, x := range e.call(st, f, args(rd)) {
					r.oblige("length", what, r.at(f), x.st.nilness(resAt(f.Signature, x.res, 1)) == 2, "it is accepted")
				}
			})
		}
		if o.f != "ReadOID" {
			continue
		}
		for n := int64(1); n <= 4; n++ {
			e := r.engine()
			deepEngine(e)
			what := fmt.Sprintf("%s of %d bytes ending in the middle of a number", r.p.short(f), n)
			r.guard(what, e, func() {
				in := append([]Lin{lc(tag), lc(n)}, r.byteSyms(e, int(n-1), 0)...)
				last := e.newInt(byteT, "last", 128, 255)
				st, rd := r.bytesReader(e, append(append(in, last), r.byteSyms(e, 2, 0)...))
				if st == nil {
					return
				}
				for _, x := range e.call(st, f, args(rd)) {
					r.oblige("length", what, r.at(f), x.st.nilness(resAt(f.Signature, x.res, 1)) == 2, "it is accepted")
				}
			})
		}
	}
}

// decoderFails: a decoder on a reader each of whose operations may fail.
func (r *Run) decoderFails(f *ssa.Function) {
	name := r.p.short(f)
	r.anyDecoder(f, func(e *Engine, m *anyReader) {
		// after a failure, which of the error variables holds it
		e.stateKey = func(st *State) string {
			if gint(st, "failed") == 0 {
				return ""
			}
			var ks []string
			for fr := st.fr; fr != nil; fr = fr.up {
				for v, x := range fr.regs {
					if _, ok := v.(*ssa.Phi); ok && e.isErrT(v.Type()) {
						ks = append(ks, fmt.Sprint(v.Name(), st.nilness(x)))
					}
				}
			}
			sort.Strings(ks)
			return strings.Join(ks, " ")
		}
		m.failed = func(st *State, cc *CallCtx, n string) { st.g["failed"] = intV(1) }
		e.onReturn = func(st *State, fn *ssa.Function, res Val) {
			if len(e.stack) == 0 || fn == f || fn.Pkg == nil || !e.isRepoPkg(fn.Pkg.Pkg.Path()) || fn.Pkg == e.pkg("errors") {
				return
			}
			if err, ok := errOf(e, fn.Signature, res); ok && st.nilness(err) == 2 {
				st.g["failed"] = intV(1)
			}
		}
	}, func(e *Engine, ex []Exit) {
		n := 0
		for _, x := range ex {
			err, has := errOf(e, f.Signature, x.res)
			if has && x.st.nilness(err) == 1 {
				n++
			}
			r.oblige("reported", name, r.at(f), gint(x.st, "failed") == 0 || has && x.st.nilness(err) == 2, "an execution in which something failed may return no error")
		}
		r.oblige("reported", name+" succeeds", r.at(f), n > 0, "no execution succeeds")
	})
}

// framesFail: frames which are refused.
func (r *Run) framesFail() {
	hf, hef := r.need("socket.S101Decoder.HandleFrame"), r.need("socket.S101Decoder.HandleEmberFrame")
	db := r.need("socket.S101Decoder.DecodeBuffer")
	if hf == nil || hef == nil || db == nil {
		return
	}
	for _, f := range []*ssa.Function{hf, hef} {
		f := f
		name := r.p.short(f)
		r.anyFrames(f, func(e *Engine, s *s101) {
			e.onAfter = func(st *State, cc *CallCtx, res Val) {
				if cc.Fn == f {
					return
				}
				isH := -1
				if cc.Fn == nil && len(cc.Args) > 0 {
					for i, h := range s.h {
						if vkey(st.nv(cc.Args[0])) == vkey(h) {
							isH = i
						}
					}
				}
				if isH >= 0 || cc.Fn == hef {
					st.g["handled"] = intV(1)
				}
				lib := strings.HasPrefix(cc.Name, "(*bytes.Reader).") || strings.HasPrefix(cc.Name, "io.") || strings.HasPrefix(cc.Name, "encoding/binary.")
				mod := cc.Fn != nil && cc.Fn.Pkg != nil && e.isRepoPkg(cc.Fn.Pkg.Pkg.Path()) && cc.Fn.Pkg != e.pkg("errors")
				if isH < 0 && !lib && !mod {
					return
				}
				if err, ok := errOf(e, cc.Sig, res); ok && st.nilness(err) == 2 {
					st.g["failed"] = intV(1)
				}
			}
		}, func(e *Engine, ex []Exit) {
			for _, x := range ex {
				err, has := errOf(e, f.Signature, x.res)
				fails := has && x.st.nilness(err) == 2
				r.oblige("frame", name, r.at(f), gint(x.st, "failed") == 0 || fails, "an execution in which something failed may return no error")
				if f == hf {
					r.oblige("frame", name, r.at(f), gint(x.st, "handled") > 0 || fails, "a frame which is not given to any handler may be accepted without an error")
				}
			}
		})
	}
	name := r.p.short(db)
	r.anyFrames(db, func(e *Engine, s *s101) {
		e.onAfter = func(st *State, cc *CallCtx, res Val) {
			if cc.Fn != hf {
				return
			}
			r.oblige("frame", name, r.p.pos(cc.Site), gint(st, "pending") == 0, "the error of a frame does not reach the error handler before the next frame is handled")
			if err, _ := errOf(e, cc.Sig, res); st.nilness(err) != 1 {
				st.g["pending"] = intV(1)
				st.g["err"] = err
			}
		}
		s.onHandler = func(st *State, c *CallCtx, h int) {
			if h == hErr && len(c.Args) > 1 {
				r.oblige("frame", name, r.p.pos(c.Site), gint(st, "pending") > 0 && sameVal(st, c.Args[1], st.g["err"]), "the error handler is called with something else than the error of the last frame")
				delete(st.g, "pending")
				delete(st.g, "err")
			}
		}
	}, func(e *Engine, ex []Exit) {
		for _, x := range ex {
			r.oblige("frame", name, r.at(db), gint(x.st, "pending") == 0, "the error of a frame may never reach the error handler")
		}
	})
}

// foreignFrames: intact frames which are not packets of a message, or stop inside of their header.
func (r *Run) foreignFrames() {
	hf, cf := r.need("socket.S101Decoder.HandleFrame"), r.need("socket.CalculateCRC")
	if hf == nil || cf == nil {
		return
	}
	ok := [][2]int64{{0, 0}, {0x0e, 0x0e}, {0, 0}, {0, 255}, {0, 255}, {1, 1}, {2, 2}, {0, 255}, {0, 255}}
	with := func(i int, lo, hi int64) [][2]int64 {
		h := append([][2]int64(nil), ok...)
		h[i] = [2]int64{lo, hi}
		return h
	}
	type fr struct {
		name string
		h    [][2]int64
	}
	frames := []fr{
		{"a frame of another slot", with(0, 1, 255)},
		{"a frame which is not an Ember message", with(1, 0, 0x0d)},
		{"a frame which is not an EmBER message", with(1, 0x0f, 255)},
		{"a frame with an unknown command", with(2, 3, 255)},
		{"a packet with another DTD (0)", with(5, 0, 0)},
		{"a packet with another DTD", with(5, 2, 255)},
		{"a packet with a short DTD version", with(6, 0, 1)},
		{"a packet with a long DTD version", with(6, 3, 255)},
	}
	for i := range ok {
		frames = append(frames, fr{fmt.Sprintf("a packet of %d bytes", i), ok[:i]})
	}
	for _, t := range frames {
		e := r.engine()
		deepEngine(e)
		e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
			if c.Fn == cf { // the frame is intact
				return ret(st, intV(crcGood)), true
			}
			return nil, false
		}
		name := r.p.short(hf) + " of " + t.name
		r.guard(name, e, func() {
			s, st := r.newS101(e, e.start())
			if s == nil {
				return
			}
			st.havocData(s.dec)
			s.onHandler = func(st *State, c *CallCtx, h int) {
				r.fail("frame", name, r.p.pos(c.Site), "the "+hNames[h]+" is called")
			}
			var f []Seg
			for _, b := range t.h {
				f = append(f, byteSegs(e.symByte(st, "byte", b[0], b[1]))...)
			}
			if len(t.h) == len(ok) {
				f = append(f, e.segsOf(st, st.freshBytes(e.newInt(intT, "len", 0, 1<<30), "payload"))...)
			}
			f = append(f, byteSegs(e.symByte(st, "crc", 0, 255), e.symByte(st, "crc", 0, 255))...)
			for _, x := range e.call(st, hf, []Val{s.dec, st.bytesOf(f, "frame")}) {
				err, has := errOf(e, hf.Signature, x.res)
				r.oblige("frame", name, r.at(hf), has && x.st.nilness(err) == 2, "it is accepted without an error")
			}
		})
	}
}

// clientFails: what the client gives to its decoder as a handler of messages.
func (r *Run) clientFails() {
	ctor, dec := r.need("socket.NewS101Decoder"), r.need("embertree.RootElement.Decode")
	if ctor == nil || dec == nil {
		return
	}
	e := r.engine()
	name := "the packet handler of socket.NewS101Client"
	r.guard(name, e, func() {
		var h Val
		e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
			switch cc.Fn {
			case ctor:
				if len(cc.Args) == 4 {
					h = st.nv(cc.Args[hEmber])
				}
			case dec:
				ex := e.results(st, cc.Sig, "decode", true)
				for _, x := range ex {
					x.st.g["decoded"] = intV(1)
					if err, _ := errOf(e, cc.Sig, x.res); x.st.nilness(err) == 2 {
						x.st.g["failed"] = intV(1)
					}
				}
				return ex, true
			}
			return nil, false
		}
		cf := r.need("socket.NewS101Client")
		if cf == nil {
			return
		}
		n := 0
		for _, x := range e.call(e.start(), cf, nil) {
			fn, ok := h.(VFunc)
			if !ok {
				break
			}
			e.roots = append(e.roots, x.res, fn)
			for _, y := range e.callFunc(x.st, nil, fn, []Val{e.fresh(types.NewSlice(byteT), "packet")}) {
				n++
				err := y.res
				r.oblige("client", name, r.at(cf), gint(y.st, "failed") == 0 || y.st.nilness(err) == 2, "a message which cannot be applied to the tree may be reported as processed")
				r.oblige("client", name, r.at(cf), gint(y.st, "decoded") > 0 || y.st.nilness(err) == 2, "a message may be reported as processed which was not given to the tree")
			}
		}
		r.oblige("client", name, r.at(cf), n > 0, "it is not known")
	})
}
