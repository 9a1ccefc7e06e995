package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = check{run: (*Run).c08, expl: "Two layers. The primitives of the BER reader are interpreted abstractly on symbolic bytes: the start and end of sequences in both length forms, and every typed read, must leave the reader right behind what they read. Every decoder is then executed abstractly on the token lists of all kinds of objects, complete, with each part left out and with an unknown part, in four assignments of length forms and with different things following the item: outcome, decoded object and position must be the same in all of them."}
}

// forms are assignments of length forms to the sequences of a document.
var forms = []struct {
	name string
	f    func(d *doc, depth int) bool
}{
	{"definite", func(d *doc, depth int) bool { return true }},
	{"indefinite", func(d *doc, depth int) bool { return false }},
	{"definite in indefinite", func(d *doc, depth int) bool { return depth%2 == 1 }},
	{"indefinite in definite", func(d *doc, depth int) bool { return depth%2 == 0 }},
}

// withForm makes a document whose length forms are chosen by depth.
func withForm(toks []tok, n int) *doc {
	depth := make([]int, len(toks))
	lv := 0
	for i, t := range toks {
		depth[i] = lv
		if t.kind == "S" {
			lv++
		} else if t.kind == "E" {
			lv--
		}
	}
	return newDoc(toks, func(i int) bool { return forms[n].f(nil, depth[i]) })
}

// balanced: the end of the item starting at i.
func itemEnd(toks []tok, i int) int {
	lv := 0
	for ; i < len(toks); i++ {
		if toks[i].kind == "S" {
			lv++
		} else if toks[i].kind == "E" {
			lv--
		}
		if lv <= 0 {
			return i + 1
		}
	}
	return i
}

// A variant is a token list derived from an encoding.
type variant struct {
	name string
	toks []tok
}

// variants: the item itself, with every part down to a depth left out, and with an unknown part.
func variants(toks []tok, depth int) []variant {
	vs := []variant{{"as encoded", toks}}
	lv := 0
	for i, t := range toks {
		if t.kind == "E" {
			lv--
			continue
		}
		if lv > 0 && lv <= depth {
			j := itemEnd(toks, i)
			n := append(append([]tok(nil), toks[:i]...), toks[j:]...)
			vs = append(vs, variant{fmt.Sprintf("without %s%s", t.shape(), path(toks, i)), n})
		}
		if t.kind == "S" {
			if lv < depth {
				// at its end
				j := itemEnd(toks, i) - 1
				u := []tok{{kind: "S", tag: 0xbf}, {kind: "int", tag: 2, v: intV(1)}, {kind: "E"}}
				n := append(append(append([]tok(nil), toks[:j]...), u...), toks[j:]...)
				vs = append(vs, variant{"with an unknown part in " + t.shape() + path(toks, i), n})
			}
			lv++
		}
	}
	return vs
}

func path(l []tok, i int) string { return (&tm{}).where(l, i) }

// followers are what may stand behind an item.
func (m *tm) followers(st *State) [][]tok {
	n := m.any(st, intT, "follower")
	return [][]tok{
		nil,
		{{kind: "int", tag: 2, v: n}},
		{{kind: "S", tag: 0xa0}, {kind: "int", tag: 2, v: n}, {kind: "E"}},
		{{kind: "E"}, {kind: "int", tag: 2, v: n}},
	}
}

// a result of decoding.
type decoded struct {
	form, after string
	ok          bool
	toks        []tok
	enc         bool
	where       int
}

func (r *Run) bothForms(k kind, b build, depth int) {
	what := strings.TrimSpace(k.name + " " + b.name)
	pos := r.p.fpos(k.name + ".Encode")
	r.paths(what, func(m *tm) {
		st, x := b.f(m, m.e.start())
		m.e.roots = append(m.e.roots, x)
		w := m.writer(st)
		ex := k.enc(m, st, x, w)
		if len(ex) == 0 {
			r.fail("agree", what, pos, "it is never encoded without an error")
		}
		for _, q := range ex {
			for _, v := range variants(m.toks(q.st, w), depth) {
				var first *decoded
				var fst *State
				for fi := range forms {
					for fo, after := range m.followers(q.st) {
						if fi > 0 && fo > 1 && v.name != "as encoded" {
							continue
						}
						s := q.st.clone()
						rd := m.reader(s, withForm(append(append([]tok(nil), v.toks...), after...), fi))
						for _, y := range k.dec(m, s, rd) {
							got, err := m.outcome(y)
							n := y.st.nilness(err)
							if n == 0 {
								r.fail("agree", what, pos, "whether it is decoded cannot be told: "+v.name)
								continue
							}
							d := decoded{form: forms[fi].name, ok: n == 1}
							if d.ok {
								r.oblige("position", what, pos, m.at(y.st, rd) == len(v.toks), fmt.Sprintf("%s, in %s form and followed by %s, the reader is left at token %d of %d", v.name, d.form, follower(after), m.at(y.st, rd), len(v.toks)))
								if gp, ok := got.(VPtr); ok {
									m.e.roots = append(m.e.roots, gp)
									w2 := m.writer(y.st)
									for _, z := range k.enc(m, y.st, gp, w2) {
										d.toks, d.enc = m.toks(z.st, w2), true
									}
								}
							}
							if first == nil {
								first, fst = &d, y.st
								continue
							}
							if r.oblige("agree", what, pos, first.ok == d.ok && first.enc == d.enc, fmt.Sprintf("%s, it is decoded in %s form but not in %s form followed by %s", v.name, pick(first.ok, first.form, d.form), pick(first.ok, d.form, first.form), follower(after))) && d.enc {
								diff := m.sameToks(fst, first.toks, d.toks)
								r.oblige("agree", what, pos, diff == "", fmt.Sprintf("%s, what is decoded in %s form followed by %s differs from what is in %s form: %s", v.name, d.form, follower(after), first.form, diff))
							}
						}
					}
				}
			}
		}
	})
}

func pick(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func follower(l []tok) string {
	if len(l) == 0 {
		return "nothing"
	}
	return l[0].shape()
}

func (r *Run) c08() {
	r.rule("start: the start of a sequence of definite length yields a reader of exactly its content and leaves the reader behind it, for every length form; that of indefinite length leaves the reader at its content; an empty sequence of indefinite length is consumed with its end marker")
	r.rule("end: an end marker is consumed exactly once, nothing else is, and the end of a sequence of definite length needs none")
	r.rule("value: a typed read which succeeds leaves the reader right behind the value")
	r.rule("position: a decoder which succeeds leaves the reader right behind the item, whatever follows")
	r.rule("agree: outcome and decoded object do not depend on the length forms or on what follows")
	r.sequenceBytes()
	r.valueBytes()
	if len(r.finds) > 0 {
		return
	}
	for _, k := range r.leafKinds() {
		for i, b := range k.builds {
			if i > 0 && strings.HasPrefix(b.name, "with all properties") {
				continue
			}
			r.bothForms(k, b, 3)
		}
	}
	if len(r.finds) > 0 {
		return
	}
	for _, k := range r.elementKinds() {
		for _, b := range k.builds {
			d := 2
			if strings.Contains(b.name, "contents and children") {
				d = 1
			}
			if strings.Contains(b.name, "all kinds") {
				continue // every kind is covered on its own
			}
			if strings.HasPrefix(b.name, "with element") {
				d = 4
			}
			r.bothForms(k, b, d)
		}
	}
}

// ---- the primitives, on bytes

// bytes makes a reader of some bytes.
func (r *Run) bytesReader(e *Engine, bs []Lin) (*State, Val) {
	var segs []Seg
	for _, b := range bs {
		segs = append(segs, Seg{Kind: segByte, B: b, Len: lc(1)})
	}
	return r.newReader(e, e.start(), segs)
}

// rest: what a reader has left is exactly the given bytes.
func (r *Run) left(e *Engine, st *State, rd Val, want []Lin) string {
	lf, bf := r.need("asn1.ASNReader.Len"), r.need("asn1.ASNReader.ReadByte")
	if lf == nil || bf == nil {
		return "?"
	}
	st = st.clone()
	for _, x := range e.call(st.clone(), lf, []Val{rd}) {
		n, ok := constOf(x.st.nv(x.res))
		if !ok || n != int64(len(want)) {
			return fmt.Sprintf("%s bytes are left instead of %d", show(x.st, x.st.intOf(x.res)), len(want))
		}
	}
	for i, b := range want {
		ex := e.call(st, bf, []Val{rd})
		if len(ex) != 1 || ex[0].st.nilness(resAt(bf.Signature, ex[0].res, 1)) != 1 {
			return fmt.Sprintf("byte %d of what should be left cannot be read", i)
		}
		d := ex[0].st.norm(ex[0].st.intOf(resAt(bf.Signature, ex[0].res, 0)).sub(b))
		if !d.isC() || d.C != 0 {
			return fmt.Sprintf("byte %d of what is left is another one", i)
		}
		st = ex[0].st
	}
	return ""
}

func (r *Run) byteSyms(e *Engine, n int, lo int64) []Lin {
	var out []Lin
	for i := 0; i < n; i++ {
		l := e.newInt(byteT, "byte", lo, 255)
		e.roots = append(e.roots, VInt{l})
		out = append(out, l)
	}
	return out
}

func (r *Run) sequenceBytes() {
	start, end, chk := r.need("asn1.ASNReader.ReadSequenceStart"), r.need("asn1.ASNReader.ReadSequenceEnd"), r.need("asn1.ASNReader.CheckSequenceEnd")
	if start == nil || end == nil || chk == nil {
		return
	}
	const tag = 0xa1
	run := func(what string, f *ssa.Function, bs func(e *Engine) []Lin, args []Val, look func(e *Engine, st *State, rd Val, x Exit, bs []Lin) string) {
		e := r.engine()
		deepEngine(e)
		rule := "start"
		if f != start {
			rule = "end"
		}
		name := r.p.short(f) + " on " + what
		r.guard(name, e, func() {
			in := bs(e)
			st, rd := r.bytesReader(e, in)
			if st == nil {
				return
			}
			e.roots = append(e.roots, rd)
			ex := e.call(st, f, append([]Val{rd}, args...))
			r.oblige(rule, name, r.at(f), len(ex) > 0, "it never returns")
			for _, x := range ex {
				e.roots = append(e.roots, x.res)
				why := look(e, x.st, rd, x, in)
				r.oblige(rule, name, r.at(f), why == "", why)
			}
		})
	}
	c := func(vs ...int64) []Lin {
		var out []Lin
		for _, v := range vs {
			out = append(out, lc(v))
		}
		return out
	}
	for k := int64(0); k < 4; k++ {
		for lf := int64(0); lf <= 4; lf++ {
			k, lf := k, lf
			head := []int64{tag, k}
			if lf > 0 {
				head = []int64{tag, 0x80 + lf}
				for i := int64(1); i < lf; i++ {
					head = append(head, 0)
				}
				head = append(head, k)
			}
			run(fmt.Sprintf("a sequence of definite length %d in %d length octets", k, len(head)-1), start, func(e *Engine) []Lin {
				return append(c(head...), r.byteSyms(e, int(k)+2, 0)...)
			}, []Val{intV(tag)}, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
				if st.nilness(resAt(start.Signature, x.res, 2)) != 1 {
					return "it is refused"
				}
				if n, ok := constOf(st.nv(resAt(start.Signature, x.res, 0))); !ok || n != k {
					return "the length is not what it returns"
				}
				body := in[len(head):]
				if why := r.left(e, st, resAt(start.Signature, x.res, 1), body[:k]); why != "" {
					return "in the reader of the content " + why
				}
				if why := r.left(e, st, rd, body[k:]); why != "" {
					return "in the reader itself " + why
				}
				return ""
			})
		}
	}
	for _, oct := range [][]int64{{1, 2}, {0, 1, 2}, {1, 2, 3}, {0, 1, 2, 3}, {1, 2, 3, 4}, {0x7f, 0xff, 0xff, 0xff}} {
		n := int64(0)
		head := []int64{tag, 0x80 + int64(len(oct))}
		for _, o := range oct {
			n = n<<8 + o
			head = append(head, o)
		}
		e := r.engine()
		deepEngine(e)
		name := fmt.Sprintf("%s on a sequence of definite length %d in %d length octets", r.p.short(start), n, len(oct)+1)
		r.guard(name, e, func() {
			var segs []Seg
			for _, b := range c(head...) {
				segs = append(segs, Seg{Kind: segByte, B: b})
			}
			body := e.lazyArr("content")
			extra := r.byteSyms(e, 2, 0)
			segs = append(segs, Seg{Kind: segArr, Arr: body, Off: lc(0), Len: lc(n)}, Seg{Kind: segByte, B: extra[0]}, Seg{Kind: segByte, B: extra[1]})
			st, rd := r.newReader(e, e.start(), segs)
			if st == nil {
				return
			}
			e.roots = append(e.roots, rd)
			good := false
			for _, x := range e.call(st, start, []Val{rd, intV(tag)}) {
				if x.st.nilness(resAt(start.Signature, x.res, 2)) == 2 {
					continue
				}
				good = true
				content := resAt(start.Signature, x.res, 1)
				e.roots = append(e.roots, content)
				for _, y := range e.call(x.st.clone(), r.need("asn1.ASNReader.Len"), []Val{content}) {
					k, ok := constOf(y.st.nv(y.res))
					r.oblige("start", name, r.at(start), ok && k == n, "the reader of the content does not have all of it")
				}
				why := r.left(e, x.st, rd, extra)
				r.oblige("start", name, r.at(start), why == "", "in the reader itself "+why)
			}
			r.oblige("start", name, r.at(start), good, "it is refused")
		})
	}
	run("a sequence of indefinite length", start, func(e *Engine) []Lin {
		return append(append(c(tag, 0x80), r.byteSyms(e, 1, 1)...), r.byteSyms(e, 3, 0)...)
	}, []Val{intV(tag)}, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
		if st.nilness(resAt(start.Signature, x.res, 2)) != 1 {
			return "it is refused"
		}
		if st.upper(st.intOf(resAt(start.Signature, x.res, 0))) >= 0 {
			return "it returns a length"
		}
		content := resAt(start.Signature, x.res, 1)
		if why := r.left(e, st, content, in[2:]); why != "" {
			return why
		}
		bf := r.need("asn1.ASNReader.ReadByte")
		for _, y := range e.call(st.clone(), bf, []Val{content}) {
			if why := r.left(e, y.st, rd, in[3:]); why != "" {
				return "its content is read by another reader, and then " + why
			}
		}
		return ""
	})
	run("an empty sequence of indefinite length", start, func(e *Engine) []Lin {
		return append(c(tag, 0x80, 0, 0), r.byteSyms(e, 2, 0)...)
	}, []Val{intV(tag)}, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
		if st.nilness(resAt(start.Signature, x.res, 2)) != 1 {
			return "it is refused"
		}
		if n, ok := constOf(st.nv(resAt(start.Signature, x.res, 0))); !ok || n != 0 {
			return "the length it returns is not 0"
		}
		if why := r.left(e, st, resAt(start.Signature, x.res, 1), nil); why != "" {
			return why
		}
		return r.left(e, st, rd, in[4:])
	})
	// ends
	isEnd := func(f *ssa.Function, st *State, x Exit) (bool, bool) { // whether an end is seen, and whether that is known
		if f == end {
			n := st.nilness(x.res)
			return n == 1, n != 0
		}
		n, ok := constOf(st.nv(resAt(chk.Signature, x.res, 0)))
		return n == 1, ok && st.nilness(resAt(chk.Signature, x.res, 1)) == 1
	}
	for _, f := range []*ssa.Function{end, chk} {
		f := f
		run("an end marker", f, func(e *Engine) []Lin { return append(c(0, 0), r.byteSyms(e, 2, 0)...) }, nil, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
			if yes, known := isEnd(f, st, x); !yes || !known {
				return "it does not see the end"
			}
			return r.left(e, st, rd, in[2:])
		})
		run("nothing", f, func(e *Engine) []Lin { return nil }, nil, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
			if yes, known := isEnd(f, st, x); !yes || !known {
				return "it does not see the end"
			}
			return ""
		})
		run("a zero which is no end marker", f, func(e *Engine) []Lin { return append(append(c(0), r.byteSyms(e, 1, 1)...), r.byteSyms(e, 1, 0)...) }, nil, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
			if yes, known := isEnd(f, st, x); yes || !known {
				return "it sees an end"
			}
			if f == chk {
				return r.left(e, st, rd, in)
			}
			return ""
		})
		run("something else", f, func(e *Engine) []Lin { return append(r.byteSyms(e, 1, 1), r.byteSyms(e, 2, 0)...) }, nil, func(e *Engine, st *State, rd Val, x Exit, in []Lin) string {
			if yes, known := isEnd(f, st, x); yes || !known {
				return "it sees an end"
			}
			if f == chk {
				return r.left(e, st, rd, in)
			}
			return ""
		})
	}
}

// valueBytes: every typed read of a value of n content bytes.
func (r *Run) valueBytes() {
	oid, ok1 := r.p.constOf("asn1", "EMBER_RELATIVE_OID")
	tags := map[string]int64{"ReadOID": oid}
	for f, n := range map[string]string{"ReadBoolean": "EMBER_BOOLEAN", "ReadInt": "EMBER_INTEGER", "ReadInt64": "EMBER_INTEGER", "ReadReal": "EMBER_REAL", "ReadString": "EMBER_STRING", "ReadBitString": "EMBER_BITSTRING", "ReadOctetString": "EMBER_OCTETSTRING"} {
		t, ok := r.p.constOf("asn1", n)
		if !ok {
			r.fail("anchor", "asn1."+n, "", "the constant is gone")
			return
		}
		tags[f] = t
	}
	if !ok1 {
		r.fail("anchor", "asn1.EMBER_RELATIVE_OID", "", "the constant is gone")
		return
	}
	for name, tag := range tags {
		f := r.need("asn1.ASNReader." + name)
		if f == nil {
			continue
		}
		succeeded := false
		for n := 0; n <= 9; n++ {
			e := r.engine()
			deepEngine(e)
			what := fmt.Sprintf("%s of %d content bytes", r.p.short(f), n)
			r.guard(what, e, func() {
				extra := r.byteSyms(e, 2, 0)
				in := append([]Lin{lc(tag), lc(int64(n))}, r.byteSyms(e, n, 0)...)
				st, rd := r.bytesReader(e, append(in, extra...))
				if st == nil {
					return
				}
				e.roots = append(e.roots, rd)
				args := []Val{rd}
				if name == "ReadOID" {
					args = append(args, intV(tag))
				}
				for _, x := range e.call(st, f, args) {
					if x.st.nilness(resAt(f.Signature, x.res, 1)) == 2 {
						continue
					}
					succeeded = true
					why := r.left(e, x.st, rd, extra)
					r.oblige("value", what, r.at(f), why == "", "after it "+why)
				}
			})
		}
		r.oblige("value", r.p.short(f), r.at(f), succeeded, "it never succeeds")
	}
	for _, name := range []string{"ReadString", "ReadBitString", "ReadOctetString"} {
		f := r.need("asn1.ASNReader." + name)
		if f == nil {
			continue
		}
		e := r.engine()
		deepEngine(e)
		what := r.p.short(f) + " of indefinite length"
		r.guard(what, e, func() {
			extra := r.byteSyms(e, 2, 0)
			in := append([]Lin{lc(tags[name]), lc(0x80)}, r.byteSyms(e, 2, 1)...)
			st, rd := r.bytesReader(e, append(append(in, lc(0), lc(0)), extra...))
			if st == nil {
				return
			}
			e.roots = append(e.roots, rd)
			for _, x := range e.call(st, f, []Val{rd}) {
				if x.st.nilness(resAt(f.Signature, x.res, 1)) == 2 {
					continue
				}
				why := r.left(e, x.st, rd, extra)
				r.oblige("value", what, r.at(f), why == "", "after it "+why)
			}
		})
	}
}
