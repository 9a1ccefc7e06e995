package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newReader builds an asn1 reader over a byte sequence through the exported constructor.
func (r *Run) newReader(e *Engine, st *State, segs []Seg) (*State, Val) {
	f := r.need("asn1.NewASNReader")
	if f == nil {
		return nil, nil
	}
	for _, x := range e.call(st, f, []Val{st.bytesOf(segs, "input")}) {
		return x.st, x.res
	}
	return nil, nil
}

func (r *Run) newWriter(e *Engine, st *State) (*State, Val) {
	f := r.need("asn1.NewASNWriter")
	if f == nil {
		return nil, nil
	}
	for _, x := range e.call(st, f, nil) {
		return x.st, x.res
	}
	return nil, nil
}

// written is what a writer holds, obtained through its exported methods.
func (r *Run) written(e *Engine, st *State, w Val) []Seg {
	lf, rf := r.need("asn1.ASNWriter.Len"), r.need("asn1.ASNWriter.Read")
	if lf == nil || rf == nil {
		return nil
	}
	st = st.clone()
	for _, x := range e.call(st, lf, []Val{w}) {
		n := x.st.intOf(x.res)
		p := x.st.freshBytes(n, "out")
		for _, y := range e.call(x.st, rf, []Val{w, p}) {
			if y.st.nilness(resAt(rf.Signature, y.res, 1)) == 1 {
				return e.segsOf(y.st, p)
			}
		}
	}
	return nil
}

var primWrites = []string{"WriteBoolean", "WriteInt", "WriteIntTag", "WriteInt64", "WriteInt64Tag", "WriteReal", "WriteString", "WriteBuffer", "WriteRelativeOID", "WriteNull", "WriteEnum"}

// primitive: the exported methods of the writer which emit a whole primitive value.
func (r *Run) primitives() []*ssa.Function {
	var out []*ssa.Function
	skip := map[string]bool{"Read": true, "Len": true, "WriteByte": true, "StartSequence": true, "EndSequence": true}
	for _, f := range r.p.methodsOf("asn1.ASNWriter") {
		if isExported(f) && strings.HasPrefix(f.Name(), "Write") && !skip[f.Name()] {
			out = append(out, f)
		}
	}
	for _, n := range primWrites {
		r.need("asn1.ASNWriter." + n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (r *Run) at(f *ssa.Function) string {
	q := r.p.fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, r.p.root+"/"), q.Line)
}

func deepEngine(e *Engine) { e.exitCap, e.cap, e.peel, e.fine, e.coarse = 200, 200, 10, 300, 300 }

// header reads the length octets at the start of a sequence; n is the number of octets of it.
func (e *Engine) header(st *State, segs []Seg) (value func(content Lin) (bool, string), n int, why string) {
	if len(segs) == 0 {
		return nil, 0, "no length is written"
	}
	if segs[0].Kind != segByte {
		return nil, 0, "the length octets cannot be determined"
	}
	b := st.norm(segs[0].B)
	if st.upper(b) <= 127 && st.lower(b) >= 0 {
		return func(c Lin) (bool, string) {
			c = st.norm(c)
			d := st.norm(b.sub(c))
			if d.isC() && d.C == 0 || st.upper(d) <= 0 && st.lower(d) >= 0 {
				return true, ""
			}
			return false, fmt.Sprintf("the length octet is %s but %s content bytes follow", show(st, b), show(st, c))
		}, 1, ""
	}
	if !b.isC() {
		return nil, 0, "the first length octet can be " + show(st, b) + ", which is neither a short length nor a known long form"
	}
	k := int(b.C - 0x80)
	if k < 1 || k > 8 {
		return nil, 0, fmt.Sprintf("the first length octet is %d", b.C)
	}
	if len(segs) < k+1 {
		return nil, 0, fmt.Sprintf("%d length octets are announced and fewer follow", k)
	}
	for i := 1; i <= k; i++ {
		if segs[i].Kind != segByte {
			return nil, 0, "the length octets cannot be determined"
		}
	}
	return func(c Lin) (bool, string) {
		c = st.norm(c)
		if st.lower(c) < 0 || k < 7 && st.upper(c) >= 1<<(8*k) {
			return false, fmt.Sprintf("%s content bytes do not fit in %d length octets", show(st, c), k)
		}
		for i := 1; i <= k; i++ {
			want := e.arith(st, "&", intT, e.intLin(st, e.arith(st, ">>", intT, c, lc(int64(8*(k-i))))), lc(255))
			w := st.norm(st.intOf(want))
			g := st.norm(segs[i].B)
			if d := st.norm(w.sub(g)); !(d.isC() && d.C == 0) {
				return false, fmt.Sprintf("length octet %d is not that of the number of content bytes", i)
			}
		}
		return true, ""
	}, k + 1, ""
}

func (e *Engine) intLin(st *State, v Val) Lin { return st.norm(st.intOf(v)) }

func show(st *State, l Lin) string {
	l = st.norm(l)
	if l.isC() {
		return fmt.Sprint(l.C)
	}
	return fmt.Sprintf("%d..%d", st.lower(l), st.upper(l))
}

func init() {
	checks["C29"] = check{run: (*Run).c29, expl: "Abstract interpretation of every exported primitive write of the BER writer on an arbitrary argument: the byte sequence written on each successful path is kept as tag, length octets and content of symbolic length, and the announced length must equal the number of content bytes that follow it."}
	checks["C06"] = check{run: (*Run).c06, expl: "Abstract interpretation of every typed write of the BER writer to find the tag it emits, and of the matching typed read on an input starting with that tag, with any other tag and with nothing."}
}

func (r *Run) c29() {
	r.rule("on every successful path of a primitive write the output is one tag byte, length octets in short form (<= 127) or in long form with the announced number of octets, and exactly as many content bytes as announced; an argument which leads to any other output must lead to an error")
	r.assumes("bytes.Buffer behaves as documented; an int has 64 bits")
	for _, f := range r.primitives() {
		e := r.engine()
		deepEngine(e)
		name := r.p.short(f)
		r.guard(name, e, func() {
			st, w := r.newWriter(e, e.start())
			if st == nil {
				return
			}
			args := e.freshArgs(f)
			args[0] = w
			oks := 0
			for _, x := range e.call(st, f, args) {
				errv, has := errOf(e, f.Signature, x.res)
				if has && x.st.nilness(errv) == 2 {
					r.count("failing_paths", 1)
					continue
				}
				oks++
				r.count("successful_paths", 1)
				out := r.written(e, x.st, w)
				if len(out) == 0 {
					r.fail("length-octets", name, r.at(f), "a successful path writes nothing")
					continue
				}
				if out[0].Kind != segByte {
					r.fail("length-octets", name, r.at(f), "a successful path does not start with a single tag byte")
					continue
				}
				val, n, why := e.header(x.st, out[1:])
				if val == nil {
					r.fail("length-octets", name, r.at(f), why)
					continue
				}
				ok, why := val(segsLen(out[1+n:]))
				r.oblige("length-octets", name, r.at(f), ok, why)
			}
			r.oblige("writes", name, r.at(f), oks > 0, "no successful path")
		})
	}
}

var typedPairs = []struct{ write, read string }{
	{"WriteBoolean", "ReadBoolean"}, {"WriteInt", "ReadInt"}, {"WriteInt64", "ReadInt64"}, {"WriteReal", "ReadReal"},
	{"WriteString", "ReadString"}, {"WriteBuffer", "ReadBitString"}, {"WriteBuffer", "ReadOctetString"}, {"WriteRelativeOID", "ReadOID"},
}

func (r *Run) c06() {
	r.rule("for each pair of typed write and read: the write emits one constant tag on every path; the read of a value starting with any other byte, or of nothing, fails on every path; the read of a value starting with that byte has a successful path")
	for _, pr := range typedPairs {
		oct := int64(3)
		if pr.read == "ReadOctetString" {
			oct = 4
		}
		wf, rf := r.need("asn1.ASNWriter."+pr.write), r.need("asn1.ASNReader."+pr.read)
		if wf == nil || rf == nil {
			continue
		}
		e := r.engine()
		tag := int64(-1)
		r.guard(pr.write, e, func() {
			st, w := r.newWriter(e, e.start())
			args := e.freshArgs(wf)
			args[0] = w
			if pr.write == "WriteBuffer" {
				args[2] = intV(oct)
			}
			for _, x := range e.call(st, wf, args) {
				if errv, _ := errOf(e, wf.Signature, x.res); x.st.nilness(errv) == 2 {
					continue
				}
				out := r.written(e, x.st, w)
				t := int64(-1)
				if len(out) > 0 && out[0].Kind == segByte {
					if l := x.st.norm(out[0].B); l.isC() {
						t = l.C
					}
				}
				if r.oblige("one-tag", pr.write, r.at(wf), t >= 0 && (tag < 0 || tag == t), "the tag written is not one constant") {
					tag = t
				}
			}
		})
		if tag < 0 {
			r.fail("one-tag", pr.write, r.at(wf), "no tag found")
			continue
		}
		for _, c := range []string{"other", "same", "nothing"} {
			e := r.engine()
			r.guard(pr.read, e, func() {
				st := e.start()
				b := e.newInt(byteT, "tag", 0, 255)
				rest := e.newInt(types.Typ[types.Int], "rest", 0, inf)
				in := []Seg{{Kind: segByte, B: b}, {Kind: segAny, Len: rest, Lo: 0, Hi: 255}}
				switch c {
				case "nothing":
					in = nil
				case "same":
					st.assumeEQ(b.addC(-tag))
				case "other":
					st.assumeNE(b.addC(-tag))
				}
				st, rd := r.newReader(e, st, in)
				args := e.freshArgs(rf)
				args[0] = rd
				if pr.read == "ReadOID" {
					args[1] = intV(tag)
				}
				succ := 0
				for _, x := range e.call(st, rf, args) {
					errv, has := errOf(e, rf.Signature, x.res)
					if !has || x.st.nilness(errv) != 2 {
						succ++
					}
				}
				r.count("read_runs", 1)
				name := pr.read + " of " + pr.write
				switch c {
				case "same":
					r.oblige("accepts", name, r.at(rf), succ > 0, fmt.Sprintf("the tag %d which %s emits is refused", tag, pr.write))
				case "other":
					r.oblige("refuses", name, r.at(rf), succ == 0, fmt.Sprintf("a value with another tag than %d may be accepted", tag))
				default:
					r.oblige("refuses-nothing", name, r.at(rf), succ == 0, "an empty input may be accepted")
				}
			})
		}
	}
}

func (r *Run) showWrites() {}

var intT = types.Typ[types.Int]
