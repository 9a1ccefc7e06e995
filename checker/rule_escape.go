package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bBOF, bEOF, bCE, bINV, bXOR = 0xFE, 0xFF, 0xFD, 0xF8, 0x20

func init() {
	checks["C19"] = check{run: (*Run).c19, expl: "Abstract interpretation of the frame encoder with a typestate on every buffer it fills (start byte only first, end byte only last, an escape byte followed by one escaped byte, every other byte below 0xF8), of its result for short payloads of arbitrary bytes, and of the stream decoder from an arbitrary state on frames of arbitrary bytes, cut at every place."}
}

// symByte is an unknown byte between two bounds.
func (e *Engine) symByte(st *State, name string, lo, hi int64) Lin {
	return e.newInt(byteT, name, lo, hi)
}

func byteSegs(bs ...Lin) []Seg {
	var r []Seg
	for _, b := range bs {
		r = append(r, Seg{Kind: segByte, B: b})
	}
	return r
}

// bufState is the typestate of the buffers of an encoder, kept in the ghost state.
type bufWatch struct {
	r     *Run
	rule  string
	anch  string
	count int
	seen  map[string]bool
}

func (w *bufWatch) bad(e *Engine, msg string) {
	pos := ""
	for i := len(e.stack) - 1; i >= 0 && pos == ""; i-- {
		pos = w.r.at(e.stack[i])
	}
	w.r.fail(w.rule, w.anch, pos, msg)
}

func (w *bufWatch) hook(st *State, p VPtr, old, add []Seg) {
	e := st.e
	buf := fmt.Sprintf("%d%s", p.O, p.P)
	old = canon(st, old)
	for _, s := range canon(st, add) {
		w.count++
		last, _ := st.g["esc"].(VStr)
		if n := len(old); n > 1 && old[n-1].Kind == segByte && isConst(old[n-1].B, bEOF) {
			w.bad(e, "a byte follows the end byte of a frame")
		}
		if s.Kind != segByte {
			lo, hi := segBounds(st, s)
			if last.S != "" {
				w.bad(e, "an escape byte is not followed by one escaped byte")
			}
			if hi > bCE || lo < 0 {
				w.bad(e, "unescaped bytes are put in a frame")
			}
			old = append(old, s)
			continue
		}
		b := st.norm(s.B)
		switch {
		case last.S != "" && last.S != buf:
			w.bad(e, "an escape sequence is split")
		case last.S == buf:
			if st.upper(b) >= bCE {
				w.bad(e, "an escape byte is followed by a byte which needs to be escaped")
			}
			delete(st.g, "esc")
		case isConst(b, bBOF):
			if len(old) > 0 {
				w.bad(e, "a start byte is written inside a frame")
			}
			if _, ok := st.g["open"].(VPtr); ok {
				w.bad(e, "a frame is left without an end byte")
			}
			st.g["open"] = p
		case isConst(b, bEOF):
			if o, ok := st.g["open"].(VPtr); !ok || o != p {
				w.bad(e, "an end byte is written where no frame was started")
			}
			delete(st.g, "open")
		case isConst(b, bCE):
			st.g["esc"] = VStr{buf}
		default:
			if st.upper(b) >= bINV {
				w.bad(e, fmt.Sprintf("a byte of %s is written without being escaped", show(st, b)))
			}
		}
		old = append(old, s)
	}
}

func (w *bufWatch) exit(st *State) {
	for _, k := range []string{"open", "esc"} {
		if _, ok := st.g[k]; ok {
			w.bad(st.e, "a frame can be returned unfinished")
		}
	}
}

// crcceModel replaces CalculateCRCCE, which is checked by itself.
func (r *Run) crcceModel(e *Engine, remember bool, at func(st *State, cover []Seg)) {
	cf := r.need("socket.CalculateCRCCE")
	if cf == nil {
		return
	}
	prev := e.onCall
	e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
		if c.Fn != cf {
			if prev != nil {
				return prev(st, c)
			}
			return nil, false
		}
		p, ok := st.ptr(c.Args[0])
		if !ok {
			return nil, false
		}
		all, pos, left := st.rdLeft(p)
		cover, okc := e.cutSegs(st, all, pos, left)
		if !okc {
			cover = nil
		}
		if at != nil {
			at(st, cover)
		}
		st.setAttr(p, "#pos", VInt{st.norm(segsLen(all))})
		crc := e.newInt(c.resT(), "crc", 0, 65535)
		if remember {
			st.g["crcce"], st.g["covered"] = VInt{crc}, VSegs{cover}
		}
		return ret(st, VInt{crc}), true
	}
}

func (r *Run) c19() {
	r.rule("stuffing: on every path of the encoders each byte appended to a buffer is the start byte of an empty buffer, the end byte of a started frame after which nothing follows, an escape byte, the one byte after it, or a byte below 0xF8; no frame is left open")
	r.rule("checksum: the checksum of a frame is taken over everything between the start byte and the checksum, whatever the length of the payload")
	r.rule("encode: for payloads of 0 to 2 arbitrary bytes the frame is the start byte, the header, every payload byte and the two bytes of the complemented checksum of all this, low byte first, each as itself below 0xF8 and as 0xFD and the byte XOR 0x20 otherwise, and the end byte")
	r.rule("decode: from an arbitrary state of the decoder, a start byte begins a new frame whatever preceded it, each following byte is taken as it is, an escape byte and the next byte as that byte XOR 0x20, and the end byte hands exactly these bytes over once, wherever the stream is cut")
	em := r.need("socket.EncodeMessage")
	db := r.need("socket.S101Decoder.DecodeBuffer")
	hf := r.need("socket.S101Decoder.HandleFrame")
	if em == nil || db == nil || hf == nil {
		return
	}
	// stuffing
	for _, n := range []string{"socket.EncodeMessage", "socket.GetKeepaliveRequest", "socket.GetKeepAliveResponse"} {
		f := r.need(n)
		if f == nil {
			continue
		}
		e := r.engine()
		r.crcceModel(e, false, func(st *State, cover []Seg) {
			p, ok := st.g["open"].(VPtr)
			if !ok {
				r.fail("checksum", n, r.at(f), "a checksum is taken where no frame was started")
				return
			}
			whole := canon(st, st.attrSegs(p, "#segs"))
			r.oblige("checksum", n, r.at(f), len(whole) > 0 && sameSegs(st, cover, whole[1:]), "the checksum of a frame is not taken over everything between the start byte and the checksum")
		})
		w := &bufWatch{r: r, rule: "stuffing", anch: n}
		e.onBuf = w.hook
		r.guard(n, e, func() {
			st := e.start()
			ex := e.call(st, f, e.freshArgs(f))
			for _, x := range ex {
				delete(x.st.g, "crcce")
				w.exit(x.st)
			}
			if len(ex) == 0 {
				r.fail("stuffing", n, r.at(f), "the function never returns")
			}
		})
		r.count("appends", w.count)
		if w.count == 0 {
			r.fail("stuffing", n, r.at(f), "no frame is built")
		}
		r.oblige("stuffing", n, r.at(f), true, "")
	}
	r.crcFunc(r.need("socket.CalculateCRCCE"), true, "crc")
	r.encodeFrames(em, false)
	// decode
	r.decodeStream(db, hf)
}

// encodeFrames: short messages are put in frames as the specification says; header tells to check what is in the header only.
func (r *Run) encodeFrames(em *ssa.Function, header bool) {
	for n := int64(0); n <= 2; n++ {
		e := r.engine()
		deepEngine(e)
		r.crcceModel(e, true, nil)
		name := fmt.Sprintf("socket.EncodeMessage of %d bytes", n)
		r.guard(name, e, func() {
			st := e.start()
			var data []Lin
			for i := int64(0); i < n; i++ {
				data = append(data, e.symByte(st, fmt.Sprintf("b%d", i), 0, 255))
			}
			in := st.bytesOf(byteSegs(data...), "data")
			ex := e.call(st, em, []Val{in})
			for _, x := range ex {
				r.encoded(e, x.st, x.res, byteSegs(data...), name, em, header)
			}
			if len(ex) == 0 {
				r.fail("encode", name, r.at(em), "the function never returns")
			}
		})
	}
}

func (r *Run) encoded(e *Engine, st *State, list Val, data []Seg, name string, em *ssa.Function, header bool) {
	sz, ga := r.need("socket.S101FrameList.Size"), r.need("socket.S101FrameList.GetBytesAt")
	if sz == nil || ga == nil {
		return
	}
	fail := func(msg string) { r.fail("encode", name, r.at(em), msg) }
	for _, x := range e.call(st, sz, []Val{list}) {
		if !isConst(e.intLin(x.st, x.res), 1) {
			fail("the message is not put in exactly one frame")
			return
		}
		for _, y := range e.call(x.st, ga, []Val{list, intV(0)}) {
			s := y.st
			if s.nilness(resAt(ga.Signature, y.res, 1)) != 1 {
				continue
			}
			out := canon(s, e.segsOf(s, resAt(ga.Signature, y.res, 0)))
			r.count("encoded_paths", 1)
			cov, ok1 := s.g["covered"].(VSegs)
			crc, ok2 := s.g["crcce"].(VInt)
			if !ok1 || !ok2 {
				fail("no checksum is taken")
				return
			}
			if len(out) < 4 || !isConst(out[0].B, bBOF) {
				fail("the frame does not start with the start byte")
				return
			}
			k := len(canon(s, cov.S))
			if 1+k > len(out) || !sameSegs(s, cov.S, out[1:1+k]) {
				fail("the checksum is not taken over exactly what precedes it")
				return
			}
			var plain []Lin
			bad := ""
			for i := 1; i < len(out)-1; i++ {
				b := out[i]
				if b.Kind != segByte {
					bad = "the content of the frame is not determined"
					break
				}
				if isConst(b.B, bCE) {
					i++
					if i >= len(out)-1 || out[i].Kind != segByte {
						bad = "an escape byte ends the frame"
						break
					}
					v := s.norm(s.intOf(e.arith(s, "^", byteT, out[i].B, lc(bXOR))))
					if s.lower(v) < bINV {
						// legal, but not what the rule wants
						bad = "a byte is escaped which needs no escape: " + show(s, v)
					}
					plain = append(plain, v)
					continue
				}
				if s.upper(b.B) >= bINV {
					bad = "a byte is not escaped: " + show(s, b.B)
				}
				plain = append(plain, s.norm(b.B))
			}
			if bad == "" && !isConst(out[len(out)-1].B, bEOF) {
				bad = "the frame does not end with the end byte"
			}
			if bad != "" {
				fail(bad)
				return
			}
			n := len(data)
			if len(plain) != 9+n+2 {
				fail(fmt.Sprintf("%d bytes are sent for a payload of %d", len(plain), n))
				return
			}
			if header {
				for i, b := range []int64{0, 0x0E, 0, 1, 0xC0, 1, 2, 0x1F, 2} {
					r.oblige("header", "socket.EncodeMessage", r.at(em), isConst(plain[i], b), fmt.Sprintf("byte %d of the header of a frame is %s instead of %#x", i, show(s, plain[i]), b))
				}
				continue
			}
			for i := range data {
				if !sameByte(e, s, plain[9+i], data[i].B) {
					fail(fmt.Sprintf("payload byte %d is not sent as it is", i))
					return
				}
			}
			c := s.norm(crc.L)
			for i, sh := range []int64{0, 8} {
				want := e.arith(s, ">>", c16, s.norm(s.intOf(e.arith(s, "^", c16, c, lc(0xFFFF)))), lc(sh))
				want = e.arith(s, "&", c16, s.norm(s.intOf(want)), lc(255))
				if !sameByte(e, s, plain[9+n+i], s.norm(s.intOf(want))) {
					fail("the checksum bytes are not those of the complemented checksum, low byte first")
					return
				}
			}
			r.oblige("encode", name, r.at(em), true, "")
		}
	}
}

// sameByte compares two bytes, as functions of unknown bytes if need be.
func sameByte(e *Engine, st *State, a, b Lin) bool {
	a, b = st.norm(a), st.norm(b)
	if isConst(st.norm(a.sub(b)), 0) {
		return true
	}
	lv := &bitLeaves{e: e, at: map[SymID]int{}, only: map[SymID]bool{}}
	x, ok1 := e.bitEval(st.deepNorm(VInt{a}), lv.leaf)
	y, ok2 := e.bitEval(st.deepNorm(VInt{b}), lv.leaf)
	return ok1 && ok2 && x == y
}

// decodeStream feeds byte sequences to the decoder in an arbitrary state.
func (r *Run) decodeStream(db, hf *ssa.Function) {
	type b struct {
		c    int64 // a constant, or
		v    string
		kind int // 1 plain byte, 2 escaped byte
	}
	k := func(c int64) b { return b{c: c} }
	x := func(v string) b { return b{v: v, kind: 1} }
	q := func(v string) b { return b{v: v, kind: 2} }
	type sc struct {
		name string
		in   []b
		want []string // frames: names of bytes, quoted ones with '
	}
	tests := []sc{
		{"empty frame", []b{k(bBOF), k(bEOF)}, []string{""}},
		{"plain bytes", []b{k(bBOF), x("x"), x("y"), x("z"), k(bEOF)}, []string{"x y z"}},
		{"escaped byte first", []b{k(bBOF), k(bCE), q("x"), x("y"), k(bEOF)}, []string{"x' y"}},
		{"escaped byte last", []b{k(bBOF), x("x"), k(bCE), q("y"), k(bEOF)}, []string{"x y'"}},
		{"two escaped bytes", []b{k(bBOF), k(bCE), q("x"), k(bCE), q("y"), k(bEOF)}, []string{"x' y'"}},
		{"start byte inside a frame", []b{k(bBOF), x("x"), k(bBOF), x("y"), k(bEOF)}, []string{"y"}},
		{"start byte after an escape byte", []b{k(bBOF), x("x"), k(bCE), k(bBOF), x("y"), k(bEOF)}, []string{"y"}},
		{"two frames", []b{k(bBOF), x("x"), k(bEOF), k(bBOF), k(bCE), q("y"), k(bEOF)}, []string{"x", "y'"}},
	}
	for _, t := range tests {
		for cut := 0; cut < len(t.in); cut++ {
			name := t.name
			e := r.engine()
			deepEngine(e)
			vars := map[string]Lin{}
			prefix := []string{}
			r.guard(name, e, func() {
				s, st := r.newS101(e, e.start())
				if s == nil {
					return
				}
				st.havocData(s.dec)
				var bs []Lin
				for _, y := range t.in {
					switch y.kind {
					case 0:
						bs = append(bs, lc(y.c))
					case 1:
						vars[y.v] = e.symByte(st, y.v, 0, bINV-1)
						bs = append(bs, vars[y.v])
					case 2:
						vars[y.v] = e.symByte(st, y.v, bINV^bXOR, 0xFF^bXOR)
						bs = append(bs, vars[y.v])
					}
				}
				_ = prefix
				var frames [][]Lin
				for _, w := range t.want {
					var f []Lin
					for _, v := range strings.Fields(w) {
						l := vars[strings.TrimSuffix(v, "'")]
						if strings.HasSuffix(v, "'") {
							l = st.norm(st.intOf(e.arith(st, "^", byteT, l, lc(bXOR))))
						}
						f = append(f, l)
					}
					frames = append(frames, f)
				}
				prev := e.onCall
				e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
					if c.Fn == hf {
						n := int64(0)
						if g, ok := st.g["frames"].(VInt); ok {
							n = g.L.C
						}
						st.g["frames"] = intV(n + 1)
						got := e.segsOf(st, c.Args[1])
						ok := int(n) < len(frames) && sameSegs(st, got, byteSegs(frames[n]...))
						want := "nothing"
						if int(n) < len(frames) {
							want = segText(st, byteSegs(frames[n]...))
						}
						r.oblige("decode", name, r.at(db), ok, fmt.Sprintf("cut before byte %d, the frame %s is handed over instead of %s", cut, segText(st, got), want))
						return e.results(st, c.Sig, c.Name, true), true
					}
					return prev(st, c)
				}
				feed := func(st *State, part []Lin) []*State {
					if len(part) == 0 {
						return []*State{st}
					}
					var out []*State
					in := st.bytesOf(byteSegs(part...), "stream")
					for _, x := range e.call(st, db, []Val{s.dec, intV(int64(len(part))), in}) {
						out = append(out, x.st)
					}
					return out
				}
				ends := 0
				for _, a := range feed(st, bs[:cut]) {
					for _, z := range feed(a, bs[cut:]) {
						ends++
						n := int64(0)
						if g, ok := z.g["frames"].(VInt); ok {
							n = g.L.C
						}
						r.oblige("decode", name, r.at(db), n == int64(len(frames)), fmt.Sprintf("cut before byte %d, %d frames are handed over instead of %d", cut, n, len(frames)))
						r.count("stream_paths", 1)
					}
				}
				r.oblige("decode", name, r.at(db), ends > 0, "decoding does not return")
			})
		}
	}
}
