package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	hReq = iota
	hResp
	hEmber
	hErr
)

var hNames = []string{"keep-alive request handler", "keep-alive response handler", "ember packet handler", "error handler"}

// s101 is a decoder built by its constructor with four unknown handlers, and an engine which watches calls of them.
type s101 struct {
	r    *Run
	e    *Engine
	dec  Val
	h    [4]Val
	hits int
	// onHandler is called before a handler; the results of the handler are those of an unknown function.
	onHandler func(st *State, c *CallCtx, h int)
}

func (r *Run) newS101(e *Engine, st *State) (*s101, *State) {
	f := r.need("socket.NewS101Decoder")
	if f == nil {
		return nil, nil
	}
	s := &s101{r: r, e: e}
	if f.Signature.Params().Len() != 4 {
		r.fail("anchor", "socket.NewS101Decoder", r.at(f), "the decoder is not made from four handlers")
		return nil, nil
	}
	for i := range s.h {
		s.h[i] = e.fresh(f.Signature.Params().At(i).Type(), "handler")
		e.nonNil[s.h[i].(VSym).S] = true
	}
	prev := e.onCall
	e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
		if c.Fn == nil && len(c.Args) > 0 {
			for i, h := range s.h {
				if vkey(st.nv(c.Args[0])) == vkey(h) {
					s.hits++
					if s.onHandler != nil {
						s.onHandler(st, c, i)
					}
					return e.results(st, c.Sig, hNames[i], true), true
				}
			}
		}
		if prev != nil {
			return prev(st, c)
		}
		return nil, false
	}
	for _, x := range e.call(st, f, s.h[:]) {
		s.dec = x.res
		e.roots = append(e.roots, x.res)
		return s, x.st
	}
	return nil, nil
}

// crcCanBeGood: whether the checksum of n bytes, n < 2, can have the good residue.
func crcShort() bool {
	for b := int64(0); b < 256; b++ {
		if crcStep(bitConst(crcInit), bitConst(b)) == bitConst(crcGood) {
			return false
		}
	}
	return crcInit != crcGood
}

// crcModel replaces CalculateCRC, whose result is checked by itself, by an unknown checksum of the bytes of the reader; it is remembered in the ghost state with what it covers.
func (r *Run) crcModel(e *Engine) {
	cf := r.need("socket.CalculateCRC")
	if cf == nil || !crcShort() {
		return
	}
	prev := e.onCall
	e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
		if c.Fn != cf {
			if prev != nil {
				return prev(st, c)
			}
			return nil, false
		}
		p, ok := st.ptr(c.Args[0])
		if !ok {
			return nil, false
		}
		all, pos, left := st.rdLeft(p)
		cover, okc := e.cutSegs(st, all, pos, left)
		if !okc {
			cover = nil
		}
		st.setAttr(p, "#pos", VInt{st.norm(segsLen(all))})
		var out []Exit
		st.forkLE0(left.addC(-1), func(s *State) {
			// too short to be good
			crc := e.newInt(types.Typ[types.Uint16], "crc", 0, 65535)
			s.assumeNE(crc.addC(-crcGood))
			s.g["crc"], s.g["covered"] = VInt{crc}, VSegs{cover}
			out = append(out, Exit{s, VInt{crc}})
		}, func(s *State) {
			crc := e.newInt(types.Typ[types.Uint16], "crc", 0, 65535)
			s.g["crc"], s.g["covered"] = VInt{crc}, VSegs{cover}
			out = append(out, Exit{s, VInt{crc}})
		})
		return out, true
	}
}

// frameState describes what is known of the frame whose checksum was taken.
type frameState struct {
	good    int // 1 yes, 0 no, -1 unknown
	covered []Seg
}

func frameOf(st *State) frameState {
	c, ok := st.g["crc"].(VInt)
	if !ok {
		return frameState{good: 0}
	}
	f := frameState{good: -1}
	l := st.norm(c.L.addC(-crcGood))
	if l.isC() {
		f.good = 0
		if l.C == 0 {
			f.good = 1
		}
	} else if !st.mayEQ0(l) {
		f.good = 0
	}
	if s, ok := st.g["covered"].(VSegs); ok {
		f.covered = s.S
	}
	return f
}

// byteAt is byte i of a frame.
func byteAt(st *State, s []Seg, i int64) Lin {
	return st.norm(st.intOf(st.segAt(s, lc(i), byteT)))
}

func isConst(l Lin, c int64) bool { return l.isC() && l.C == c }

// canon writes a byte sequence in one way only, as far as lengths are known.
func canon(st *State, s []Seg) []Seg {
	var r []Seg
	for _, x := range s {
		x.Off, x.Len, x.B = st.norm(x.Off), st.norm(x.Len), st.norm(x.B)
		if x.Kind == segByte {
			r = append(r, x)
			continue
		}
		if st.upper(x.Len) <= 0 {
			continue
		}
		if x.Kind == segArr && x.Len.isC() && x.Len.C <= 64 {
			for k := int64(0); k < x.Len.C; k++ {
				r = append(r, Seg{Kind: segByte, B: st.norm(st.intOf(st.segAt([]Seg{x}, lc(k), byteT)))})
			}
			continue
		}
		if n := len(r) - 1; n >= 0 && x.Kind == segArr && r[n].Kind == segArr && r[n].Arr == x.Arr && r[n].P == x.P {
			if d := st.norm(r[n].Off.add(r[n].Len).sub(x.Off)); isConst(d, 0) {
				r[n].Len = st.norm(r[n].Len.add(x.Len))
				continue
			}
		}
		r = append(r, x)
	}
	return r
}

// sameSegs: the two sequences are the same bytes.
func sameSegs(st *State, a, b []Seg) bool {
	a, b = canon(st, a), canon(st, b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key() != b[i].key() {
			if a[i].Kind == segByte && b[i].Kind == segByte && isConst(st.norm(a[i].B.sub(b[i].B)), 0) {
				continue
			}
			return false
		}
	}
	return true
}

func segText(st *State, s []Seg) string {
	t := ""
	for _, x := range canon(st, s) {
		t += " "
		switch {
		case x.Kind == segByte && x.B.isC():
			t += fmt.Sprintf("%02X", x.B.C)
		case x.Kind == segByte:
			t += st.e.explain(VInt{x.B}, 4)
		default:
			t += fmt.Sprintf("<%s bytes>", show(st, x.Len))
		}
	}
	return "[" + t + " ]"
}

func init() {
	checks["C18"] = check{run: (*Run).c18, expl: "Abstract interpretation of the frame decoder on an arbitrary buffer, with the handlers as unknown functions: at every place where a handler is called, what is known on that path about the checksum and the header bytes must imply that the frame is intact and of the kind of the handler. The checksum function itself is evaluated over GF(2): each pass of its loop must be the CRC step for every state and byte."}
}

func (r *Run) c18() {
	r.rule("crc: every pass of the checksum loop maps the running checksum c and the next byte b to the reflected CRC-16/CCITT step of (c, b), for all 2^24 cases at once (affine over GF(2)); it starts at 0xFFFF and uses every byte")
	r.rule("validate: a frame validates exactly if the checksum of all its bytes is 0xF0B8")
	r.rule("handler: on every path to a call of a handler the checksum of the whole frame was taken and is 0xF0B8, byte 0 is slot 0, byte 1 is 0x0E, byte 2 is the command of this handler (1, 2 or 0), and for an Ember packet the DTD byte is 1 and the number of application bytes 2")
	r.rule("drop: a path which calls no handler and returns no error is an intact Ember packet which is not the last of its message")
	r.assumes("bytes.Reader, bytes.Buffer and binary.Read behave as documented")
	for _, n := range []string{"socket.CalculateCRC"} {
		if f := r.need(n); f != nil {
			r.crcFunc(f, false, "crc")
		}
	}
	if f := r.need("socket.CalculateCRCCE"); f != nil {
		r.crcFunc(f, true, "crc")
	}
	r.validateFrame()
	hf := r.need("socket.S101Decoder.HandleFrame")
	if hf == nil {
		return
	}
	r.onFrames(hf, func(e *Engine, st *State, buf []Seg, c *CallCtx, h int) {
		name := fmt.Sprintf("%s, %s", r.p.short(hf), hNames[h])
		f := frameOf(st)
		pos := r.p.pos(c.Site)
		r.count("handler_calls", 1)
		r.oblige("handler-checksum", name, pos, f.good == 1 && sameSegs(st, f.covered, buf), "the handler can be called for a frame whose checksum was not taken over all its bytes or is not good")
		r.oblige("handler-slot", name, pos, isConst(byteAt(st, buf, 0), 0), "the handler can be called for a frame with another slot than 0")
		r.oblige("handler-message", name, pos, isConst(byteAt(st, buf, 1), 0x0E), "the handler can be called for a frame with another message type than 0x0E")
		cmd := map[int]int64{hReq: 1, hResp: 2, hEmber: 0}
		if want, ok := cmd[h]; ok {
			r.oblige("handler-command", name, pos, isConst(byteAt(st, buf, 2), want), fmt.Sprintf("the handler can be called for a frame with another command than %d", want))
		}
		if h == hEmber {
			r.oblige("handler-dtd", name, pos, isConst(byteAt(st, buf, 5), 1) && isConst(byteAt(st, buf, 6), 2), "the handler can be called for a frame which is not a Glow frame with 2 application bytes")
		}
	}, func(e *Engine, st *State, buf []Seg, hits string, errv Val) {
		name := r.p.short(hf)
		if hits != "" {
			return
		}
		if st.nilness(errv) != 2 {
			f := frameOf(st)
			ok := f.good == 1 && isConst(byteAt(st, buf, 0), 0) && isConst(byteAt(st, buf, 1), 0x0E) && isConst(byteAt(st, buf, 2), 0) && isConst(byteAt(st, buf, 5), 1) && isConst(byteAt(st, buf, 6), 2)
			r.oblige("drop", name, r.at(hf), ok, "a frame which is not an intact Ember frame can be dropped without an error")
		}
	})
}

// onFrames analyses HandleFrame on an arbitrary buffer in an arbitrary state of the decoder.
func (r *Run) onFrames(hf *ssa.Function, at func(e *Engine, st *State, buf []Seg, c *CallCtx, h int), end func(e *Engine, st *State, buf []Seg, hits string, errv Val)) {
	e := r.engine()
	deepEngine(e)
	r.crcModel(e)
	var buf []Seg
	n := 0
	r.guard(r.p.short(hf), e, func() {
		s, st := r.newS101(e, e.start())
		if s == nil {
			return
		}
		st.havocData(s.dec)
		s.onHandler = func(st *State, c *CallCtx, h int) {
			n++
			hits := ""
			if v, ok := st.g["hits"].(VStr); ok {
				hits = v.S
			}
			st.g["hits"] = VStr{hits + fmt.Sprint(h)}
			if at != nil {
				at(e, st, buf, c, h)
			}
		}
		in := st.freshBytes(e.newInt(intT, "framelen", 0, 1<<40), "frame")
		buf = e.segsOf(st, in)
		for _, x := range e.call(st, hf, []Val{s.dec, in}) {
			errv, has := errOf(e, hf.Signature, x.res)
			if !has {
				r.fail("anchor", r.p.short(hf), r.at(hf), "no error is returned")
				return
			}
			hits := ""
			if v, ok := x.st.g["hits"].(VStr); ok {
				hits = v.S
			}
			r.count("frame_paths", 1)
			end(e, x.st, buf, hits, errv)
		}
	})
	if n == 0 {
		r.fail("anchor", r.p.short(hf), r.at(hf), "no handler is ever called")
	}
}

// havocData makes the data of an object unknown, except for functions and library objects which are themselves only pointed to.
func (st *State) havocData(v Val) {
	p, ok := st.ptr(v)
	if !ok {
		return
	}
	o := st.objs[p.O]
	if o == nil {
		return
	}
	t := o.T
	if p.P != "" {
		t = st.e.pathType(t, p.P)
	}
	st.havocDataAt(p, t, 0)
}

func (st *State) havocDataAt(p VPtr, t types.Type, depth int) {
	if depth > 6 {
		return
	}
	if st.e.opaqueStruct(t) {
		st.weaken(st.wobj(p.O), p.P)
		return
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			st.havocDataAt(VPtr{p.O, p.P + "." + x.Field(i).Name()}, x.Field(i).Type(), depth+1)
		}
	case *types.Signature:
	case *types.Pointer, *types.Interface:
		v := st.load(p, t)
		if q, ok := st.ptr(v); ok && st.objs[q.O] != nil {
			st.havocDataAt(q, st.objs[q.O].T, depth+1)
			return
		}
		if i, ok := v.(VIface); ok {
			if q, ok := st.ptr(i.V); ok && st.objs[q.O] != nil {
				return
			}
		}
	default:
		st.weaken(st.wobj(p.O), p.P)
		if !isAggT(t) {
			st.store(p, st.e.fresh(t, "any"), t)
		}
	}
}
