package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = check{run: (*Run).c20, expl: "Abstract interpretation of the message encoder on a message of any length: the flags of the frames it builds are followed by an automaton, every byte that enters a packet must be the next byte of the message, and the content of a packet must be everything collected since the last one. The receiver is analysed from an arbitrary state on sequences of packets whose payloads are unknown bytes of unknown length."}
}

// dataIndex is the index in an unknown array which a byte was read from.
func (e *Engine) dataIndex(org string, l Lin) (Lin, bool) {
	if l.C != 0 || len(l.T) != 1 || l.T[0].K != 1 {
		return Lin{}, false
	}
	m := e.syms[l.T[0].S]
	if m.Op != "cell" || len(m.Args) != 1 {
		return Lin{}, false
	}
	s, ok := m.Args[0].(VStr)
	if !ok || len(s.S) < len(org)+3 || s.S[:len(org)+1] != org+"[" {
		return Lin{}, false
	}
	return e.linOf(s.S[len(org)+1 : len(s.S)-1])
}

type packetWatch struct {
	r       *Run
	f       *ssa.Function
	org     string
	n       VPtr // counter of the bytes taken from the message
	flags   int
	payload int
	bytes   int
	m       VPtr // counter of the frames built
	c       VPtr // counter of the frames copied to a new list
	ld      VPtr // where in a list a frame was read last
	lists   int
}

func (w *packetWatch) bad(rule, msg string) {
	w.r.fail(rule, "socket.EncodeMessage", w.r.at(w.f), msg)
}

const flagsAt, headerLen = 5, 10

func (w *packetWatch) hook(st *State, p VPtr, old, add []Seg) {
	e := st.e
	old, add = canon(st, old), canon(st, add)
	if len(old) == 0 && len(add) > 0 && isConst(add[0].B, bBOF) && add[0].Kind == segByte {
		st.g["frame"] = p
		st.g["hdr"] = intV(0)
	}
	if fr, ok := st.g["frame"].(VPtr); ok && fr == p {
		w.frame(st, p, old, add)
		return
	}
	// a byte is collected for the next packet
	if _, ok := st.g["sent"]; ok {
		w.bad("payload", "bytes are collected on top of those already put in a packet")
	}
	for _, s := range add {
		if s.Kind != segByte {
			w.bad("bytes", "bytes are collected which are not single bytes of the message")
			return
		}
		b := st.norm(s.B)
		if _, ok := st.g["esc"]; ok {
			delete(st.g, "esc")
			b = st.norm(st.intOf(e.arith(st, "^", byteT, b, lc(bXOR))))
		} else if isConst(b, bCE) {
			st.g["esc"] = intV(1)
			continue
		}
		w.bytes++
		want := st.norm(st.attrInt(w.n, "#n"))
		k, ok := e.dataIndex(w.org, b)
		if ok {
			d := st.norm(k.sub(want))
			ok = st.upper(d) <= 0 && st.lower(d) >= 0
		} else {
			// a constant, or a function of the byte: the same as the byte itself
			in := st.segAt([]Seg{{Kind: segArr, Arr: e.lazyArr(w.org), Off: lc(0), Len: lc(1 << 40)}}, want, byteT)
			ok = sameByte(e, st, b, st.intOf(in))
		}
		if !ok {
			w.bad("bytes", fmt.Sprintf("a byte is put in a packet which is not the next byte of the message: %s", e.explain(VInt{b}, 0)))
		}
		st.setAttr(w.n, "#n", VInt{st.norm(want.addC(1))})
	}
	st.g["collector"] = p
}

func (w *packetWatch) frame(st *State, p VPtr, old, add []Seg) {
	at := st.norm(segsLen(old))
	seq, _ := st.g["seq"].(VStr)
	for i := range add {
		pos := st.norm(at.add(segsLen(add[:i])))
		if !isConst(pos, flagsAt) {
			continue
		}
		w.flags++
		b := st.norm(add[i].B)
		next := ""
		switch {
		case add[i].Kind != segByte || !b.isC():
			w.bad("flags", "the flags of a packet are not determined by the number of packets and what is left of the message")
		case seq.S == "" && b.C == 0xC0:
			next = "end"
		case seq.S == "" && b.C == 0x80, seq.S == "more" && b.C == 0x00:
			next = "more"
		case seq.S == "more" && b.C == 0x40:
			next = "end"
		default:
			where := map[string]string{"": "the first packet", "more": "a packet after a first or middle one", "end": "a packet after the last one"}[seq.S]
			w.bad("flags", fmt.Sprintf("%s has the flags 0x%02X", where, b.C))
			next = "end"
		}
		st.g["seq"] = VStr{next}
	}
	// the payload
	end := st.norm(at.add(segsLen(add)))
	if _, done := st.g["payload"]; isConst(at, headerLen) && !done {
		want, has := st.g["drained"].(VSegs)
		if !has {
			if b, ok := st.g["collector"].(VPtr); ok {
				want = VSegs{st.attrSegs(b, "#segs")}
			}
		}
		empty := st.upper(segsLen(want.S)) <= 0
		w.payload++
		if !sameSegs(st, add, want.S) && !empty {
			w.bad("payload", "the payload of a packet is not everything collected since the last packet")
		}
		if empty && len(add) > 0 && add[0].Kind != segByte {
			w.bad("payload", "the payload of a packet is not empty though nothing was collected")
		}
		st.g["payload"] = intV(1)
		if has {
			delete(st.g, "drained")
		} else if !empty {
			st.g["sent"] = intV(1)
		}
	} else if c := end; c.isC() && c.C > headerLen && isConst(at, 0) {
		w.bad("payload", "header and payload are not written separately")
	}
	if n := len(add); n > 0 && add[n-1].Kind == segByte && isConst(add[n-1].B, bEOF) {
		if _, done := st.g["payload"]; !done {
			if d, ok := st.g["drained"].(VSegs); ok && st.upper(segsLen(d.S)) > 0 {
				w.bad("payload", "a packet is built without the bytes collected for it")
			}
		}
		delete(st.g, "payload")
		delete(st.g, "frame")
		delete(st.g, "hdr")
		if _, ok := st.g["last"]; ok {
			w.bad("order", "a frame is not put in the list before the next one is built")
		}
		st.g["last"] = p
		st.setAttr(w.m, "#n", VInt{st.norm(st.attrInt(w.m, "#n").addC(1))})
	}
}

// listed: the frame just built becomes element i of a list.
func (w *packetWatch) listed(st *State, v Val, i Lin) {
	last, ok := st.g["last"].(VPtr)
	if !ok {
		return
	}
	if q, ok := st.nv(v).(VPtr); !ok || q != last {
		return
	}
	w.lists++
	if _, ok := st.g["grown"]; ok {
		if st.upper(i.sub(st.attrInt(w.c, "#n"))) > 0 {
			w.bad("order", "earlier frames are lost when the list grows")
		}
		delete(st.g, "grown")
	}
	d := st.norm(i.addC(1).sub(st.attrInt(w.m, "#n")))
	if st.upper(d) > 0 || st.lower(d) < 0 {
		w.bad("order", "a frame is put at another place of the list than the end: "+show(st, d))
	}
	delete(st.g, "last")
}

// moved: n frames starting at place j of a list are put at place i of a new one.
func (w *packetWatch) moved(st *State, i, j, n Lin) {
	if _, ok := st.g["grown"]; !ok {
		return
	}
	c := st.attrInt(w.c, "#n")
	for _, d := range []Lin{st.norm(i.sub(c)), st.norm(j.sub(c))} {
		if st.upper(d) > 0 || st.lower(d) < 0 {
			w.bad("order", "earlier frames change their place when the list grows")
			return
		}
	}
	st.setAttr(w.c, "#n", VInt{st.norm(c.add(n))})
}

func frameElem(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedIs(p.Elem(), "bytes", "Buffer")
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isVarargs(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	ix, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	a, ok := ix.X.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

func (w *packetWatch) drain(st *State, p VPtr, old, left []Seg) {
	if fr, ok := st.g["frame"].(VPtr); ok && fr == p || st.upper(segsLen(old)) <= 0 {
		return
	}
	if st.upper(segsLen(left)) > 0 {
		w.bad("payload", "bytes are left behind when a packet is built")
	}
	if _, ok := st.g["sent"]; ok {
		delete(st.g, "sent")
		return
	}
	if _, ok := st.g["drained"]; ok {
		w.bad("payload", "collected bytes are lost")
	}
	st.g["drained"] = VSegs{old}
}

// lazyArr is the array of unknown bytes of a given name.
func (e *Engine) lazyArr(org string) *Obj {
	return &Obj{T: types.NewArray(byteT, -1), Cells: map[string]Val{}, Lazy: true, Org: org}
}

func (r *Run) c20() {
	r.rule("flags: the frames of a message carry the flags C0, or 80, then any number of 00, then 40")
	r.rule("bytes: the bytes collected for packets are the bytes of the message, each once and in order; at the end all of them were taken")
	r.rule("payload: the payload of each packet is everything collected since the previous packet, and nothing collected is lost")
	r.rule("order: the list of frames of a message has one entry per frame built, in the order in which they are built")
	r.rule("rebuild: from an arbitrary state of the decoder and for payloads of any content and length, the packets of a message lead to exactly one call of the packet handler, at the last packet, with the payloads of the non-empty packets since the first one in order, and to an empty buffer after it")
	r.assumes("bytes.Buffer, bytes.Reader and binary.Read behave as documented")
	em := r.need("socket.EncodeMessage")
	hf := r.need("socket.S101Decoder.HandleFrame")
	if em == nil || hf == nil {
		return
	}
	r.split(em)
	r.rebuild(hf)
}

func (r *Run) split(em *ssa.Function) {
	e := r.engine()
	r.crcceModel(e, false, nil)
	name := "socket.EncodeMessage"
	w := &packetWatch{r: r, f: em}
	e.onBuf, e.onDrain = w.hook, w.drain
	e.onStore = func(st *State, in ssa.Instruction, p VPtr, v Val, t types.Type) {
		if arr, ix, ok := splitIndex(p.P); ok && arr == "" && frameElem(t) && !isVarargs(in) {
			if i, ok := e.linOf(ix); ok {
				i = st.norm(i)
				if q, ok := st.nv(v).(VPtr); ok && st.g["last"] == Val(q) {
					w.listed(st, v, i)
				} else {
					w.moved(st, i, st.norm(st.attrInt(w.ld, "#n")), lc(1))
				}
			}
		}
	}
	e.onLoad = func(st *State, in ssa.Instruction, p VPtr, t types.Type) {
		if arr, ix, ok := splitIndex(p.P); ok && arr == "" && frameElem(t) {
			if i, ok := e.linOf(ix); ok {
				st.setAttr(w.ld, "#n", VInt{st.norm(i)})
			}
		}
	}
	e.onCopy = func(st *State, in ssa.Instruction, dst, src Val, n Lin) {
		a, ok1 := st.slice(dst)
		b, ok2 := st.slice(src)
		if ok1 && ok2 {
			if t, ok := st.objs[a.O].T.Underlying().(*types.Array); ok && frameElem(t.Elem()) {
				w.moved(st, st.norm(a.Off), st.norm(b.Off), n)
			}
		}
	}
	e.onMake = func(st *State, in ssa.Instruction, t types.Type, n Lin) {
		if t == nil {
			return
		}
		if s, ok := t.Underlying().(*types.Slice); ok && frameElem(s.Elem()) {
			st.g["grown"] = intV(1)
			st.setAttr(w.c, "#n", intV(0))
		}
	}
	e.onAppend = func(st *State, in ssa.Instruction, dst, src Val) {
		if s, ok := st.slice(src); ok && isConst(st.lenOf(src), 1) {
			if a, ok := st.objs[s.O].T.Underlying().(*types.Array); ok && !isIntT(a.Elem()) {
				w.listed(st, st.load(VPtr{s.O, s.P + "[" + e.linKey(st.norm(s.Off)) + "]"}, a.Elem()), st.lenOf(dst))
			}
		}
	}
	sz := r.need("socket.S101FrameList.Size")
	if sz == nil {
		return
	}
	r.guard(name, e, func() {
		st := e.start()
		data := st.freshBytes(e.newInt(intT, "datalen", 0, 1<<40), "data").(VSlice)
		w.org = st.objs[data.O].Org
		w.n = VPtr{st.alloc(types.Typ[types.Int], "taken"), ""}
		st.setAttr(w.n, "#n", intV(0))
		w.m = VPtr{st.alloc(types.Typ[types.Int], "built"), ""}
		st.setAttr(w.m, "#n", intV(0))
		w.c = VPtr{st.alloc(types.Typ[types.Int], "copied"), ""}
		st.setAttr(w.c, "#n", intV(0))
		w.ld = VPtr{st.alloc(types.Typ[types.Int], "read"), ""}
		st.setAttr(w.ld, "#n", intV(0))
		e.roots = append(e.roots, w.n, w.m, w.c, w.ld, data)
		ex := e.call(st, em, []Val{data})
		for _, x := range ex {
			seq, _ := x.st.g["seq"].(VStr)
			r.oblige("flags", name, r.at(em), seq.S == "end", "a message can be returned without a last packet")
			d := x.st.norm(x.st.attrInt(w.n, "#n").sub(data.Len))
			r.oblige("bytes", name, r.at(em), x.st.upper(d) <= 0 && x.st.lower(d) >= 0, "not every byte of the message is put in a packet: "+show(x.st, d))
			_, drained := x.st.g["drained"]
			r.oblige("payload", name, r.at(em), !drained, "collected bytes are not put in any packet")
			_, unlisted := x.st.g["last"]
			r.oblige("order", name, r.at(em), !unlisted, "the last frame built is not put in the list")
			built := x.st.norm(x.st.attrInt(w.m, "#n"))
			for _, y := range e.call(x.st, sz, []Val{x.res}) {
				d := y.st.norm(e.intLin(y.st, y.res).sub(built))
				r.oblige("order", name, r.at(em), y.st.upper(d) <= 0 && y.st.lower(d) >= 0, "the size of the list is not the number of frames built: "+show(y.st, d))
			}
			r.count("message_paths", 1)
		}
		r.oblige("flags", name, r.at(em), len(ex) > 0 && w.flags > 0 && w.payload > 0 && w.bytes > 0 && w.lists > 0, "no frames of a message are built")
	})
}

func (r *Run) rebuild(hf *ssa.Function) {
	type pk struct {
		flags int64
		p     int // payload number, -1 none
	}
	type sc struct {
		name string
		in   []pk
		want map[int][]int // packet -> payloads delivered there
	}
	tests := []sc{
		{"single packet", []pk{{0xC0, 0}}, map[int][]int{0: {0}}},
		{"single packet after another", []pk{{0xC0, 0}, {0xC0, 1}}, map[int][]int{0: {0}, 1: {1}}},
		{"first and last packet", []pk{{0x80, 0}, {0x40, 1}}, map[int][]int{1: {0, 1}}},
		{"first, middle and last packet", []pk{{0x80, 0}, {0x00, 1}, {0x40, 2}}, map[int][]int{2: {0, 1, 2}}},
		{"two middle packets", []pk{{0x80, 0}, {0x00, 1}, {0x00, 2}, {0x40, 3}}, map[int][]int{3: {0, 1, 2, 3}}},
		{"first packet inside a message", []pk{{0x80, 0}, {0x00, 1}, {0x80, 2}, {0x40, 3}}, map[int][]int{3: {2, 3}}},
		{"single packet inside a message", []pk{{0x80, 0}, {0xC0, 1}, {0x40, 2}}, map[int][]int{1: {1}, 2: {2}}},
		{"packets after the last one", []pk{{0x80, 0}, {0x40, 1}, {0x00, 2}, {0x40, 3}}, map[int][]int{1: {0, 1}, 3: {2, 3}}},
		{"last packet after a single one", []pk{{0xC0, 0}, {0x40, 1}}, map[int][]int{0: {0}, 1: {1}}},
		{"empty packet inside a message", []pk{{0x80, 0}, {0x20, 1}, {0x40, 2}}, map[int][]int{2: {0, 2}}},
		{"empty last packet", []pk{{0x80, 0}, {0x60, 1}}, map[int][]int{1: {0}}},
		{"empty first packet", []pk{{0x80, 0}, {0xA0, 1}, {0x40, 2}}, map[int][]int{2: {2}}},
		{"empty single packet", []pk{{0xE0, 0}, {0x40, 1}}, map[int][]int{0: {}, 1: {1}}},
	}
	for _, t := range tests {
		e := r.engine()
		deepEngine(e)
		// the frames are intact
		if cf := r.need("socket.CalculateCRC"); cf != nil {
			e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
				if c.Fn == cf {
					return ret(st, intV(crcGood)), true
				}
				return nil, false
			}
		}
		name := t.name
		r.guard(name, e, func() {
			s, st := r.newS101(e, e.start())
			if s == nil {
				return
			}
			st.havocData(s.dec)
			pay := map[int][]Seg{}
			cur := 0
			s.onHandler = func(st *State, c *CallCtx, h int) {
				if h != hEmber {
					r.fail("rebuild", name, r.at(hf), "the "+hNames[h]+" is called for an Ember packet")
					return
				}
				hits := ""
				if v, ok := st.g["hits"].(VStr); ok {
					hits = v.S
				}
				st.g["hits"] = VStr{hits + fmt.Sprintf("%d,", cur)}
				var want []Seg
				for _, k := range t.want[cur] {
					want = append(want, pay[k]...)
				}
				got := e.segsOf(st, c.Args[1])
				r.oblige("rebuild", name, r.at(hf), sameSegs(st, got, want), fmt.Sprintf("at packet %d the message %s is delivered instead of %s", cur+1, segText(st, got), segText(st, want)))
			}
			sts := []*State{st}
			for i, k := range t.in {
				cur = i
				var next []*State
				for _, a := range sts {
					pl, ok := pay[k.p]
					if !ok {
						pl = e.segsOf(a, a.freshBytes(e.newInt(intT, fmt.Sprintf("len%d", k.p), 0, 1<<30), "payload"))
						pay[k.p] = pl
						for _, x := range pl {
							if x.Arr != nil {
								e.roots = append(e.roots, VInt{x.Len})
							}
						}
					}
					h := byteSegs(lc(0), lc(0x0E), lc(0), e.symByte(a, "version", 0, 255), lc(k.flags), lc(1), lc(2), e.symByte(a, "minor", 0, 255), e.symByte(a, "major", 0, 255))
					f := append(append(h, pl...), byteSegs(e.symByte(a, "crc", 0, 255), e.symByte(a, "crc", 0, 255))...)
					in := a.bytesOf(f, "frame")
					for _, x := range e.call(a, hf, []Val{s.dec, in}) {
						hits := ""
						if v, ok := x.st.g["hits"].(VStr); ok {
							hits = v.S
						}
						want := ""
						for j := 0; j <= i; j++ {
							if _, ok := t.want[j]; ok {
								want += fmt.Sprintf("%d,", j)
							}
						}
						r.oblige("rebuild", name, r.at(hf), hits == want, fmt.Sprintf("after packet %d messages were delivered at the packets [%s] instead of [%s] (counted from 0)", i+1, hits, want))
						if errv, has := errOf(e, hf.Signature, x.res); has && t.want[i] == nil {
							r.oblige("rebuild", name, r.at(hf), x.st.nilness(errv) == 1, fmt.Sprintf("packet %d is refused", i+1))
						}
						r.count("receiver_paths", 1)
						next = append(next, x.st)
					}
				}
				sts = next
			}
			r.oblige("rebuild", name, r.at(hf), len(sts) > 0, "handling the packets does not return")
		})
	}
}
