package main

import (
	"fmt"
	"go/types"
	"strings"
)

func ret(st *State, v Val) []Exit { return []Exit{{st, v}} }

// attrDefault is an attribute of a library object which was not set: that of its zero value, or unknown.
func (e *Engine) attrDefault(st *State, o *Obj, key string) Val {
	v := e.attrDefault1(st, o, key)
	if o.Lazy {
		if s, ok := v.(VSegs); ok {
			for _, x := range s.S {
				e.kid(o.Org, VInt{x.Len})
			}
		} else {
			e.kid(o.Org, v)
		}
	}
	return v
}

func (e *Engine) attrDefault1(st *State, o *Obj, key string) Val {
	i := strings.LastIndex(key, "#")
	path, attr := key[:i], key[i:]
	lazy := o.Lazy
	name := o.Org + path
	if !lazy && o.Fuzzy != nil && st.fuzzyAt(o, path) {
		lazy = true
		e.nfresh++
		name = fmt.Sprintf("at~%d", e.nfresh)
	}
	switch attr {
	case "#segs":
		if !lazy {
			return VSegs{}
		}
		l := e.term("buflen", types.Typ[types.Int], VStr{name}).(VInt)
		e.syms[l.L.T[0].S].Lo = 0
		return VSegs{[]Seg{{Kind: segArr, Arr: e.lazyBytes("buf " + name), Off: lc(0), Len: l.L}}}
	case "#all":
		if !lazy {
			return VSegs{}
		}
		l := e.term("rdall", types.Typ[types.Int], VStr{name}).(VInt)
		e.syms[l.L.T[0].S].Lo = 0
		return VSegs{[]Seg{{Kind: segArr, Arr: e.lazyBytes("rd " + name), Off: lc(0), Len: l.L}}}
	case "#pos":
		if !lazy {
			return intV(0)
		}
		l := e.term("rdpos", types.Typ[types.Int], VStr{name}).(VInt)
		e.syms[l.L.T[0].S].Lo = 0
		return l
	case "#n":
		if !lazy {
			return intV(0)
		}
		l := e.term("listlen", types.Typ[types.Int], VStr{name}).(VInt)
		e.syms[l.L.T[0].S].Lo = 0
		return l
	case "#done":
		if !lazy {
			return intV(0)
		}
		return e.term("oncedone", types.Typ[types.Bool], VStr{name})
	case "#len":
		l := e.term("attrlen", types.Typ[types.Int], VStr{name}).(VInt)
		e.syms[l.L.T[0].S].Lo = 0
		return l
	}
	return e.term("attr"+attr, types.Typ[types.Int], VStr{name})
}

var byteT = types.Typ[types.Uint8]

// lazyBytes is an unknown byte array which never changes.
func (e *Engine) lazyBytes(name string) *Obj {
	id := e.lazyID(name)
	if o, ok := e.byteArrs[id]; ok {
		return o
	}
	o := &Obj{id: id, T: types.NewArray(byteT, -1), Cells: map[string]Val{}, Lazy: true, Org: name}
	e.byteArrs[id] = o
	return o
}

func (st *State) attr(p VPtr, a string) Val {
	o := st.objs[p.O]
	if o == nil {
		return st.e.fresh(types.Typ[types.Int], "gone")
	}
	if v, ok := o.Cells[p.P+a]; ok {
		return st.nv(v)
	}
	v := st.e.attrDefault(st, o, p.P+a)
	if o.Fuzzy != nil {
		st.wobj(p.O).Cells[p.P+a] = v
	}
	return st.nv(v)
}

func (st *State) setAttr(p VPtr, a string, v Val) {
	o := st.wobj(p.O)
	if o.Multi {
		return
	}
	o.Cells[p.P+a] = st.nv(v)
}

func (st *State) attrSegs(p VPtr, a string) []Seg {
	if s, ok := st.attr(p, a).(VSegs); ok {
		for _, x := range s.S {
			if n := st.norm(x.length()); st.lower(n) < 0 {
				st.assumeLE0(n.scale(-1))
			}
		}
		return s.S
	}
	return []Seg{{Kind: segAny, Len: st.e.newInt(types.Typ[types.Int], "segs", 0, inf), Hi: 255}}
}

func (st *State) attrInt(p VPtr, a string) Lin {
	if i, ok := st.attr(p, a).(VInt); ok {
		return st.norm(i.L)
	}
	return st.e.newInt(types.Typ[types.Int], "attr", 0, inf)
}

// opaque resolves the receiver of a method of a library type; false if the call panics.
func (e *Engine) opaque(st *State, c *CallCtx) (VPtr, bool) {
	if !e.checkNil(st, c.Site, c.Args[0], "receiver of "+c.Name) {
		return VPtr{}, false
	}
	return st.ptr(c.Args[0])
}

func (e *Engine) errV(st *State) Val {
	v := e.fresh(types.Universe.Lookup("error").Type(), "err")
	st.nn[v.(VSym).S] = true
	return v
}

// rdLeft is the number of bytes left in a bytes.Reader.
func (st *State) rdLeft(p VPtr) (all []Seg, pos, left Lin) {
	all = st.attrSegs(p, "#all")
	pos = st.attrInt(p, "#pos")
	left = st.norm(segsLen(all).sub(pos))
	if st.lower(left) < 0 {
		st.assumeLE0(left.scale(-1))
		left = st.norm(left)
	}
	if st.lower(pos) < 0 {
		st.assumeLE0(pos.scale(-1))
		pos = st.norm(pos)
	}
	return
}

// fork splits on a condition a <= 0.
func (st *State) forkLE0(a Lin, yes, no func(*State)) {
	a = st.norm(a)
	if st.upper(a) <= 0 {
		yes(st)
		return
	}
	if st.lower(a) > 0 {
		no(st)
		return
	}
	n := st.clone()
	if st.assumeLE0(a) {
		yes(st)
	}
	if n.assumeLE0(a.scale(-1).addC(1)) {
		no(n)
	}
}

func (st *State) freshBytes(n Lin, name string) Val {
	id := st.alloc(types.NewArray(byteT, -1), name)
	o := st.wobj(id)
	st.e.nfresh++
	o.Lazy = true
	o.Org = fmt.Sprintf("%s~%d", name, st.e.nfresh)
	return VSlice{id, "", lc(0), n, n}
}

func (st *State) bytesOf(s []Seg, name string) Val {
	id := st.alloc(types.NewArray(byteT, -1), name)
	n := st.norm(segsLen(s))
	st.wobj(id).Base = s
	return VSlice{id, "", lc(0), n, n}
}

// fill stores bytes at the start of a slice.
func (e *Engine) fill(st *State, c *CallCtx, dst Val, s []Seg) {
	src := st.bytesOf(s, "read")
	e.copyOp(st, c.Site, dst, src)
}

func stdModels(e *Engine) {
	e.byteArrs = map[ObjID]*Obj{}
	m := e.models
	nil2 := func(v Val) Val { return VTuple{v, VNil{}} }

	// ---- bytes.Reader
	m["bytes.NewReader"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		sg := e.segsOf(st, c.Args[0])
		id := st.alloc(t, "bytes.Reader")
		p := VPtr{id, ""}
		st.setAttr(p, "#all", VSegs{sg})
		st.setAttr(p, "#pos", intV(0))
		return ret(st, p)
	}
	m["(*bytes.Reader).Len"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		_, _, left := st.rdLeft(p)
		return ret(st, VInt{left})
	}
	m["(*bytes.Reader).Size"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		return ret(st, VInt{st.norm(segsLen(st.attrSegs(p, "#all")))})
	}
	m["(*bytes.Reader).ReadByte"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		all, pos, left := st.rdLeft(p)
		var out []Exit
		st.forkLE0(left, func(s *State) {
			out = append(out, Exit{s, VTuple{intV(0), e.errV(s)}})
		}, func(s *State) {
			v := s.segAt(all, s.norm(pos), byteT)
			s.setAttr(p, "#pos", VInt{s.norm(pos.addC(1))})
			out = append(out, Exit{s, nil2(v)})
		})
		return out
	}
	m["(*bytes.Reader).UnreadByte"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		_, pos, _ := st.rdLeft(p)
		var out []Exit
		st.forkLE0(pos, func(s *State) {
			out = append(out, Exit{s, e.errV(s)})
		}, func(s *State) {
			s.setAttr(p, "#pos", VInt{s.norm(pos.addC(-1))})
			out = append(out, Exit{s, VNil{}})
		})
		return out
	}
	rdRead := func(full bool) Model {
		return func(e *Engine, st *State, c *CallCtx) []Exit {
			p, ok := e.opaque(st, c)
			if !ok {
				return nil
			}
			all, pos, left := st.rdLeft(p)
			n := st.lenOf(c.Args[1])
			var out []Exit
			take := func(s *State, k Lin, err Val) {
				k = s.norm(k)
				sg, ok := e.cutSegs(s, all, s.norm(pos), k)
				if !ok {
					sg = []Seg{{Kind: segAny, Len: k, Hi: 255}}
				}
				e.fill(s, c, c.Args[1], sg)
				s.setAttr(p, "#pos", VInt{s.norm(pos.add(k))})
				out = append(out, Exit{s, VTuple{VInt{k}, err}})
			}
			st.forkLE0(left, func(s *State) {
				if full {
					s.forkLE0(n, func(s *State) { out = append(out, Exit{s, nil2(intV(0))}) },
						func(s *State) { out = append(out, Exit{s, VTuple{intV(0), e.errV(s)}}) })
					return
				}
				out = append(out, Exit{s, VTuple{intV(0), e.errV(s)}})
			}, func(s *State) {
				s.forkLE0(n.sub(left), func(s *State) { take(s, n, VNil{}) }, func(s *State) {
					var err Val = VNil{}
					if full {
						err = e.errV(s)
					}
					take(s, left, err)
				})
			})
			return out
		}
	}
	m["(*bytes.Reader).Read"] = rdRead(false)
	m["io.ReadFull"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		if i, ok := st.nv(c.Args[0]).(VIface); ok && typeKey(i.T) == "*bytes.Reader" {
			c2 := *c
			c2.Args = []Val{i.V, c.Args[1]}
			return rdRead(true)(e, st, &c2)
		}
		return e.unknownCall(st, c)
	}
	m["(*bytes.Reader).WriteTo"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		all, pos, left := st.rdLeft(p)
		w, ok := st.nv(c.Args[1]).(VIface)
		if !ok || typeKey(w.T) != "*bytes.Buffer" {
			return e.unknownCall(st, c)
		}
		b, ok := st.ptr(w.V)
		if !ok {
			return e.unknownCall(st, c)
		}
		sg, okc := e.cutSegs(st, all, pos, left)
		if !okc {
			sg = []Seg{{Kind: segAny, Len: left, Hi: 255}}
		}
		st.bufAppend(b, sg)
		st.setAttr(p, "#pos", VInt{st.norm(pos.add(left))})
		return ret(st, nil2(VInt{left}))
	}

	// ---- bytes.Buffer
	m["bytes.NewBuffer"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		sg := e.segsOf(st, c.Args[0])
		id := st.alloc(t, "bytes.Buffer")
		st.setAttr(VPtr{id, ""}, "#segs", VSegs{sg})
		return ret(st, VPtr{id, ""})
	}
	m["(*bytes.Buffer).Len"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		return ret(st, VInt{st.norm(segsLen(st.attrSegs(p, "#segs")))})
	}
	m["(*bytes.Buffer).Bytes"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		return ret(st, st.bytesOf(st.attrSegs(p, "#segs"), "Bytes"))
	}
	m["(*bytes.Buffer).Reset"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		if e.onDrain != nil {
			e.onDrain(st, p, st.attrSegs(p, "#segs"), nil)
		}
		st.setAttr(p, "#segs", VSegs{})
		return ret(st, nil)
	}
	m["(*bytes.Buffer).Grow"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		if _, ok := e.opaque(st, c); !ok {
			return nil
		}
		n := st.intOf(c.Args[1])
		if st.lower(n) < 0 {
			k := st.clone()
			if k.assumeLE0(n.addC(1)) {
				e.panics(k, c.Site, "makeslice", "a negative count for Grow")
			}
			if !st.assumeLE0(n.scale(-1)) {
				return nil
			}
		}
		if e.onMake != nil {
			e.onMake(st, c.Site, nil, n)
		}
		return ret(st, nil)
	}
	m["(*bytes.Buffer).WriteByte"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		st.bufAppend(p, []Seg{{Kind: segByte, B: st.intOf(c.Args[1])}})
		return ret(st, VNil{})
	}
	wr := func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		var sg []Seg
		if isStringT(c.Sig.Params().At(0).Type()) {
			sg = e.strSegs(st, c.Args[1])
		} else {
			sg = e.segsOf(st, c.Args[1])
		}
		n := st.norm(segsLen(sg))
		st.bufAppend(p, sg)
		return ret(st, nil2(VInt{n}))
	}
	m["(*bytes.Buffer).Write"] = wr
	m["(*bytes.Buffer).WriteString"] = wr
	m["(*bytes.Buffer).Read"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		all := st.attrSegs(p, "#segs")
		left := st.norm(segsLen(all))
		n := st.lenOf(c.Args[1])
		var out []Exit
		take := func(s *State, k Lin) {
			k = s.norm(k)
			sg, ok := e.cutSegs(s, all, lc(0), k)
			if !ok {
				sg = []Seg{{Kind: segAny, Len: k, Hi: 255}}
			}
			rest, ok := e.cutSegs(s, all, k, s.norm(left.sub(k)))
			if !ok {
				rest = []Seg{{Kind: segAny, Len: s.norm(left.sub(k)), Hi: 255}}
			}
			e.fill(s, c, c.Args[1], sg)
			if e.onDrain != nil {
				e.onDrain(s, p, all, rest)
			}
			s.setAttr(p, "#segs", VSegs{rest})
			out = append(out, Exit{s, nil2(VInt{k})})
		}
		st.forkLE0(left, func(s *State) {
			s.forkLE0(n, func(s *State) { out = append(out, Exit{s, nil2(intV(0))}) },
				func(s *State) {
					s.setAttr(p, "#segs", VSegs{})
					out = append(out, Exit{s, VTuple{intV(0), e.errV(s)}})
				})
		}, func(s *State) {
			s.forkLE0(n.sub(left), func(s *State) { take(s, n) }, func(s *State) { take(s, left) })
		})
		return out
	}
	m["(*bytes.Buffer).ReadFrom"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		b, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		i, ok := st.nv(c.Args[1]).(VIface)
		if !ok || typeKey(i.T) != "*bytes.Reader" {
			return e.unknownCall(st, c)
		}
		p, ok := st.ptr(i.V)
		if !ok {
			return e.unknownCall(st, c)
		}
		all, pos, left := st.rdLeft(p)
		sg, okc := e.cutSegs(st, all, pos, left)
		if !okc {
			sg = []Seg{{Kind: segAny, Len: left, Hi: 255}}
		}
		st.bufAppend(b, sg)
		st.setAttr(p, "#pos", VInt{st.norm(pos.add(left))})
		return ret(st, nil2(VInt{left}))
	}

	// ---- encoding/binary
	m["encoding/binary.Read"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		i, ok := st.nv(c.Args[0]).(VIface)
		d, ok2 := st.nv(c.Args[2]).(VIface)
		if !ok || !ok2 || typeKey(i.T) != "*bytes.Reader" {
			return e.unknownCall(st, c)
		}
		p, ok := st.ptr(i.V)
		q, ok2 := st.ptr(d.V)
		pt, ok3 := d.T.Underlying().(*types.Pointer)
		if !ok || !ok2 || !ok3 {
			return e.unknownCall(st, c)
		}
		all, pos, left := st.rdLeft(p)
		size, simple := int64(0), true
		e.leaves(pt.Elem(), func(l string, lt types.Type) {
			if !isIntT(lt) || isBoolT(lt) {
				simple = false
				return
			}
			size += int64(intBits(lt) / 8)
		})
		if !simple {
			return e.unknownCall(st, c)
		}
		var out []Exit
		st.forkLE0(lc(size).sub(left), func(s *State) {
			off := int64(0)
			e.leaves(pt.Elem(), func(l string, lt types.Type) {
				var v Val
				if intBits(lt) == 8 {
					v = s.segAt(all, s.norm(pos.addC(off)), lt)
				} else {
					v = e.fresh(lt, "bin")
				}
				s.store(VPtr{q.O, q.P + l}, v, lt)
				off += int64(intBits(lt) / 8)
			})
			s.setAttr(p, "#pos", VInt{s.norm(pos.addC(size))})
			out = append(out, Exit{s, VNil{}})
		}, func(s *State) {
			s.setAttr(p, "#pos", VInt{s.norm(pos.add(left))})
			out = append(out, Exit{s, e.errV(s)})
		})
		return out
	}

	// ---- math
	m["math/bits.LeadingZeros64"] = e.rangeTerm(0, 64)
	m["math/bits.TrailingZeros64"] = e.rangeTerm(0, 64)
	m["math/bits.Len64"] = e.rangeTerm(0, 64)
	m["math/bits.Len"] = e.rangeTerm(0, 64)
	m["math/bits.Len32"] = e.rangeTerm(0, 32)

	// ---- container/list
	m["container/list.New"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		id := st.alloc(c.Sig.Results().At(0).Type().(*types.Pointer).Elem(), "list")
		return ret(st, VPtr{id, ""})
	}
	m["(*container/list.List).Init"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		st.setAttr(p, "#n", intV(0))
		return ret(st, p)
	}
	m["(*container/list.List).Len"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		return ret(st, VInt{st.attrInt(p, "#n")})
	}
	push := func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		st.setAttr(p, "#n", VInt{st.norm(st.attrInt(p, "#n").addC(1))})
		v := e.fresh(c.Sig.Results().At(0).Type(), "elem")
		st.nn[v.(VSym).S] = true
		return ret(st, v)
	}
	m["(*container/list.List).PushBack"] = push
	m["(*container/list.List).PushFront"] = push
	front := func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		var out []Exit
		st.forkLE0(st.attrInt(p, "#n"), func(s *State) { out = append(out, Exit{s, VNil{}}) }, func(s *State) {
			v := e.fresh(c.Sig.Results().At(0).Type(), "elem")
			s.nn[v.(VSym).S] = true
			out = append(out, Exit{s, v})
		})
		return out
	}
	m["(*container/list.List).Front"] = front
	m["(*container/list.List).Back"] = front
	m["(*container/list.List).Remove"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		if !e.checkNil(st, c.Site, c.Args[1], "the element to remove") {
			return nil
		}
		n := st.attrInt(p, "#n")
		k := e.newInt(types.Typ[types.Int], "listlen", 0, inf)
		st.assumeLE0(n.addC(-1).sub(k))
		st.assumeLE0(k.sub(n))
		st.setAttr(p, "#n", VInt{st.norm(k)})
		return ret(st, e.fresh(c.resT(), "removed"))
	}

	// ---- sync
	m["(*sync.Once).Do"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		p, ok := e.opaque(st, c)
		if !ok {
			return nil
		}
		var out []Exit
		run := func(s *State) {
			s.setAttr(p, "#done", intV(1))
			switch f := s.nv(c.Args[1]).(type) {
			case VFunc:
				for _, x := range e.callFunc(s, c.Site, f, nil) {
					out = append(out, Exit{x.st, nil})
				}
			default:
				cc := &CallCtx{Site: c.Site, Name: "func value", Args: []Val{f}, Sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
				out = append(out, e.unknownCall(s, cc)...)
			}
		}
		d := st.attrInt(p, "#done")
		st.forkLE0(d, run, func(s *State) { out = append(out, Exit{s, nil}) })
		return out
	}

	// ---- net and time
	m["net.Dial"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		n := st.clone()
		v := e.fresh(c.Sig.Results().At(0).Type(), "conn")
		st.nn[v.(VSym).S] = true
		return []Exit{{st, VTuple{v, VNil{}}}, {n, VTuple{VNil{}, e.errV(n)}}}
	}
	m["net.DialTimeout"] = m["net.Dial"]
	m["time.AfterFunc"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		v := e.fresh(c.resT(), "timer")
		st.nn[v.(VSym).S] = true
		return ret(st, v)
	}
	m["time.NewTimer"] = m["time.AfterFunc"]
	m["(net.Conn).Read"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		l := st.lenOf(c.Args[1])
		st.havoc(c.Args[1])
		n := e.newInt(types.Typ[types.Int], "nread", 0, inf)
		st.assumeLE0(n.sub(l))
		k := st.clone()
		return []Exit{{st, VTuple{VInt{n}, VNil{}}}, {k, VTuple{VInt{n}, e.errV(k)}}}
	}
	m["(net.Conn).Write"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		l := st.lenOf(c.Args[1])
		n := e.newInt(types.Typ[types.Int], "nwritten", 0, inf)
		st.assumeLE0(n.sub(l))
		k := st.clone()
		return []Exit{{st, VTuple{VInt{l}, VNil{}}}, {k, VTuple{VInt{n}, e.errV(k)}}}
	}
	plain := func(e *Engine, st *State, c *CallCtx) []Exit { return e.results(st, c.Sig, c.Name, true) }
	for _, n := range []string{"Close", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "LocalAddr", "RemoteAddr"} {
		m["(net.Conn)."+n] = plain
	}
	for _, n := range []string{"(net.Error).Timeout", "(net.Error).Temporary", "(net.Error).Error", "(error).Error"} {
		m[n] = plain
	}
	m["fmt.Errorf"] = func(e *Engine, st *State, c *CallCtx) []Exit { return ret(st, e.errV(st)) }
	m["errors.New"] = m["fmt.Errorf"]
	textModels(m)

	// ---- the error package and the loggers of the module
	ep := e.mod + "/errors."
	m[ep+"New"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		v := e.fresh(c.resT(), "error")
		st.nn[v.(VSym).S] = true
		return ret(st, v)
	}
	m[ep+"NewError"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		var out []Exit
		some := func(s *State) {
			v := e.fresh(c.resT(), "error")
			s.nn[v.(VSym).S] = true
			out = append(out, Exit{s, v})
		}
		switch st.nilness(c.Args[0]) {
		case 1:
			return ret(st, VNil{})
		case 2:
			some(st)
			return out
		}
		n := st.clone()
		if n.setNil(c.Args[0]) {
			out = append(out, Exit{n, VNil{}})
		}
		if st.setNonNil(c.Args[0]) {
			some(st)
		}
		return out
	}
	m[ep+"Update"] = func(e *Engine, st *State, c *CallCtx) []Exit { return ret(st, st.nv(c.Args[0])) }
	if lt := e.typ("logger.Logger"); lt != nil {
		if it, ok := lt.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				m[fmt.Sprintf("(%s).%s", typeKey(lt), it.Method(i).Name())] = func(e *Engine, st *State, c *CallCtx) []Exit {
					if c.Sig.Results().Len() == 0 {
						return ret(st, nil)
					}
					return ret(st, e.fresh(c.resT(), "log"))
				}
			}
		}
	}
}

func (st *State) bufAppend(p VPtr, s []Seg) {
	old := st.attrSegs(p, "#segs")
	if st.e.onBuf != nil {
		st.e.onBuf(st, p, old, s)
	}
	n := append(append([]Seg(nil), old...), s...)
	st.setAttr(p, "#segs", VSegs{compact(st, n)})
}

func (e *Engine) rangeTerm(lo, hi int64) Model {
	return func(e *Engine, st *State, c *CallCtx) []Exit {
		v := e.term(c.Name, c.resT(), c.Args...)
		if i, ok := v.(VInt); ok && len(i.L.T) == 1 {
			m := e.syms[i.L.T[0].S]
			m.Lo, m.Hi = lo, hi
		}
		return ret(st, st.nv(v))
	}
}

// cellNonNil: the field is set by every constructor and never cleared (rule C27 checks this).
func (e *Engine) cellNonNil(root types.Type, path string, t types.Type) bool {
	if e.elemNonNil(t) && strings.HasSuffix(path, "]") {
		return true
	}
	i := strings.LastIndex(path, ".")
	if i < 0 || strings.ContainsAny(path[i:], "[#") {
		return false
	}
	owner := root
	if i > 0 {
		owner = e.pathType(root, path[:i])
	}
	if owner == nil {
		return false
	}
	n, ok := types.Unalias(owner).(*types.Named)
	if !ok {
		return false
	}
	return e.nonNilField[n.Obj().Name()+path[i:]]
}

// elemNonNil: entries of lists and maps which point to objects of the module, or are its interfaces, are never nil.
func (e *Engine) elemNonNil(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && types.IsInterface(t) && n.Obj().Pkg() != nil && e.isRepoPkg(n.Obj().Pkg().Path()) {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (e.isRepoPkg(n.Obj().Pkg().Path()) || n.Obj().Pkg().Path() == "bytes")
}
