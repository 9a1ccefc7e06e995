package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// client is a client built by its constructor, with an engine which watches what it does with connections.
type client struct {
	r     *Run
	e     *Engine
	c     Val
	flds  []string // the fields of the client which hold a connection
	conns []Val    // the connections made by the dial calls
	other Val      // a connection which another goroutine opened

	errTimeout, errOp, errEOF Val

	loops    []loopCall
	race     bool                                         // other goroutines may act when no lock is held
	writes   func(st *State, c *CallCtx, conn Val) []Exit // overrides the model of Write
	onConn   func(st *State, c *CallCtx, conn Val, m string)
	onDecode func(st *State, c *CallCtx)
	abstract map[string]bool
	wrote    int
	loop     bool // the service loop is analysed: nothing is counted
	rn       VPtr // what the last read returned
}

type loopCall struct {
	st   *State
	in   *ssa.Go
	fn   Val
	args []Val
}

func sameVal(st *State, a, b Val) bool { return vkey(st.nv(a)) == vkey(st.nv(b)) }

func gint(st *State, k string) int64 {
	if v, ok := st.g[k].(VInt); ok {
		return v.L.C
	}
	return 0
}

func (c *client) tally(st *State, k string) {
	if c.loop == false {
		gadd(st, k)
	}
}

func gadd(st *State, k string) {
	if n := gint(st, k); n < 3 {
		st.g[k] = intV(n + 1)
	}
}

func gstr(st *State, k string) string {
	if v, ok := st.g[k].(VStr); ok {
		return v.S
	}
	return ""
}

func connKey(st *State, v Val) string { return "closed:" + vkey(st.nv(v)) }

func (r *Run) newClient(e *Engine, st *State) (*client, *State) {
	f := r.need("socket.NewS101Client")
	ct := r.p.typ("socket.S101Client")
	if f == nil || ct == nil {
		return nil, nil
	}
	c := &client{r: r, e: e, abstract: map[string]bool{}}
	var conns func(t types.Type, path string, depth int)
	conns = func(t types.Type, path string, depth int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || depth > 3 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if namedIs(ft, "net", "Conn") {
				c.flds = append(c.flds, path+"."+s.Field(i).Name())
			} else if n, ok := ft.(*types.Named); !ok || n.Obj().Pkg() == nil || e.isRepoPkg(n.Obj().Pkg().Path()) {
				conns(ft, path+"."+s.Field(i).Name(), depth+1)
			}
		}
	}
	conns(ct, "", 0)
	if len(c.flds) == 0 {
		r.fail("anchor", "socket.S101Client", r.at(f), "the client holds no connection")
		return nil, nil
	}
	op := e.prog.ImportedPackage("net")
	if op == nil || op.Type("OpError") == nil {
		r.fail("anchor", "net.OpError", "", "package net is not used")
		return nil, nil
	}
	ot := types.NewPointer(op.Type("OpError").Type())
	mk := func(t types.Type, n string) Val {
		v := e.fresh(t, n)
		e.nonNil[v.(VSym).S] = true
		return v
	}
	c.errTimeout = VIface{ot, mk(ot, "timeout")}
	c.errOp = VIface{ot, mk(ot, "operror")}
	c.errEOF = mk(types.Universe.Lookup("error").Type(), "eof")
	e.roots = append(e.roots, c.errTimeout, c.errOp, c.errEOF)
	prevC := e.onCall
	e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
		if ex, ok := c.call(st, cc); ok {
			return ex, true
		}
		if prevC != nil {
			return prevC(st, cc)
		}
		return nil, false
	}
	e.onInvoke = c.invoke
	e.onGo = func(st *State, in *ssa.Go, fn Val, args []Val) {
		gadd(st, "go")
		c.loops = append(c.loops, loopCall{st.clone(), in, fn, args})
	}
	c.rn = VPtr{st.alloc(intT, "read"), ""}
	st.setAttr(c.rn, "#n", intV(0))
	e.roots = append(e.roots, c.rn)
	for _, x := range e.call(st, f, nil) {
		c.c = x.res
		e.roots = append(e.roots, x.res)
		return c, x.st
	}
	r.fail("anchor", "socket.NewS101Client", r.at(f), "the constructor does not return")
	return nil, nil
}

// settings gives the client unknown settings.
func (c *client) settings(st *State) []*State {
	sts := []*State{st}
	for _, f := range c.r.p.methodsOf("socket.S101Client") {
		if !strings.HasPrefix(f.Name(), "Set") || f.Signature.Results().Len() > 0 {
			continue
		}
		var args []Val
		for i := 0; i < f.Signature.Params().Len(); i++ {
			v := c.e.fresh(f.Signature.Params().At(i).Type(), "setting")
			args = append(args, v)
			c.e.roots = append(c.e.roots, v)
		}
		var out []*State
		for _, s := range sts {
			for i, v := range args {
				if nillable(f.Signature.Params().At(i).Type()) {
					s.setNonNil(v)
				}
			}
			for _, x := range c.do(s, f.Name(), args...) {
				out = append(out, x.st)
			}
		}
		sts = out
	}
	return sts
}

// current is what the client holds as its connection.
func (c *client) current(st *State) Val {
	p, ok := st.ptr(c.c)
	if !ok {
		return nil
	}
	return st.nv(st.load(VPtr{p.O, p.P + c.flds[0]}, c.connT()))
}

// anyState makes what the client counts, and its queue, unknown.
func (c *client) anyState(st *State) {
	seen := map[ObjID]bool{}
	var walk func(p VPtr, t types.Type)
	walk = func(p VPtr, t types.Type) {
		if c.e.opaqueStruct(t) {
			st.weaken(st.wobj(p.O), p.P)
			return
		}
		switch x := t.Underlying().(type) {
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && (n.Obj().Name() == "S101Decoder" || n.Obj().Pkg() != nil && n.Obj().Pkg().Name() != "socket") {
				return
			}
			for i := 0; i < x.NumFields(); i++ {
				walk(VPtr{p.O, p.P + "." + x.Field(i).Name()}, x.Field(i).Type())
			}
		case *types.Pointer:
			if q, ok := st.ptr(st.load(p, t)); ok && st.objs[q.O] != nil && !seen[q.O] && q.P == "" {
				seen[q.O] = true
				walk(q, x.Elem())
			}
		case *types.Basic:
			if !strings.HasPrefix(p.P, ".mutex") {
				st.store(p, c.e.fresh(t, "any"), t)
			}
		}
	}
	if p, ok := st.ptr(c.c); ok {
		walk(p, c.r.p.typ("socket.S101Client"))
	}
}

func (c *client) connT() types.Type { return c.e.prog.ImportedPackage("net").Type("Conn").Type() }

func (c *client) setCurrent(st *State, v Val) {
	p, ok := st.ptr(c.c)
	if !ok {
		return
	}
	for _, f := range c.flds {
		st.store(VPtr{p.O, p.P + f}, v, c.connT())
	}
}

func (c *client) newConn(name string) Val {
	v := c.e.fresh(c.connT(), name)
	c.e.nonNil[v.(VSym).S] = true
	c.e.roots = append(c.e.roots, v)
	return v
}

// interfere are the states which other goroutines may leave when no lock is held.
func (c *client) interfere(st *State) []*State {
	out := []*State{st}
	if !c.race || gint(st, "locks") > 0 || gstr(st, "by") != "" {
		return out
	}
	cur := c.current(st)
	if cur == nil {
		return out
	}
	other := func(how string) {
		n := st.clone()
		if c.other == nil {
			c.other = c.newConn("otherconn")
		}
		for _, k := range c.conns {
			n.assume(VCond{"==", c.other, k}, false)
		}
		c.setCurrent(n, c.other)
		n.g["by"] = VStr{how}
		out = append(out, n)
	}
	if st.nilness(cur) == 1 {
		other("connected")
		return out
	}
	// disconnected, or disconnected and connected again
	n := st.clone()
	n.g[connKey(n, cur)] = intV(1)
	m := n.clone()
	c.setCurrent(n, VNil{})
	n.g["by"] = VStr{"disconnected"}
	out = append(out, n)
	st = m
	other("reconnected")
	return out
}

func (c *client) call(st *State, cc *CallCtx) ([]Exit, bool) {
	e := c.e
	switch {
	case strings.HasPrefix(cc.Name, "(*sync.Mutex).") || strings.HasPrefix(cc.Name, "(*sync.RWMutex)."):
		switch cc.Name[strings.LastIndex(cc.Name, ".")+1:] {
		case "Lock", "RLock":
			var out []Exit
			for _, s := range c.interfere(st) {
				gadd(s, "locks")
				out = append(out, Exit{s, nil})
			}
			return out, true
		case "Unlock", "RUnlock":
			if n := gint(st, "locks"); n > 0 {
				st.g["locks"] = intV(n - 1)
			}
			return ret(st, nil), true
		}
		return nil, false
	case cc.Name == "net.Dial" || cc.Name == "net.DialTimeout" || cc.Name == "net.DialTCP" || cc.Name == "(*net.Dialer).Dial" || cc.Name == "(*net.Dialer).DialContext":
		var out []Exit
		for _, s := range c.interfere(st) {
			n := s.clone()
			v := c.newConn(fmt.Sprintf("conn%d", len(c.conns)))
			c.conns = append(c.conns, v)
			for _, k := range append(c.conns, c.other) {
				if k != nil && vkey(k) != vkey(v) {
					s.assume(VCond{"==", k, v}, false)
				}
			}
			s.g["dialled"] = v
			gadd(s, "dials")
			delete(n.g, "dialled")
			n.g["dialfail"] = intV(1)
			out = append(out, Exit{s, VTuple{v, VNil{}}}, Exit{n, VTuple{VNil{}, c.errOp}})
		}
		return out, true
	case cc.Name == "errors.Is" || cc.Name == "os.IsTimeout":
		v := st.nv(cc.Args[0])
		timeout := cc.Name == "os.IsTimeout" || globalArg(cc.Site, 1) == "ErrDeadlineExceeded"
		switch vkey(v) {
		case vkey(c.errTimeout):
			return ret(st, boolV(timeout)), true
		case vkey(c.errOp), vkey(c.errEOF):
			if timeout {
				return ret(st, boolV(false)), true
			}
		}
		return nil, false
	}
	if cc.Fn == nil {
		return nil, false
	}
	switch n := e.short(cc.Fn); {
	case n == "socket.S101Decoder.DecodeBuffer" && c.onDecode != nil:
		c.onDecode(st, cc)
		return ret(st, nil), true
	case n == "socket.EncodeMessage" && c.abstract[n]:
		v := e.fresh(cc.resT(), "frames")
		st.setNonNil(v)
		return ret(st, v), true
	case n == "socket.S101FrameList.Size" && c.abstract["socket.EncodeMessage"]:
		return ret(st, VInt{e.newInt(intT, "size", 1, 1<<40)}), true
	case (n == "socket.S101FrameList.GetBytesAt") && c.abstract["socket.EncodeMessage"]:
		k := st.clone()
		return []Exit{{st, VTuple{st.freshBytes(e.newInt(intT, "framelen", 1, 1<<40), "frame"), VNil{}}}, {k, VTuple{VNil{}, e.errV(k)}}}, true
	case strings.HasPrefix(n, "embertree.") && c.abstract["embertree"] && isExported(cc.Fn):
		return e.results(st, cc.Sig, cc.Name, true), true
	case n == "net.OpError.Timeout" || n == "net.OpError.Temporary":
		return ret(st, boolV(sameVal(st, cc.Args[0], c.errTimeout.(VIface).V))), true
	}
	return nil, false
}

// globalArg is the name of the global variable whose value is argument i of a call.
func globalArg(in ssa.Instruction, i int) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || i >= len(ci.Common().Args) {
		return ""
	}
	if u, ok := ci.Common().Args[i].(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Name()
		}
	}
	return ""
}

// invoke watches the calls of methods of a connection.
func (c *client) invoke(st *State, cc *CallCtx) ([]Exit, bool) {
	e := c.e
	m := cc.Method.Name()
	if namedIs(cc.Recv, "net", "Error") || types.Identical(cc.Recv, types.Universe.Lookup("error").Type()) {
		if m == "Timeout" || m == "Temporary" {
			return ret(st, boolV(sameVal(st, cc.Args[0], c.errTimeout))), true
		}
		return nil, false
	}
	if !namedIs(cc.Recv, "net", "Conn") {
		if named, ok := types.Unalias(cc.Recv).(*types.Named); ok && named.Obj().Name() == "Logger" && named.Obj().Pkg() != nil && e.isRepoPkg(named.Obj().Pkg().Path()) {
			if m == "Error" || m == "Errorln" || m == "Warn" || m == "Warnln" {
				c.tally(st, "logged")
			}
			return e.results(st, cc.Sig, cc.Name, false), true
		}
		return nil, false
	}
	conn := st.nv(cc.Args[0])
	if c.onConn != nil {
		c.onConn(st, cc, conn, m)
	}
	ended := st.g[connKey(st, conn)] != nil
	switch m {
	case "Close":
		st.g[connKey(st, conn)] = intV(1)
		k := st.clone()
		return []Exit{{st, VNil{}}, {k, c.errOp}}, true
	case "Write":
		c.wrote++
		c.tally(st, "writes")
		if c.writes != nil {
			return c.writes(st, cc, conn), true
		}
		n := e.newInt(intT, "nwritten", 0, inf)
		st.assumeLE0(n.sub(st.lenOf(cc.Args[1])))
		k := st.clone()
		if !c.loop {
			k.g["writefail"] = intV(1)
		}
		out := []Exit{{k, VTuple{VInt{n}, c.errOp}}}
		if !ended {
			out = append(out, Exit{st, VTuple{VInt{st.lenOf(cc.Args[1])}, VNil{}}})
		}
		return out, true
	case "Read":
		buf := cc.Args[1]
		var out []Exit
		for _, s := range c.interfere(st) {
			ended := s.g[connKey(s, conn)] != nil
			s.havoc(buf)
			l := s.lenOf(buf)
			add := func(k *State, what string, err Val) {
				n := e.newInt(intT, "nread", 0, inf)
				k.assumeLE0(n.sub(l))
				k.g["read"] = VStr{what}
				k.g["readbuf"] = buf
				k.g["readn"] = intV(1)
				k.setAttr(c.rn, "#n", VInt{n})
				out = append(out, Exit{k, VTuple{VInt{n}, err}})
			}
			if !ended {
				add(s.clone(), "data", VNil{})
				add(s.clone(), "timeout", c.errTimeout)
			}
			add(s.clone(), "failed", c.errOp)
			add(s, "failed", c.errEOF)
		}
		return out, true
	}
	return e.results(st, cc.Sig, cc.Name, true), true
}

func (c *client) do(st *State, name string, args ...Val) []Exit {
	f := c.r.need("socket.S101Client." + name)
	if f == nil {
		return nil
	}
	if len(args) != f.Signature.Params().Len() {
		for i := len(args); i < f.Signature.Params().Len(); i++ {
			args = append(args, c.e.fresh(f.Signature.Params().At(i).Type(), f.Params[i+1].Name()))
		}
	}
	return c.e.call(st, f, append([]Val{c.c}, args...))
}

// connected are the states after a successful Connect.
func (c *client) connected(st *State) []*State {
	var out []*State
	for _, x := range c.do(st, "Connect") {
		if x.st.nilness(x.res) == 1 {
			out = append(out, x.st)
		}
	}
	return out
}

func (c *client) decoder(st *State) (Val, bool) {
	p, ok := st.ptr(c.c)
	dt := c.r.p.typ("socket.S101Decoder")
	if !ok || dt == nil {
		return nil, false
	}
	s := c.r.p.typ("socket.S101Client").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type(), types.NewPointer(dt)) {
			return st.load(VPtr{p.O, p.P + "." + f.Name()}, f.Type()), true
		}
		if types.Identical(f.Type(), dt) {
			return VPtr{p.O, p.P + "." + f.Name()}, true
		}
	}
	return nil, false
}

func crcOf(b []byte) uint16 {
	c := uint16(0xFFFF)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0x8408
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// s101Frame is the whole encoded frame of a message.
func s101Frame(b ...byte) []Seg {
	c := ^crcOf(b)
	out := byteSegs(lc(bBOF))
	for _, x := range append(append([]byte{}, b...), byte(c), byte(c>>8)) {
		if x >= bINV {
			out = append(out, byteSegs(lc(bCE))...)
			x ^= bXOR
		}
		out = append(out, byteSegs(lc(int64(x)))...)
	}
	return append(out, byteSegs(lc(bEOF))...)
}

func init() {
	checks["C21"] = check{run: (*Run).c21, expl: "Abstract interpretation of a connected client in an arbitrary state: keep-alive frames are given to its decoder, as a stream and as frames, and the calls of methods of the connection are followed on every path. The service loop which the client starts is analysed with every outcome of a read."}
	checks["C22"] = check{run: (*Run).c22, expl: "Typestate of the connection by abstract interpretation of the client's methods and of the service loop which it starts: every outcome of dial, read, write and close is followed, and wherever no lock is held another goroutine may have disconnected the client, or connected it again."}
}

func (r *Run) c21() {
	r.rule("answer: on every path on which a keep-alive request frame is handled on a connected client, exactly one Write is made, on the connection which Connect opened, with exactly the bytes of a keep-alive response frame")
	r.rule("report: if that Write fails, or there is no connection, handling the frame returns an error, and decoding it as a stream logs one")
	r.rule("silence: no Write is made while a keep-alive response frame is handled")
	r.rule("deliver: whatever the service loop reads is given to the decoder, with the buffer and the length of the read, before the next read")
	r.assumes("net.Conn and the standard library behave as documented")
	hf := r.need("socket.S101Decoder.HandleFrame")
	db := r.need("socket.S101Decoder.DecodeBuffer")
	if hf == nil || db == nil {
		return
	}
	answer := s101Frame(0, 0x0E, 2, 1)
	for _, cmd := range []byte{1, 2} {
		for _, stream := range []bool{false, true} {
			for _, conn := range []bool{true, false} {
				e := r.engine()
				deepEngine(e)
				name := fmt.Sprintf("keep-alive %s", map[byte]string{1: "request", 2: "response"}[cmd])
				rule := map[byte]string{1: "answer", 2: "silence"}[cmd]
				if stream {
					name += " in a stream"
				}
				if !conn {
					name += " without a connection"
				}
				ends := 0
				r.guard(name, e, func() {
					c, st := r.newClient(e, e.start())
					if c == nil {
						return
					}
					lg := e.fresh(r.p.typ("logger.Logger"), "logger")
					st.setNonNil(lg)
					e.roots = append(e.roots, lg)
					var sts []*State
					for _, x := range c.do(st, "SetLogger", lg) {
						sts = append(sts, x.st)
					}
					if conn {
						var n []*State
						for _, s := range sts {
							n = append(n, c.connected(s)...)
						}
						sts = n
					}
					c.onConn = func(st *State, cc *CallCtx, k Val, m string) {
						if m == "Close" {
							r.fail(rule, name, r.p.pos(cc.Site), "the connection is closed while the frame is handled")
						}
						if m != "Write" {
							return
						}
						if cmd == 2 {
							r.fail("silence", name, r.p.pos(cc.Site), "a keep-alive response is answered")
							return
						}
						d, _ := st.g["dialled"]
						r.oblige("answer", name, r.p.pos(cc.Site), d != nil && sameVal(st, d, k), "the answer is written to another connection")
						got := e.segsOf(st, cc.Args[1])
						r.oblige("answer", name, r.p.pos(cc.Site), sameSegs(st, got, answer), "the answer is "+segText(st, got)+" instead of "+segText(st, answer))
					}
					for _, s := range sts {
						dec, ok := c.decoder(s)
						if !ok {
							r.fail("anchor", "socket.S101Client", "", "the client has no decoder")
							return
						}
						c.anyState(s)
						s.havocData(dec)
						delete(s.g, "logged")
						delete(s.g, "writes")
						var ex []Exit
						if stream {
							f := s101Frame(0, 0x0E, cmd, 1)
							ex = e.call(s, db, []Val{dec, intV(int64(len(f))), s.bytesOf(f, "stream")})
						} else {
							b := []byte{0, 0x0E, cmd, 1}
							k := ^crcOf(b)
							ex = e.call(s, hf, []Val{dec, s.bytesOf(byteSegs(lc(0), lc(0x0E), lc(int64(cmd)), lc(1), lc(int64(k&255)), lc(int64(k>>8))), "frame")})
						}
						for _, x := range ex {
							ends++
							n := gint(x.st, "writes")
							if cmd == 1 && conn {
								r.oblige("answer", name, r.at(hf), n == 1, fmt.Sprintf("the request is answered %d times", n))
							}
							failed := x.st.g["writefail"] != nil || cmd == 1 && !conn
							bad := false
							if stream {
								bad = gint(x.st, "logged") > 0
							} else if ev, has := errOf(e, hf.Signature, x.res); has {
								bad = x.st.nilness(ev) == 2
								if !bad && !failed && x.st.nilness(ev) != 1 {
									bad = true
								}
							}
							if failed {
								r.oblige("report", name, r.at(hf), bad, "that the answer could not be sent is not reported")
							} else {
								r.oblige(rule, name, r.at(hf), !bad, "an error is reported though none occurred")
							}
							r.count("keepalive_paths", 1)
						}
					}
				})
				r.oblige(rule, name, r.at(hf), ends > 0, "handling the frame does not return")
			}
		}
	}
	r.serviceLoop("deliver", func(c *client) {
		c.onDecode = func(st *State, cc *CallCtx) {
			pos := r.p.pos(cc.Site)
			if st.g["readn"] == nil {
				r.fail("deliver", "service loop", pos, "bytes are decoded twice, or none were read")
				return
			}
			d := st.norm(e2lin(st, cc.Args[1]).sub(st.attrInt(c.rn, "#n")))
			r.oblige("deliver", "service loop", pos, isConst(d, 0), "another number of bytes is decoded than was read")
			a, ok1 := st.slice(cc.Args[2])
			b, ok2 := st.slice(st.g["readbuf"])
			same := ok1 && ok2 && a.O == b.O && a.P == b.P && isConst(st.norm(a.Off.sub(b.Off)), 0)
			r.oblige("deliver", "service loop", pos, same, "another buffer is decoded than was read into")
			delete(st.g, "readn")
			delete(st.g, "readbuf")
		}
		lost := func(st *State, in ssa.Instruction) {
			if st.g["readn"] != nil {
				r.oblige("deliver", "service loop", r.p.pos(in), st.upper(st.attrInt(c.rn, "#n")) <= 0, "bytes which were read are not decoded")
			}
			delete(st.g, "readn")
			delete(st.g, "readbuf")
		}
		c.onConn = func(st *State, cc *CallCtx, conn Val, m string) {
			if m == "Read" {
				lost(st, cc.Site)
			}
		}
	}, func(c *client, x Exit, own Val) {
		if x.st.g["readn"] != nil {
			r.oblige("deliver", "service loop", "", x.st.upper(x.st.attrInt(c.rn, "#n")) <= 0, "bytes which were read last are not decoded")
		}
	})
}

func e2lin(st *State, v Val) Lin { return st.norm(st.intOf(v)) }

// serviceLoop analyses what Connect starts.
func (r *Run) serviceLoop(rule string, prep func(c *client), end func(c *client, x Exit, own Val)) {
	e := r.engine()
	name := "service loop"
	ends := 0
	r.guard(name, e, func() {
		c, st := r.newClient(e, e.start())
		if c == nil {
			return
		}
		sts := c.connected(st)
		if len(c.loops) == 0 || len(sts) == 0 {
			r.fail("anchor", "socket.S101Client.Connect", "", "connecting starts no service loop")
			return
		}
		c.abstract["socket.EncodeMessage"] = true
		c.abstract["embertree"] = true
		c.loop = true
		prep(c)
		for _, s := range sts {
			c.anyState(s)
			own := s.g["dialled"]
			for _, l := range c.loops {
				if l.st.g["dialled"] == nil || vkey(l.st.g["dialled"]) != vkey(own) {
					continue
				}
				f, ok := l.fn.(VFunc)
				if !ok {
					continue
				}
				delete(s.g, "locks")
				e.roots = append(e.roots, l.args...)
				for _, x := range e.callFunc(s.clone(), l.in, f, l.args) {
					ends++
					r.count("loop_ends", 1)
					end(c, x, own)
				}
			}
		}
	})
	r.oblige(rule, name, "", ends > 0, "the service loop never ends")
}

func (r *Run) c22() {
	r.rule("connect: after Connect returned no error the client is connected, one service loop was started for the connection which was opened, and that connection is open; after an error nothing is started, no connection is left open and the client is as connected as before")
	r.rule("disconnect: Disconnect of a connected client closes the connection and leaves it not connected, so that it can connect again; without a connection it is an error")
	r.rule("race: a Connect which another goroutine overtook is refused, and closes what it opened")
	r.rule("loop: the service loop does not read again from a connection which failed or was closed; when it ends its connection is closed and is no longer the client's; it neither ends nor drops the connection after a read which succeeded or timed out; another connection made meanwhile is left alone")
	r.rule("send: neither the service loop nor a keep-alive frame makes the client fail when there is no connection")
	r.assumes("net.Conn and the standard library behave as documented; a closed or failed connection makes every later Read return an error which is not a timeout")
	r.connectStates()
	r.serviceLoop("loop", func(c *client) {
		c.race = true
		e := c.e
		c.onDecode = func(st *State, cc *CallCtx) {}
		e.onPanic = func(st *State, in ssa.Instruction, kind, what string) {
			r.fail("send", "service loop", r.p.pos(in), "the service loop can crash: "+what)
		}
		c.onConn = func(st *State, cc *CallCtx, conn Val, m string) {
			own := st.g["dialled"]
			if own == nil {
				return
			}
			switch m {
			case "Read":
				r.oblige("loop", "service loop", r.p.pos(cc.Site), gstr(st, "read") != "failed", "the loop reads again from a connection which failed")
				r.oblige("loop", "service loop", r.p.pos(cc.Site), sameVal(st, conn, own), "the loop reads from another connection than its own")
			case "Close":
				r.oblige("loop", "service loop", r.p.pos(cc.Site), sameVal(st, conn, own), "the loop closes another connection than its own")
				r.oblige("loop", "service loop", r.p.pos(cc.Site), gstr(st, "read") == "failed" || gstr(st, "by") != "", "the loop closes its connection though no read failed")
			}
		}
	}, func(c *client, x Exit, own Val) {
		st := x.st
		cur := c.current(st)
		by := gstr(st, "by")
		r.oblige("loop", "service loop", "", st.g[connKey(st, own)] != nil, "the loop ends and leaves its connection open")
		switch by {
		case "reconnected", "connected":
			r.oblige("loop", "service loop", "", cur != nil && c.other != nil && sameVal(st, cur, c.other), "the end of one connection makes the client forget another one")
		default:
			r.oblige("loop", "service loop", "", cur != nil && st.nilness(cur) == 1, "the loop ends and the client still reports being connected")
		}
	})
}

func (r *Run) connectStates() {
	type step struct {
		op string
	}
	tests := []struct {
		name string
		ops  string // C connect ok, c connect failing to dial, D disconnect, R connect overtaken by another one
	}{
		{"new client", ""}, {"connect", "C"}, {"failed connect", "c"}, {"connect after a failed one", "cC"},
		{"connect twice", "CC"}, {"failed second connect", "Cc"}, {"disconnect", "CD"}, {"disconnect without connection", "D"},
		{"disconnect twice", "CDD"}, {"connect again", "CDC"}, {"disconnect again", "CDCD"}, {"failed connect after disconnect", "CDc"}, {"overtaken connect", "R"}, {"connect after loss", "CLC"}, {"disconnect after loss", "CLD"}, {"connect twice after loss", "CLCC"},
	}
	for _, t := range tests {
		e := r.engine()
		name := t.name
		r.guard(name, e, func() {
			c, st := r.newClient(e, e.start())
			if c == nil {
				return
			}
			e.onPanic = func(st *State, in ssa.Instruction, kind, what string) {
				r.fail("connect", name, r.p.pos(in), "the client can crash: "+what)
			}
			c.onDecode = func(st *State, cc *CallCtx) {}
			is := func(st *State) (bool, bool) {
				for _, x := range c.do(st.clone(), "IsConnected") {
					t, f := x.st.clone().assume(x.res, true), x.st.clone().assume(x.res, false)
					return t, t != f
				}
				return false, false
			}
			sts := c.settings(st)
			model := Val(nil) // the connection the client should have
			check := func(s *State, rule string) {
				on, known := is(s)
				r.oblige(rule, name, "", known && on == (s.g["model"] != nil), map[bool]string{true: "the client does not report being connected", false: "the client reports being connected"}[s.g["model"] != nil])
				for _, k := range c.conns {
					if s.g["seen:"+vkey(k)] == nil {
						continue
					}
					closed := s.g[connKey(s, k)] != nil
					live := s.g["model"] != nil && vkey(s.g["model"]) == vkey(k)
					r.oblige(rule, name, "", closed != live, map[bool]string{true: "the client's connection is closed", false: "a connection is left open"}[closed])
				}
				r.count("connection_states", 1)
			}
			_ = model
			for _, s := range sts {
				check(s, "connect")
			}
			for _, op := range t.ops {
				var next []*State
				for _, s := range sts {
					had := s.g["model"] != nil
					delete(s.g, "go")
					delete(s.g, "dialled")
					delete(s.g, "dialfail")
					switch op {
					case 'C', 'c', 'R':
						c.race = op == 'R'
						for _, x := range c.do(s, "Connect") {
							k := x.st
							d := k.g["dialled"]
							if d != nil {
								k.g["seen:"+vkey(d)] = intV(1)
							}
							if op == 'R' && gstr(k, "by") == "" {
								continue
							}
							if (k.g["dialfail"] != nil) != (op == 'c') && !had {
								continue
							}
							want := op == 'C' && !had
							got := k.nilness(x.res)
							pos := ""
							if want {
								r.oblige("connect", name, pos, got == 1, "a successful connect returns an error")
								r.oblige("connect", name, pos, gint(k, "go") == 1, fmt.Sprintf("%d service loops are started for a connection", gint(k, "go")))
								if d != nil {
									k.g["model"] = d
								}
							} else {
								rule := "connect"
								if op == 'R' {
									rule = "race"
									k.g["model"] = c.other
								}
								r.oblige(rule, name, pos, got == 2, "a connect which fails returns no error")
								r.oblige(rule, name, pos, gint(k, "go") == 0, "a service loop is started without a new connection")
							}
							c.race = false
							if op == 'R' {
								check(k, "race")
							} else {
								check(k, "connect")
							}
							next = append(next, k)
						}
						c.race = false
					case 'D':
						for _, x := range c.do(s, "Disconnect") {
							if !had {
								r.oblige("disconnect", name, "", x.st.nilness(x.res) == 2, "disconnecting without a connection returns no error")
							}
							delete(x.st.g, "model")
							check(x.st, "disconnect")
							next = append(next, x.st)
						}
					case 'L':
						// the peer closes the connection: the loop runs until it ends
						m := s.g["model"]
						for _, l := range c.loops {
							if m == nil || l.st.g["dialled"] == nil || vkey(l.st.g["dialled"]) != vkey(m) {
								continue
							}
							f, ok := l.fn.(VFunc)
							if !ok {
								continue
							}
							c.abstract["socket.EncodeMessage"], c.abstract["embertree"] = true, true
							e.roots = append(e.roots, l.args...)
							for _, x := range e.callFunc(s.clone(), l.in, f, l.args) {
								delete(x.st.g, "model")
								delete(x.st.g, "read")
								delete(x.st.g, "readbuf")
								delete(x.st.g, "readn")
								check(x.st, "loop")
								next = append(next, x.st)
							}
						}
						if len(next) > 4 {
							next = next[:4]
						}
					}
				}
				sts = next
			}
			r.oblige("connect", name, "", len(sts) > 0, "the sequence of calls never completes")
		})
	}
}
