package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// readerMethod: the call is of an exported method of the BER reader, or of its constructor.
func (e *Engine) readerMethod(cc *CallCtx) string {
	return e.asnMethod(cc, "ASNReader")
}

func (e *Engine) writerMethod(cc *CallCtx) string {
	return e.asnMethod(cc, "ASNWriter")
}

func (e *Engine) asnMethod(cc *CallCtx, typ string) string {
	f := cc.Fn
	if f == nil || !isExported(f) {
		return ""
	}
	recv := f.Signature.Recv()
	if recv == nil {
		if f.Name() == "New"+typ && f.Pkg == e.pkg("asn1") {
			return f.Name()
		}
		return ""
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Name() != typ || n.Obj().Pkg().Path() != e.modPath()+"/asn1" {
		return ""
	}
	return f.Name()
}

// anyReader models the BER reader by what its type alone promises: each read may succeed with any
// value or fail, a reader is returned whenever there is no error.
type anyReader struct {
	e        *Engine
	pre      func(st *State, cc *CallCtx, name string)
	consume  func(st *State, cc *CallCtx, name string)
	failed   func(st *State, cc *CallCtx, name string)
	read     func(v Val)
	onNested func(f *ssa.Function)
	inline   map[*ssa.Function]bool
	modular  bool // calls of exported decoders are taken by their contract: they may fail or succeed, and change what they are called on
}

// decoder: an exported function or method of the module which decodes from a BER reader.
func (e *Engine) decoder(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil && f.Parent() == nil && isExported(f) && f.Pkg != nil && e.isRepoPkg(f.Pkg.Pkg.Path()) && f.Pkg != e.pkg("asn1") && takesPtrTo(f, "asn1.ASNReader")
}

func (m *anyReader) nested(st *State, cc *CallCtx) []Exit {
	e := m.e
	if m.onNested != nil {
		m.onNested(cc.Fn)
	}
	if cc.Fn.Signature.Recv() != nil && isPtr(cc.Fn.Signature.Recv().Type()) && !e.checkNil(st, cc.Site, cc.Args[0], "receiver of "+cc.Fn.Name()) {
		return nil
	}
	for i, a := range cc.Args {
		if !strings.HasSuffix(cc.Fn.Params[i].Type().String(), "asn1.ASNReader") {
			st.havoc(a)
		}
	}
	return m.results(st, cc, cc.Fn.Name())
}

func (m *anyReader) call(st *State, cc *CallCtx) ([]Exit, bool) {
	e := m.e
	name := e.readerMethod(cc)
	if name == "" {
		if m.modular && len(e.stack) > 0 && e.decoder(cc.Fn) && !m.inline[cc.Fn] {
			return m.nested(st, cc), true
		}
		return nil, false
	}
	if cc.Fn.Signature.Recv() != nil && !e.checkNil(st, cc.Site, cc.Args[0], "receiver of ASNReader."+name) {
		return nil, true
	}
	if m.pre != nil {
		m.pre(st, cc, name)
	}
	switch name {
	case "Len", "Offset", "TopOffset":
		l := e.newInt(intT, name, 0, 1<<40)
		return ret(st, VInt{l}), true
	case "NewASNReader":
		v := e.fresh(cc.resT(), "reader")
		e.nonNil[v.(VSym).S] = true
		return ret(st, v), true
	case "CheckSequenceEnd":
		n := st.clone()
		x := st.clone()
		err := e.fresh(cc.Sig.Results().At(1).Type(), "err")
		x.setNonNil(err)
		if m.consume != nil {
			m.consume(st, cc, name)
		}
		if m.failed != nil {
			m.failed(x, cc, name)
		}
		return []Exit{{st, VTuple{boolV(true), VNil{}}}, {n, VTuple{boolV(false), VNil{}}}, {x, VTuple{boolV(false), err}}}, true
	}
	return m.results(st, cc, name), true
}

func (m *anyReader) results(st *State, cc *CallCtx, name string) []Exit {
	e := m.e
	ex := e.results(st, cc.Sig, name, true)
	if len(ex) == 1 {
		return ex
	}
	if m.consume != nil && name != "Peek" {
		m.consume(ex[0].st, cc, name)
	}
	if m.failed != nil {
		m.failed(ex[1].st, cc, name)
	}
	res := cc.Sig.Results()
	for i := 0; i < res.Len(); i++ {
		v := resAt(cc.Sig, ex[0].res, i)
		if e.isErrT(res.At(i).Type()) {
			continue
		}
		if mustBeThere(e, res.At(i).Type()) {
			ex[0].st.setNonNil(v)
		}
		if m.read != nil {
			m.read(v)
		}
	}
	return ex
}

// mustBeThere: a result of this type is not nil when there is no error (rule not-nil of C01).
func mustBeThere(e *Engine, t types.Type) bool {
	return !e.isErrT(t) && (isPtr(t) || e.elemNonNil(t))
}

// isLogger: a call of the logger of the module, which does nothing here.
func (e *Engine) isLogger(cc *CallCtx) bool {
	lt := e.typ("logger.Logger")
	return cc.Recv != nil && lt != nil && types.Identical(cc.Recv, lt)
}

func takesPtrTo(f *ssa.Function, name string) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if strings.HasSuffix(ps.At(i).Type().String(), name) && isPtr(ps.At(i).Type()) {
			return true
		}
	}
	return false
}
