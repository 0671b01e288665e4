package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Entry is an exported function or method of the repository.
type Entry struct {
	fn   *ssa.Function
	recv types.Type // receiver type (nil: function)
	name string     // pkg.Type.Method or pkg.Func
	meth string
	decl bool // declared on recv itself (not promoted)
}

func pkgShort(p *types.Package) string {
	s := strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
	return s
}

// entries enumerates the exported API.
func (w *World) entries() []*Entry {
	var out []*Entry
	for _, sp := range w.spkgs {
		if sp.Pkg.Name() == "main" {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			switch x := o.(type) {
			case *types.Func:
				if !x.Exported() {
					continue
				}
				if f := w.prog.FuncValue(x); f != nil && f.Signature.TypeParams().Len() == 0 {
					out = append(out, &Entry{fn: f, name: pkgShort(sp.Pkg) + "." + n, meth: n, decl: true})
				}
			case *types.TypeName:
				nt, ok := x.Type().(*types.Named)
				if !ok || x.IsAlias() || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
					continue
				}
				for _, e := range w.methodsOf(nt) {
					if x.Exported() || true {
						out = append(out, e)
					}
				}
			}
		}
	}
	return out
}

// methodsOf lists the exported methods callable on a *T.
func (w *World) methodsOf(nt *types.Named) []*Entry {
	var out []*Entry
	pt := types.NewPointer(nt)
	ms := w.prog.MethodSets.MethodSet(pt)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		f := sel.Obj().(*types.Func)
		if !f.Exported() {
			continue
		}
		var fn *ssa.Function
		rt := types.Type(pt)
		direct := len(sel.Index()) == 1
		if direct {
			fn = w.prog.FuncValue(f)
			if fn != nil && fn.Signature.Recv() != nil {
				rt = fn.Signature.Recv().Type()
			}
		} else {
			fn = w.prog.MethodValue(sel)
		}
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		out = append(out, &Entry{fn: fn, recv: rt, name: pkgShort(nt.Obj().Pkg()) + "." + nt.Obj().Name() + "." + f.Name(), meth: f.Name(), decl: direct})
	}
	return out
}

func (e *Entry) typeName() string {
	if e.recv == nil {
		return ""
	}
	return strings.TrimPrefix(shortType(e.recv), "*")
}

// Scen is a run under construction.
type Scen struct {
	a   *An
	st  *State
	top *Ctx

	mode map[string]*Val
	cold bool // warm starts are switched off
}

func newScen(w *World) *Scen {
	a := newAn(w)
	s := &Scen{a: a, st: &State{}, top: &Ctx{kids: map[ctxKey]*Ctx{}}}
	return s
}

// inits runs the package initialisers of the repository so that package level
// tables have their contents.
func (s *Scen) inits() {
	a := s.a
	sv := a.noEvents
	a.noEvents = true
	done := map[*types.Package]bool{}
	var rec func(p *types.Package)
	rec = func(p *types.Package) {
		if done[p] || !a.w.isRepo[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			rec(q)
		}
		sp := a.w.prog.Package(p)
		f := sp.Func("init")
		if f == nil {
			return
		}
		if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
			s.st = a.set(s.st, a.global(g), "", types.Typ[types.Bool], boolVal(false))
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				t := g.Type().(*types.Pointer).Elem()
				for _, l := range leaves(t) {
					s.st = a.set(s.st, a.global(g), l.path, l.typ, zeroVal(l.typ))
				}
			}
		}
		_, st := a.call(s.top, nil, "init:"+p.Path(), f, nil, nil, s.st)
		if st != nil {
			s.st = st
		}
	}
	for _, sp := range a.w.spkgs {
		rec(sp.Pkg)
	}
	a.noEvents = sv
}

// param builds a symbolic argument.
func (s *Scen) param(name string, t types.Type) *Val {
	a := s.a
	if isAgg(t) {
		o := a.sym(name, t)
		v := &Val{agg: map[string]*Val{}}
		for _, l := range leaves(t) {
			v.agg[l.path] = a.get(s.st, o, l.path, l.typ)
		}
		return v
	}
	if !isRefType(t) {
		return scalar(a.label(LInit, 0, name))
	}
	var ct types.Type
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ct = u.Elem()
	case *types.Interface:
		ct = nil
	default:
		ct = t
	}
	o := a.sym(name, ct)
	switch s.mode[name] {
	case isUnset:
		return zeroVal(t)
	case isSet:
		return ref(Addr{o, ""})
	}
	if a.seeded && types.IsInterface(t) && !strings.HasPrefix(shortType(t), "mat.") {
		return ref(Addr{o, ""}) // a splitter or source that is not given is not seeded
	}
	return &Val{refs: []Addr{{o, ""}}, nl: mayNil | mayNon}
}

// receiver builds the receiver argument.
func (s *Scen) receiver(t types.Type) (*Val, *Obj) {
	a := s.a
	if p, ok := t.Underlying().(*types.Pointer); ok {
		o := a.sym("recv", p.Elem())
		return ref(Addr{o, ""}), o
	}
	o := a.sym("recv", t)
	if isAgg(t) {
		v := &Val{agg: map[string]*Val{}}
		for _, l := range leaves(t) {
			v.agg[l.path] = a.get(s.st, o, l.path, l.typ)
		}
		return v, o
	}
	if isRefType(t) {
		return &Val{refs: []Addr{{o, ""}}, nl: mayNon | mayNil}, o
	}
	return scalar(a.label(LInit, 0, "recv")), o
}

// args builds receiver and parameters of an entry.
func (s *Scen) args(e *Entry) []*Val {
	var out []*Val
	if e.recv != nil {
		v, _ := s.receiver(e.recv)
		out = append(out, v)
	}
	sig := e.fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		out = append(out, s.param(paramName(p, i), p.Type()))
	}
	return out
}

func paramName(p *types.Var, i int) string {
	if p.Name() == "" || p.Name() == "_" {
		return fmt.Sprintf("arg%d", i)
	}
	return p.Name()
}

// run calls a function in the current state.
func (s *Scen) run(tag string, f *ssa.Function, args []*Val) (*Val, bool) {
	r, st := s.a.call(s.top, nil, tag, f, args, nil, s.st)
	if st == nil {
		return bottom, false
	}
	s.st = st
	return r, true
}

// findMethod looks a method up on *T (or T).
func (w *World) findMethod(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
