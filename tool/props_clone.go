package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var cloneMethods = []string{"PredicterClone", "TransformerClone", "SplitterClone", "SourceClone", "CloneWithTheta"}

// mutators are the methods that may change an estimator, splitter or source.
var mutators = []string{"Fit", "PartialFit", "FitTransform", "Split", "Seed", "Uint64", "Step", "Unmarshal", "SetParams"}

type cloneCase struct {
	t    *types.Named
	meth *ssa.Function
	name string
	mn   string
	recv types.Type
}

func (w *World) cloneCases() []cloneCase {
	var out []cloneCase
	for _, n := range w.named {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		pt := types.NewPointer(n)
		for _, m := range cloneMethods {
			ms := w.prog.MethodSets.MethodSet(pt)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() != m {
					continue
				}
				f := w.prog.MethodValue(ms.At(i))
				if f == nil || len(f.Blocks) == 0 {
					continue
				}
				out = append(out, cloneCase{n, f, pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name(), m, pt})
			}
		}
	}
	return out
}

// hasOwn reports whether a method is reached without going through a nil
// embedded interface: its promoted path consists of struct fields only.
func (w *World) viaInterface(t types.Type, name string) (string, bool) {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() != name || len(sel.Index()) == 1 {
			continue
		}
		cur := t
		for _, ix := range sel.Index()[:len(sel.Index())-1] {
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
			st, ok := cur.Underlying().(*types.Struct)
			if !ok {
				return "", false
			}
			f := st.Field(ix)
			cur = f.Type()
			if types.IsInterface(cur) {
				return f.Name(), true
			}
		}
	}
	return "", false
}

func ifaceHas(it *types.Interface, m string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == m {
			return true
		}
	}
	return false
}

// everSet: some function of the repository stores into the field.
func (w *World) everSet(f *types.Var) bool {
	for _, fn := range w.repoFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						if s.Field(fa.Field) == f {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// reach computes the objects reachable from a value in a state.
func (a *An) reach(st *State, v *Val) map[*Obj]string {
	byObj := map[*Obj][]uint32{}
	for i := range a.cinfo {
		byObj[a.cinfo[i].o] = append(byObj[a.cinfo[i].o], uint32(i))
	}
	seen := map[*Obj]string{}
	var visit func(v *Val, path string)
	visit = func(v *Val, path string) {
		for _, ad := range v.refs {
			if _, ok := seen[ad.o]; ok {
				continue
			}
			seen[ad.o] = path
			if ad.o.fn != nil && ad.o.fn.recv != nil {
				visit(ad.o.fn.recv, path) // what a method value is bound to
			}
			for _, c := range byObj[ad.o] {
				ci := a.cinfo[c]
				if ad.p != "" && !strings.HasPrefix(ci.p, ad.p) {
					continue
				}
				if x := st.heap.get(c); x != nil {
					visit(x, path+ci.p)
				} else if (ad.o.kind == OSym) && ci.typ != nil && isRefType(ci.typ) {
					visit(a.initial(ci.o, ci.p, ci.typ), path+ci.p)
				}
			}
		}
		for _, x := range v.agg {
			visit(x, path)
		}
		for _, x := range v.tup {
			visit(x, path)
		}
	}
	visit(v, "")
	return seen
}

// srcAssume: sources of randomness can be cloned.
func (s *Scen) srcAssume() {
	s.a.assumeOK = func(o *Obj, t types.Type) int {
		if strings.HasSuffix(shortType(t), "SourceCloner") {
			return 1
		}
		return 0
	}
}

// cloneAssume: sources of randomness are set and can be cloned.
func (s *Scen) cloneAssume() {
	s.srcAssume()
	prev := s.a.assume
	s.a.assume = func(o *Obj, p string, t types.Type) *Val {
		if types.IsInterface(t) && strings.HasSuffix(lastField(o.path+p), "RandomState") && o.kind == OSym {
			sv := s.a.assume
			s.a.assume = nil
			v := *s.a.initial(o, p, t)
			s.a.assume = sv
			v.nl = mayNon
			return &v
		}
		if prev != nil {
			return prev(o, p, t)
		}
		return nil
	}
}

// dynRecv gives the concrete receivers a value may denote.
func (a *An) dynRecv(v *Val) []types.Type {
	var out []types.Type
	for _, ad := range v.refs {
		if t := a.dynType(ad); t != nil {
			out = append(out, t)
		}
	}
	return out
}

// callMethod calls a named method on each concrete object a value denotes.
func (s *Scen) callMethod(tag string, v *Val, name string, mk func(i int, p *types.Var) *Val) (*Val, bool) {
	a := s.a
	var res *Val = bottom
	var out *State
	st0 := s.st
	found := false
	for _, ad := range v.refs {
		dt := a.dynType(ad)
		if dt == nil {
			continue
		}
		f := a.w.findMethod(dt, name)
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		found = true
		var args []*Val
		if ad.o.kind == OBox {
			sv := a.noEvents
			a.noEvents = true
			cc := &callCtx{a: a, st: st0}
			args = append(args, cc.loadAt(ad, dt, LS{}))
			a.noEvents = sv
		} else {
			args = append(args, &Val{refs: []Addr{ad}, nl: mayNon})
		}
		sig := f.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			args = append(args, mk(i, sig.Params().At(i)))
		}
		s.st = st0
		r, ok := s.run(fmt.Sprintf("%s%d", tag, ad.o.id), f, args)
		if ok {
			res = join(res, r)
			out = a.joinState(out, s.st)
		}
	}
	if out == nil {
		s.st = st0
		return bottom, false
	}
	s.st = out
	return res, found
}

func propCloneIndep(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"clone-then-mutate: after y := x.clone(), no mutating method called on y stores into memory reachable from x",
		"mutate-original: after y := x.clone(), no mutating method called on x stores into memory reachable from y",
		"kernel-clone: cloning a kernel with new parameters stores nothing into the original, and the clone reaches no storage of the original",
	}
	parallel(w.cloneCases(), func(cc cloneCase) {
		if cc.mn == "CloneWithTheta" {
			r.kernelShare(w, cc)
			return
		}
		for _, mut := range mutators {
			if w.findMethod(cc.recv, mut) == nil {
				continue
			}
			if _, via := w.viaInterface(cc.recv, mut); via {
				continue
			}
			for dir := 0; dir < 2; dir++ {
				r.ob(1)
				r.unit("clone scenarios", 1)
				r.caseSplit(map[string]types.Type{"recv": cc.recv}, func(r *Result, mode map[string]*Val) {
					s := newScen(w)
					s.assumptions()
					s.cloneAssume()
					s.inMode(mode)
					s.inits()
					a := s.a
					a.funcSet = true // if not, there is nothing to share
					recv, ro := s.receiver(cc.recv)
					var args = []*Val{recv}
					for i := 0; i < cc.meth.Signature.Params().Len(); i++ {
						p := cc.meth.Signature.Params().At(i)
						args = append(args, s.param("clone_"+paramName(p, i), p.Type()))
					}
					cl, ok := s.run("clone", cc.meth, args)
					if !ok {
						return
					}
					name := fmt.Sprintf("%s.%s/%s", cc.name, cc.mn, mut)
					mk := func(i int, p *types.Var) *Val { return s.param("arg_"+paramName(p, i), p.Type()) }
					if dir == 0 {
						a.onWrite = append(a.onWrite, func(x *Access) {
							r.unit("stores examined", 1)
							if x.o.kind == OSym && x.o.root == "recv" {
								f := fieldKey(cc.recv, x.o.path+x.p)
								r.add(&Finding{Rule: "clone-then-mutate", Key: cc.name + ":" + f, Pos: w.posOf(x.instr),
									Msg: fmt.Sprintf("%s on the result of %s.%s may modify the original (%s%s)", mut, cc.name, cc.mn, x.o.name(), x.p), Path: w.path(x.ctx, x.instr)})
							}
						})
						s.callMethod("mut", cl, mut, mk)
					} else {
						shared := a.reach(s.st, cl)
						a.onWrite = append(a.onWrite, func(x *Access) {
							r.unit("stores examined", 1)
							p, ok := shared[x.o]
							// storage below shared memory that nothing had looked at yet
							for q := x.o; !ok && q != nil && q.up != nil; q = q.up {
								if p, ok = shared[q.up]; ok && q.up == ro {
									ok = false
									break
								}
							}
							if !ok || x.o.kind == OSym && x.o.root != "recv" {
								return
							}
							f := fieldKey(cc.recv, p)
							if f == "" || x.o == ro {
								f = fieldKey(cc.recv, x.o.path+x.p)
							}
							r.add(&Finding{Rule: "mutate-original", Key: cc.name + ":" + f, Pos: w.posOf(x.instr),
								Msg: fmt.Sprintf("after %s.%s, %s on the original may modify the clone (its %s)", cc.name, cc.mn, mut, p), Path: w.path(x.ctx, x.instr)})
						})
						s.callMethod("mut", recv, mut, mk)
					}
					r.absorb(a, name)
				})
			}
		}
	})
	return r
}

// kernelRun clones a kernel with new parameters.
func (w *World) kernelRun(cc cloneCase, write func(*Access)) (*Scen, *Obj, *Val, bool) {
	s := newScen(w)
	s.assumptions()
	s.cloneAssume()
	s.a.bareElems = true
	s.inits()
	rv, o := s.receiver(cc.recv)
	if write != nil {
		s.a.onWrite = append(s.a.onWrite, write)
	}
	cl, ok := s.run("clone", cc.meth, []*Val{rv, s.param("in_theta", cc.meth.Signature.Params().At(0).Type())})
	return s, o, cl, ok
}

// kernelClone: a kernel cloned with new parameters has the type of the original,
// these parameters, and the original's other settings.
func (r *Result) kernelClone(w *World, cc cloneCase) {
	if w.findMethod(cc.recv, "Fit") != nil {
		return // an estimator that has a kernel
	}
	r.ob(1)
	if f, via := w.viaInterface(cc.recv, cc.mn); via {
		r.add(&Finding{Rule: "clone-type", Key: cc.name, Pos: w.pos(cc.t.Obj().Pos()),
			Msg: fmt.Sprintf("%s has no %s of its own: what is returned is a clone of the embedded %s", cc.name, cc.mn, f)})
		return
	}
	s, recv, cl, ok := w.kernelRun(cc, nil)
	a := s.a
	r.absorb(a, cc.name)
	if !ok {
		r.add(&Finding{Rule: "clone-type", Key: cc.name, Pos: w.pos(cc.meth.Pos()), Msg: cc.name + "." + cc.mn + " never returns"})
		return
	}
	var ads []Addr
	for _, ad := range cl.refs {
		dt := a.dynType(ad)
		if dt != nil && (types.Identical(dt, cc.recv) || types.Identical(dt, cc.t)) {
			ads = append(ads, ad)
			continue
		}
		nm := "an object of unknown type"
		if dt != nil {
			nm = shortType(dt)
		}
		r.add(&Finding{Rule: "clone-type", Key: cc.name, Pos: w.pos(cc.meth.Pos()), Msg: fmt.Sprintf("%s.%s returns %s", cc.name, cc.mn, nm)})
	}
	fromTheta := func(ls LS) bool { return a.hasInitUnder(ls, "in_theta") }
	set, nested := false, false
	for _, l := range leaves(cc.t) {
		r.ob(1)
		r.unit("fields compared", 1)
		for _, ad := range ads {
			v := a.get(s.st, ad.o, ad.p+l.path, l.typ)
			bad := ""
			if isRefType(l.typ) {
				bad = s.keeps(recv, ad, l)
				set = set || fromTheta(a.reachLS(s.st, v))
				if types.IsInterface(l.typ) {
					nested = true
				}
			} else {
				set = set || fromTheta(v.ls)
				if !fromTheta(v.ls) && !v.ls.has(a.lt.id(Label{LInit, 0, "recv" + l.path})) {
					bad = "holds neither the original's value nor a new parameter"
				}
			}
			if bad != "" {
				r.add(&Finding{Rule: "clone-field", Key: cc.name + ":" + strings.TrimPrefix(l.path, "."), Pos: w.pos(cc.meth.Pos()),
					Msg: fmt.Sprintf("in the result of %s.%s the field %s %s", cc.name, cc.mn, strings.TrimPrefix(l.path, "."), bad)})
			}
		}
	}
	if len(ads) > 0 && !set && !nested {
		r.add(&Finding{Rule: "clone-theta", Key: cc.name, Pos: w.pos(cc.meth.Pos()),
			Msg: fmt.Sprintf("the result of %s.%s does not have the parameters it is given", cc.name, cc.mn)})
	}
}

// kernelShare: cloning a kernel leaves it as it is, and the two have no storage in common.
func (r *Result) kernelShare(w *World, cc cloneCase) {
	if _, via := w.viaInterface(cc.recv, cc.mn); via || !cc.t.Obj().Exported() {
		return
	}
	r.ob(2)
	r.unit("clone scenarios", 1)
	s, ro, cl, ok := w.kernelRun(cc, func(x *Access) {
		r.unit("stores examined", 1)
		if x.o.kind == OSym && x.o.root == "recv" {
			r.add(&Finding{Rule: "kernel-clone", Key: cc.name + ":" + fieldKey(cc.recv, x.o.path+x.p), Pos: w.posOf(x.instr),
				Msg: fmt.Sprintf("%s.%s sets the parameters of the original (%s%s)", cc.name, cc.mn, x.o.name(), x.p), Path: w.path(x.ctx, x.instr)})
		}
	})
	r.absorb(s.a, cc.name)
	if !ok {
		return
	}
	for o, p := range s.a.reach(s.st, cl) {
		if o.kind == OSym && o.root == "recv" && (o == ro || !strings.Contains(o.path, "#")) {
			r.add(&Finding{Rule: "kernel-clone", Key: cc.name + ":" + fieldKey(cc.recv, o.path), Pos: w.pos(cc.meth.Pos()),
				Msg: fmt.Sprintf("the result of %s.%s shares its %s with the original, so setting the parameters of one changes the other", cc.name, cc.mn, p)})
		}
	}
}

// fitWrites lists the fields whose content after Fit owes nothing to their content before.
func (w *World) fitWrites(cc cloneCase) map[string]bool {
	out := map[string]bool{}
	if w.findMethod(cc.recv, "Fit") == nil {
		return out
	}
	if _, via := w.viaInterface(cc.recv, "Fit"); via {
		return out
	}
	s := newScen(w)
	s.assumptions()
	s.cloneAssume()
	s.cold = true
	s.inits()
	a := s.a
	rv, o := s.receiver(cc.recv)
	if _, ok := s.callMethod("m", rv, "Fit", func(i int, p *types.Var) *Val { return s.param("arg_"+paramName(p, i), p.Type()) }); !ok {
		return out
	}
	for _, l := range leaves(cc.t) {
		v := a.get(s.st, o, l.path, l.typ)
		if isRefType(l.typ) {
			out[l.path] = !sharesRef(v, a.initial(o, l.path, l.typ))
		} else {
			out[l.path] = !v.ls.has(a.lt.id(Label{LInit, 0, "recv" + l.path}))
		}
	}
	return out
}

func sharesRef(v, w *Val) bool {
	for _, x := range v.refs {
		for _, y := range w.refs {
			if x == y {
				return true
			}
		}
	}
	return false
}

// cloneRun clones a receiver one of whose fields has the given property.
func (w *World) cloneRun(cc cloneCase, field string, val *Val, nl uint8) (*Scen, *Obj, *Val, bool) {
	s := newScen(w)
	s.assumptions()
	s.cloneAssume()
	s.a.bareElems = true
	if field != "" {
		prev := s.a.assume
		s.a.assume = func(o *Obj, p string, t types.Type) *Val {
			if o.kind != OSym || o.root != "recv" || o.path != "" || p != field {
				return prev(o, p, t)
			}
			if val != nil {
				return val
			}
			sv := s.a.assume
			s.a.assume = nil
			v := *s.a.initial(o, p, t)
			s.a.assume = sv
			v.nl = nl
			if nl == mayNil {
				v.refs = nil
			}
			return &v
		}
	}
	s.inits()
	rv, o := s.receiver(cc.recv)
	cl, ok := s.run("clone", cc.meth, []*Val{rv})
	return s, o, cl, ok
}

// keeps compares a field of the clone with the original's. It returns what is
// wrong with it.
func (s *Scen) keeps(recv *Obj, ad Addr, l leaf) string {
	a := s.a
	v := a.get(s.st, ad.o, ad.p+l.path, l.typ)
	if !isRefType(l.typ) {
		if v.id != uint32(a.lt.id(Label{LInit, 0, "recv" + l.path}))+1 {
			return "does not always hold the original's value"
		}
		return ""
	}
	orig := a.initial(recv, l.path, l.typ)
	_, isFn := l.typ.Underlying().(*types.Signature)
	for _, x := range v.refs {
		same := false
		for _, y := range orig.refs {
			same = same || x == y
		}
		switch {
		case same:
		case isFn:
			return "may hold another function than the original's"
		case x.o.kind == OSym && x.o.root == "recv" && !strings.HasPrefix(x.o.path, l.path):
			return "may hold " + x.o.name()
		case x.o.kind == OAlloc:
			if sl, ok := l.typ.Underlying().(*types.Slice); ok {
				for _, e := range leaves(sl.Elem()) {
					if isRefType(e.typ) {
						continue
					}
					ev := a.get(s.st, x.o, x.p+"[]"+e.path, e.typ)
					id := a.lt.id(Label{LInit, 0, "recv" + l.path + "[]" + e.path})
					if ev.ck == 0 || ev.id == uint32(id)+1 || e.path == "" && ev.ls.has(id) {
						continue
					}
					return "does not always hold the original's " + strings.TrimPrefix(l.path+"[]"+e.path, ".")
				}
			}
		}
	}
	return ""
}

func propCloneComplete(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"clone-type: the clone method returns an object of the receiver's concrete type, by the type's own method",
		"own-method: no estimator method of an exported type is reached through an embedded interface that no code sets",
		"clone-field: every field that fitting does not overwrite has the original's value in the clone",
		"clone-theta: a kernel cloned with new parameters has them",
	}
	for _, n := range w.named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !n.Obj().Exported() || n.Obj().Pkg().Name() == "main" || n.TypeParams().Len() > 0 {
			continue
		}
		pt := types.NewPointer(n)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			it, ok := f.Type().Underlying().(*types.Interface)
			if !ok || !f.Embedded() || !ifaceHas(it, "Fit") || w.everSet(f) {
				continue
			}
			r.unit("embedded interfaces", 1)
			for k := 0; k < it.NumMethods(); k++ {
				m := it.Method(k).Name()
				if fn, via := w.viaInterface(pt, m); via && fn == f.Name() {
					r.add(&Finding{Rule: "own-method", Key: pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + m, Pos: w.pos(n.Obj().Pos()),
						Msg: fmt.Sprintf("%s has no %s of its own: the call goes to the embedded interface %s, which nothing ever sets", n.Obj().Name(), m, f.Name())})
				} else {
					r.ob(1)
				}
			}
		}
	}
	parallel(w.cloneCases(), func(cc cloneCase) {
		if cc.mn == "SourceClone" || !cc.t.Obj().Exported() {
			return
		}
		if cc.mn == "CloneWithTheta" {
			r.kernelClone(w, cc)
			return
		}
		if f, via := w.viaInterface(cc.recv, cc.mn); via {
			r.ob(1)
			r.add(&Finding{Rule: "clone-type", Key: cc.name, Pos: w.pos(cc.t.Obj().Pos()),
				Msg: fmt.Sprintf("%s has no %s of its own: the call goes to the embedded interface %s, which the constructors leave nil", cc.name, cc.mn, f)})
			return
		}
		learned := w.fitWrites(cc)
		s, recv, cl, ok := w.cloneRun(cc, "", nil, 0)
		a := s.a
		r.absorb(a, cc.name)
		r.ob(1)
		if !ok {
			r.add(&Finding{Rule: "clone-type", Key: cc.name, Pos: w.pos(cc.meth.Pos()), Msg: cc.name + "." + cc.mn + " never returns"})
			return
		}
		right := func(a *An, cl *Val) []Addr {
			var out []Addr
			for _, ad := range cl.refs {
				if dt := a.dynType(ad); dt != nil && types.Identical(dt, cc.recv) {
					out = append(out, ad)
				}
			}
			return out
		}
		for _, ad := range cl.refs {
			dt := a.dynType(ad)
			if dt == nil || !types.Identical(dt, cc.recv) {
				nm := "an object of unknown type"
				if dt != nil {
					nm = shortType(dt)
				}
				r.add(&Finding{Rule: "clone-type", Key: cc.name, Pos: w.pos(cc.meth.Pos()),
					Msg: fmt.Sprintf("%s.%s returns %s", cc.name, cc.mn, nm)})
			}
		}
		for _, l := range leaves(cc.t) {
			if learned[l.path] {
				continue
			}
			r.ob(1)
			r.unit("fields compared", 1)
			bad := ""
			note := func(b string) {
				if bad == "" {
					bad = b
				}
			}
			bt, _ := l.typ.Underlying().(*types.Basic)
			switch {
			case bt != nil && bt.Info()&types.IsBoolean != 0:
				for _, b := range []bool{true, false} {
					s, _, cl, ok := w.cloneRun(cc, l.path, boolVal(b), 0)
					if !ok {
						continue
					}
					for _, ad := range right(s.a, cl) {
						if got, known := s.a.get(s.st, ad.o, ad.p+l.path, l.typ).constBool(); !known || got != b {
							note(fmt.Sprintf("is not always %v when it is %v in the original", b, b))
						}
					}
				}
			case isRefType(l.typ):
				for _, ad := range right(a, cl) {
					note(s.keeps(recv, ad, l))
				}
				_, slice := l.typ.Underlying().(*types.Slice)
				_, isMap := l.typ.Underlying().(*types.Map)
				for _, nl := range []uint8{mayNon, mayNil} {
					if nl == mayNil && (slice || isMap) {
						continue // an empty one will do
					}
					s, _, cl, ok := w.cloneRun(cc, l.path, nil, nl)
					if !ok {
						continue
					}
					for _, ad := range right(s.a, cl) {
						v := s.a.get(s.st, ad.o, ad.p+l.path, l.typ)
						if nl == mayNon && v.nl&mayNil != 0 {
							note("may be nil although the original's is not")
						}
						if nl == mayNil && v.nl&mayNon != 0 {
							note("may be set although the original's is nil")
						}
					}
				}
			default:
				for _, ad := range right(a, cl) {
					note(s.keeps(recv, ad, l))
				}
			}
			if bad != "" {
				r.add(&Finding{Rule: "clone-field", Key: cc.name + ":" + strings.TrimPrefix(l.path, "."), Pos: w.pos(cc.meth.Pos()),
					Msg: fmt.Sprintf("in the result of %s.%s the field %s %s", cc.name, cc.mn, strings.TrimPrefix(l.path, "."), bad)})
			}
		}
	})
	return r
}
