package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// fitCase is a type with a Fit-like method.
type fitCase struct {
	t    *types.Named
	recv types.Type
	name string
}

func (w *World) typesWith(methods ...string) []fitCase {
	var out []fitCase
	for _, n := range w.named {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 || n.Obj().Pkg().Name() == "main" {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		pt := types.NewPointer(n)
		for _, m := range methods {
			if f := w.findMethod(pt, m); f != nil && len(f.Blocks) > 0 {
				if _, via := w.viaInterface(pt, m); !via {
					out = append(out, fitCase{n, pt, pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name()})
					break
				}
			}
		}
	}
	return out
}

func dataRoots(p string) bool { return strings.HasPrefix(p, "in_") }

// propSnapshot: a fitted model does not share memory with the training data, and
// what inference returns does not share memory with the model.
func propSnapshot(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"fit-keeps-no-alias: after Fit(X, Y) nothing reachable from the model is storage of X or Y",
		"result-is-fresh: what Predict/Transform return or write shares no storage with the model",
	}
	parallel(w.typesWith("Fit", "PartialFit"), func(fc fitCase) {
		for _, m := range []string{"Fit", "PartialFit"} {
			if w.findMethod(fc.recv, m) == nil {
				continue
			}
			if _, via := w.viaInterface(fc.recv, m); via {
				continue
			}
			r.ob(1)
			r.unit("fit scenarios", 1)
			s := newScen(w)
			s.assumptions()
			s.inits()
			recv, _ := s.receiver(fc.recv)
			_, ok := s.callMethod("fit", recv, m, func(i int, p *types.Var) *Val { return s.param("in_"+paramName(p, i), p.Type()) })
			r.absorb(s.a, fc.name)
			if !ok {
				continue
			}
			for o, p := range s.a.reach(s.st, recv) {
				if o.kind == OSym && dataRoots(o.root) {
					r.add(&Finding{Rule: "fit-keeps-no-alias", Key: fc.name + "." + m + ":" + fieldKey(fc.recv, p), Pos: w.pos(w.findMethod(fc.recv, m).Pos()),
						Msg: fmt.Sprintf("after %s.%s the model's %s refers to the caller's %s", fc.name, m, strings.TrimPrefix(p, "."), strings.TrimPrefix(o.name(), "in_"))})
				}
			}
		}
	})
	parallel(w.entries(), func(e *Entry) {
		if e.recv == nil {
			return
		}
		switch e.meth {
		case "Predict", "PredictProba", "PredictProbas", "PredictLogProbas", "Predict2", "PredictEx", "DecisionFunction", "Transform", "InverseTransform", "KNeighbors", "KNeighborsGraph", "RadiusNeighbors", "Query":
		default:
			return
		}
		r.ob(1)
		r.unit("inference scenarios", 1)
		s := newScen(w)
		s.assumptions()
		s.inits()
		res, ok := s.run("e", e.fn, s.args(e))
		r.absorb(s.a, e.name)
		if !ok {
			return
		}
		// a method may return its own receiver
		var out []Addr
		for _, ad := range res.refs {
			if !(ad.o.kind == OSym && ad.o.root == "recv" && ad.o.path == "" && ad.p == "") {
				out = append(out, ad)
			}
		}
		rest := *res
		rest.refs = out
		for o := range s.a.reach(s.st, &rest) {
			if o.kind == OSym && o.root == "recv" {
				r.add(&Finding{Rule: "result-is-fresh", Key: e.name + ":" + fieldKey(e.recv, o.path), Pos: w.pos(e.fn.Pos()),
					Msg: fmt.Sprintf("the result of %s refers to the model's own %s", e.name, strings.TrimPrefix(o.path, "."))})
			}
		}
	})
	return r
}

// header reports whether a cell describes the shape of a matrix, not its content.
func header(p string) bool {
	for _, h := range []string{".Rows", ".Cols", ".Stride", ".N", ".Inc", ".capRows", ".capCols", ".dims", ".isZero"} {
		if strings.HasSuffix(p, h) {
			return true
		}
	}
	return false
}

// reachCells lists the content cells (non-reference) reachable from a value.
func (a *An) reachLS(st *State, v *Val) LS {
	var ls LS
	objs := a.reach(st, v)
	for i := range a.cinfo {
		ci := a.cinfo[i]
		if _, ok := objs[ci.o]; !ok || ci.typ == nil || isRefType(ci.typ) || strings.HasSuffix(ci.p, "$state") {
			continue
		}
		if x := st.heap.get(uint32(i)); x != nil {
			l := x.ls
			if ci.o.kind == OSym {
				// content that was there before does not count
				if id, ok := a.lt.ids[Label{LInit, 0, ci.o.root + ci.o.path + ci.p}]; ok {
					l = l.minus(LS{}.with(id))
				}
			}
			ls = ls.union(l)
		}
	}
	return ls
}

type refitStore struct {
	path  string // of the cell, relative to the model
	typ   types.Type
	ls    LS
	instr ssa.Instruction
	ctx   *Ctx
	guard bool              // only executed under a test of the same cell
	asNil bool              // and that test only asks whether there is anything
	shape LS                // what the size of the value stored depends on
	grows bool              // appends to what was there before
	data  string            // only executed under a test of the training data (where)
	tests map[string]string // cells of the model whose value from before the call is tested (where)
}

// testedCells: the cells of the model such that the store happens under a condition
// that looks at what they held before the call.
func (w *World) testedCells(a *An, x *Access) map[string]string {
	var out map[string]string
	b := x.instr.Block()
	for c := x.ctx; c != nil && c.rec != nil; c = c.parent {
		if b != nil && b.Parent() == c.fn {
			for _, i := range guards(b) {
				if w.inLoop(i.Block()) {
					continue
				}
				loads(i.Cond, func(u *ssa.UnOp) {
					v := c.rec.val(u)
					for _, r := range c.rec.val(u.X).refs {
						if r.o.kind != OSym || r.o.root != "recv" {
							continue
						}
						init := a.initial(r.o, r.p, u.Type())
						was := !v.ls.inter(init.ls).inter(a.lt.kindMask[LInit]).empty()
						for _, y := range init.refs {
							for _, z := range v.refs {
								was = was || y.o == z.o
							}
						}
						if was {
							if out == nil {
								out = map[string]string{}
							}
							out[r.o.path+r.p] = w.posOf(i)
						}
					}
				})
			}
		}
		if c.site == nil {
			break
		}
		b = c.site.Block()
	}
	return out
}

// loads calls f for the loads a condition is computed from.
func loads(v ssa.Value, f func(u *ssa.UnOp)) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			f(u)
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				visit(*op)
			}
		}
	}
	visit(v)
}

// selfGuarded: the store happens under a condition that looks at the cell stored to.
func selfGuarded(x *Access) bool {
	b := x.instr.Block()
	for c := x.ctx; c != nil && c.rec != nil; c = c.parent {
		if b != nil && b.Parent() == c.fn && guardedBy(c.rec, b, x.o, x.p) {
			return true
		}
		if c.site == nil {
			break
		}
		b = c.site.Block()
	}
	return false
}

// eachTime: the instruction, or another one like it, is executed each time round
// the loop it is in.
func (w *World) eachTime(in ssa.Instruction, like func(b *ssa.BasicBlock) bool) bool {
	for _, i := range guards(in.Block()) {
		loop := w.natLoop(i.Block())
		if loop == nil {
			continue
		}
		s := i.Block().Succs
		if !loop[s[0]] || !loop[s[1]] {
			continue // the test that ends the loop
		}
		if !like(s[0]) || !like(s[1]) {
			return false
		}
	}
	return true
}

// onlyIfNil: the conditions that look at the cell stored to compare it with nil,
// and do nothing else with it.
func onlyIfNil(x *Access) bool {
	b, only := x.instr.Block(), true
	for c := x.ctx; c != nil && c.rec != nil; c = c.parent {
		if b != nil && b.Parent() == c.fn {
			for _, i := range guards(b) {
				cmp, ok := i.Cond.(*ssa.BinOp)
				if ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
					if k, isC := cmp.Y.(*ssa.Const); isC && k.Value == nil {
						if _, direct := cmp.X.(*ssa.UnOp); direct {
							continue
						}
					}
				}
				loads(i.Cond, func(u *ssa.UnOp) {
					for _, r := range c.rec.val(u.X).refs {
						// the cell itself, or anything behind it
						only = only && !(r.o == x.o && r.p == x.p || strings.HasPrefix(r.o.path+r.p, x.o.path+x.p))
					}
				})
				only = only && !tests(i.Cond)
			}
		}
		if c.site == nil {
			break
		}
		b = c.site.Block()
	}
	return only
}

// tests: a condition computed by a call may look at anything.
func tests(v ssa.Value) bool {
	found := false
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if c, ok := v.(*ssa.Call); ok {
			if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
				found = true
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				visit(*op)
			}
		}
	}
	visit(v)
	return found
}

// shapeOf: what the size of the matrix or array stored depends on.
func (a *An) shapeOf(x *Access) LS {
	var ls LS
	for _, r := range x.val.refs {
		if r.o.kind == OSym && !strings.HasPrefix(r.o.root, "fresh:") || r.o.typ == nil {
			continue
		}
		for _, f := range []string{".mat.Rows", ".mat.Cols", ".mat.N"} {
			if t := typeAt(r.o.typ, r.p+f); t != nil {
				ls = ls.union(a.get2(x.st, r.o, r.p+f, t).ls)
			}
		}
	}
	if st, ok := x.instr.(*ssa.Store); ok {
		if mk, ok := st.Val.(*ssa.MakeSlice); ok && x.ctx != nil && x.ctx.rec != nil && x.ctx.rec.fn == st.Parent() {
			ls = ls.union(x.ctx.rec.val(mk.Len).ls)
		}
		if cp, ok := st.Val.(*ssa.Call); ok && x.ctx != nil && x.ctx.rec != nil && x.ctx.rec.fn == st.Parent() {
			if f := cp.Call.StaticCallee(); f != nil && strings.HasSuffix(f.Name(), "CopyOf") && len(cp.Call.Args) > 0 {
				for _, r := range x.ctx.rec.val(cp.Call.Args[0]).refs {
					ls = ls.union(r.o.initLS(a))
				}
			}
		}
	}
	return ls
}

// dataGuarded: the store happens under a condition that looks at the training data
// (not merely whether there is any).
func (w *World) dataGuarded(a *An, x *Access) string {
	b := x.instr.Block()
	for c := x.ctx; c != nil && c.rec != nil; c = c.parent {
		if b != nil && b.Parent() == c.fn {
			for _, i := range guards(b) {
				if w.inLoop(i.Block()) {
					continue
				}
				if a.dataCond(c.rec, i.Cond, 0) {
					return w.posOf(i)
				}
			}
		}
		if c.site == nil {
			break
		}
		b = c.site.Block()
	}
	return ""
}

// returns: some path from the block ends in a return without passing x.
func returns(b, x *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{x: true}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(b)
}

var guardMemo sync.Map // *ssa.BasicBlock -> []*ssa.If

// guards: the tests that decide whether the block is executed (control dependence,
// transitively; ways out that only panic do not count).
func guards(b *ssa.BasicBlock) []*ssa.If {
	if v, ok := guardMemo.Load(b); ok {
		return v.([]*ssa.If)
	}
	var out []*ssa.If
	seen := map[*ssa.BasicBlock]bool{b: true}
	for todo := []*ssa.BasicBlock{b}; len(todo) > 0; todo = todo[1:] {
		x := todo[0]
		for _, d := range b.Parent().Blocks {
			i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || seen[d] && d != x {
				continue
			}
			t, f := !returns(d.Succs[0], x), !returns(d.Succs[1], x)
			if t == f || d != x && !returns(d, x) {
				continue
			}
			if t && !returns(d.Succs[0], nil) || f && !returns(d.Succs[1], nil) {
				continue // that way only panics
			}
			if d != x {
				seen[d] = true
				todo = append(todo, d)
				out = append(out, i)
			}
		}
	}
	guardMemo.Store(b, out)
	return out
}

func (a *An) dataCond(fr *frame, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	empty := false // a test whether there is any data at all
	if x, ok := v.(*ssa.BinOp); ok {
		for _, y := range []ssa.Value{x.X, x.Y} {
			if c := fr.val(y); isConst(y) && c.ck == 1 && c.cv != nil && c.cv.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.cv)
				empty = empty || n == 0 || n == 1
			}
		}
	}
	isData := false
	fr.val(v).ls.inter(a.lt.kindMask[LInit]).each(func(i int) {
		n := a.lt.list[i].name
		isData = isData || strings.HasPrefix(n, "in_") && (!empty || !header(n) && strings.Contains(n, "["))
	})
	if isData {
		return true
	}
	if empty {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return false
		}
		if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
			return false
		}
		for _, arg := range x.Call.Args {
			for _, r := range fr.val(arg).refs {
				if r.o.kind == OSym && strings.HasPrefix(r.o.root, "in_") {
					return true
				}
			}
			for _, l := range fr.val(arg).agg {
				for _, r := range l.refs {
					if r.o.kind == OSym && strings.HasPrefix(r.o.root, "in_") {
						return true
					}
				}
			}
		}
	case *ssa.BinOp:
		return a.dataCond(fr, x.X, depth+1) || a.dataCond(fr, x.Y, depth+1)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.dataCond(fr, x.X, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.dataCond(fr, e, depth+1) {
				return true
			}
		}
	}
	return false
}

// growsOld: what is stored is the result of appending to what the field held before.
func (a *An) growsOld(x *Access) bool {
	s, ok := x.instr.(*ssa.Store)
	if !ok || x.ctx == nil || x.ctx.rec == nil || x.p == "" || strings.Contains(x.o.path+x.p, "[") {
		return false
	}
	call, ok := s.Val.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	v := x.ctx.rec.val(call.Call.Args[0])
	if v.ls.has(a.lt.id(Label{LEmpty, 0, ""})) {
		return false
	}
	for _, y := range a.initial(x.o, x.p, x.typ).refs {
		for _, z := range v.refs {
			if y.o == z.o {
				return true
			}
		}
	}
	return false
}

// overruled: the first time round the loop another test leads to b whatever i says.
func (fr *frame) overruled(i *ssa.If, gs []*ssa.If, b *ssa.BasicBlock) bool {
	loop := fr.a.w.natLoop(i.Block())
	if loop == nil || !loop[b] {
		return false
	}
	for _, g := range gs {
		if g == i || !loop[g.Block()] || !g.Block().Dominates(i.Block()) {
			continue
		}
		v := fr.first(g.Cond, loop, 0)
		if v == nil || v.Kind() != constant.Bool {
			continue
		}
		to := g.Block().Succs[1]
		if constant.BoolVal(v) {
			to = g.Block().Succs[0]
		}
		if to == b || !returns(to, b) && !to.Dominates(i.Block()) {
			return true
		}
	}
	return false
}

// reachesIn: some path from b comes to x without going round the loop.
func reachesIn(b, x *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == x {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if loop[s] && !isHeader(s, loop) && visit(s) {
				return true
			}
		}
		return false
	}
	return visit(b)
}

// first: the constant a value is the first time round the loop.
func (fr *frame) first(v ssa.Value, loop map[*ssa.BasicBlock]bool, depth int) constant.Value {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.Phi:
		if !isHeader(x.Block(), loop) {
			return nil
		}
		var c constant.Value
		for k, p := range x.Block().Preds {
			if loop[p] {
				continue
			}
			e := fr.first(x.Edges[k], loop, depth+1)
			if e == nil || c != nil {
				return nil
			}
			c = e
		}
		return c
	case *ssa.BinOp:
		l, r := fr.first(x.X, loop, depth+1), fr.first(x.Y, loop, depth+1)
		if l == nil || r == nil || l.Kind() != r.Kind() {
			return nil
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if l.Kind() == constant.Bool && x.Op != token.EQL && x.Op != token.NEQ {
				return nil
			}
			return constant.MakeBool(constant.Compare(l, x.Op, r))
		case token.ADD, token.SUB:
			if l.Kind() == constant.Int {
				return constant.BinaryOp(l, x.Op, r)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if c := fr.first(x.X, loop, depth+1); c != nil && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c))
			}
		}
		if x.Op != token.MUL {
			return nil
		}
		at := fr.val(x.X)
		if len(at.refs) != 1 {
			return nil
		}
		// the last store before the loop
		var st *ssa.Store
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				for _, r := range fr.val(s.Addr).refs {
					if r != at.refs[0] {
						continue
					}
					switch {
					case loop[b] && b != x.Block() && reachesIn(b, x.Block(), loop):
						return nil // set each time round, before it is read
					case loop[b] || x.Block().Dominates(b):
					case !b.Dominates(x.Block()):
						return nil
					case st == nil || st.Block().Dominates(b):
						st = s
					}
				}
			}
		}
		if st != nil {
			return fr.first(st.Val, loop, depth+1)
		}
	}
	return nil
}

func guardedBy(fr *frame, b *ssa.BasicBlock, o *Obj, p string) bool {
	found := false
	gs := guards(b)
	for _, i := range gs {
		if fr.overruled(i, gs, b) {
			continue
		}
		loads(i.Cond, func(u *ssa.UnOp) {
			for _, r := range fr.val(u.X).refs {
				found = found || r.o == o && r.p == p
			}
		})
	}
	return found
}

// propRefit: what Fit leaves behind does not depend on what an earlier Fit left.
func propRefit(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"no-stale-input: no value that Fit leaves in the model is computed from a value that an earlier Fit learned (warm start off)",
		"no-stale-rest: whatever Fit learns from the data it replaces on every path that returns",
	}
	type job struct {
		fitCase
		mode map[string]*Val
	}
	var jobs []job
	for _, fc := range w.typesWith("Fit") {
		for _, m := range modes(fc.t) {
			jobs = append(jobs, job{fc, m})
		}
	}
	refit := func(fc job, meth string, before map[string]bool) map[string]bool {
		r.ob(1)
		r.unit("fit scenarios", 1)
		s := newScen(w)
		s.cold = true
		s.assumptions()
		s.cloneAssume()
		s.inMode(fc.mode)
		s.inits()
		a := s.a
		a.overwrite = true
		a.someData = meth == "FitTransform" // what is returned for no data has no elements
		if a.someData {
			a.emptyMat = func(o *Obj) int {
				if o.kind == OSym && strings.HasPrefix(o.root, "in_") {
					return 2
				}
				return 0
			}
		}
		recv, ro := s.receiver(fc.recv)
		type sk struct {
			in   ssa.Instruction
			ctx  *Ctx
			path string
		}
		stores := map[sk]*refitStore{}
		entries, cleared := map[*refitStore]*Obj{}, map[*Obj]bool{} // of maps
		a.onWrite = append(a.onWrite, func(x *Access) {
			r.unit("stores examined", 1)
			if x.o.kind != OSym || x.o.root != "recv" || strings.Contains(x.p, "$") {
				return
			}
			k := sk{x.instr, x.ctx, x.o.path + x.p}
			st := stores[k]
			if st == nil {
				st = &refitStore{path: k.path, typ: x.typ, instr: x.instr, ctx: x.ctx}
				stores[k] = st
			}
			if strings.HasSuffix(x.p, "[v]") {
				if _, ok := x.instr.(*ssa.MapUpdate); ok {
					entries[st] = x.o
				} else {
					cleared[x.o] = true
				}
			}
			st.ls = st.ls.union(x.val.ls)
			st.guard = selfGuarded(x)
			st.asNil = st.guard && onlyIfNil(x)
			st.shape = st.shape.union(a.shapeOf(x))
			st.data = w.dataGuarded(a, x)
			st.tests = w.testedCells(a, x)
			st.grows = st.grows || a.growsOld(x)
		})
		// renewed: elements stored to on the way, whatever the model held before
		renewed := func(p string) bool {
			if !strings.HasSuffix(p, "[]") {
				return false
			}
			for _, st := range stores {
				if st.path == p && !st.guard && st.data == "" && w.eachTime(st.instr, func(b *ssa.BasicBlock) bool {
					for _, o := range stores {
						if o.path == p && o.instr.Parent() == b.Parent() && (b == o.instr.Block() || b.Dominates(o.instr.Block())) {
							return true
						}
					}
					return false
				}) {
					return true
				}
			}
			return false
		}
		if meth == "FitTransform" {
			a.onRead = append(a.onRead, func(x *Access) {
				if x.o.kind != OSym || x.o.root != "recv" || !strings.Contains(x.o.path+x.p, "[") || header(x.p) || isRefType(x.typ) {
					return
				}
				p := x.o.path + x.p
				if id, ok := a.lt.ids[Label{LInit, 0, "recv" + p}]; !ok || !x.val.ls.has(id) {
					return
				}
				if renewed(p) {
					return
				}
				for l := p; ; {
					if before[l] {
						r.add(&Finding{Rule: "no-stale-input", Key: fc.name + ":" + strings.TrimPrefix(strings.SplitN(strings.SplitN(p, "[", 2)[0], ".mat", 2)[0], "."), Pos: w.posOf(x.instr),
							Msg: fmt.Sprintf("%s.%s uses the %s of an earlier fit", fc.name, meth, strings.TrimPrefix(p, ".")), Path: w.path(x.ctx, x.instr)})
						return
					}
					i := strings.LastIndexAny(l, ".[")
					if i <= 0 {
						return
					}
					l = l[:i]
				}
			})
		}
		res, ok := s.callMethod("fit", recv, meth, func(i int, p *types.Var) *Val { return s.param("in_"+paramName(p, i), p.Type()) })
		r.absorb(a, fc.name)
		if !ok {
			r.broken(fc.name + "." + meth + " never returns")
			return nil
		}
		a.noEvents = true
		isData := func(ls LS) bool {
			d := false
			ls.inter(a.lt.kindMask[LInit]).each(func(i int) {
				if strings.HasPrefix(a.lt.list[i].name, "in_") {
					d = true
				}
			})
			return d
		}
		cellOf := map[string]uint32{}
		for i := range a.cinfo {
			ci := a.cinfo[i]
			if ci.o.kind == OSym && ci.o.root == "recv" {
				cellOf[ci.o.path+ci.p] = uint32(i)
			}
		}
		own := func(p string) int {
			if id, ok := a.lt.ids[Label{LInit, 0, "recv" + p}]; ok {
				return id
			}
			return -1
		}
		// what is learned
		learned := map[string]bool{}
		content := map[string]LS{}
		for _, st := range stores {
			if header(st.path) {
				continue
			}
			if isRefType(st.typ) {
				ls := a.reachLS(s.st, a.get(s.st, a.cinfo[cellOf[st.path]].o, a.cinfo[cellOf[st.path]].p, st.typ))
				content[st.path] = ls
				if isData(ls) || a.hasInitUnder(ls, "recv"+st.path+"[") {
					learned[st.path] = true
				}
			} else if isData(st.ls) || own(st.path) >= 0 && st.ls.has(own(st.path)) {
				learned[st.path] = true
			}
		}
		r.unit("learned cells", len(learned))
		key := func(p string) string {
			return fc.name + ":" + strings.TrimPrefix(strings.SplitN(strings.SplitN(p, "[", 2)[0], ".mat", 2)[0], ".")
		}
		for _, st := range stores {
			if st.grows && !header(st.path) {
				r.add(&Finding{Rule: "no-stale-rest", Key: key(st.path), Pos: w.posOf(st.instr),
					Msg: fmt.Sprintf("%s.Fit appends to the %s an earlier fit left", fc.name, strings.TrimPrefix(st.path, ".")), Path: w.path(st.ctx, st.instr)})
			}
		}
		for st, o := range entries {
			ls := st.ls
			for i := range a.cinfo {
				if ci := a.cinfo[i]; ci.o == o && strings.HasPrefix(o.path+ci.p, st.path) {
					ls = ls.union(a.reachLS(s.st, a.get(s.st, o, ci.p, ci.typ)))
				}
			}
			if !cleared[o] && isData(ls) {
				r.add(&Finding{Rule: "no-stale-rest", Key: key(st.path), Pos: w.posOf(st.instr),
					Msg: fmt.Sprintf("%s.%s adds entries to the map %s an earlier fit left", fc.name, meth, strings.TrimPrefix(strings.SplitN(st.path, "[", 2)[0], ".")), Path: w.path(st.ctx, st.instr)})
			}
		}
		anew := map[string]bool{} // learned whatever was there
		for _, st := range stores {
			if learned[st.path] && !st.guard {
				anew[st.path] = true
			}
		}
		for _, st := range stores {
			if st.guard {
				delete(anew, st.path)
			}
		}
		under := func(learned map[string]bool, l string) bool {
			for {
				if learned[l] {
					return true
				}
				i := strings.LastIndexAny(l, ".[")
				if i <= 0 {
					return false
				}
				l = l[:i]
			}
		}
		isLearned := func(l string) bool { return under(learned, l) }
		stale := func(ls LS) []string {
			var out []string
			ls.inter(a.lt.kindMask[LInit]).each(func(i int) {
				n := a.lt.list[i].name
				if !strings.HasPrefix(n, "recv.") || a.lref[i] || header(n) {
					return
				}
				if n = strings.TrimPrefix(n, "recv"); isLearned(n) {
					out = append(out, n)
				}
			})
			return out
		}
		for _, st := range stores {
			if header(st.path) {
				continue
			}
			ls := st.ls
			if isRefType(st.typ) {
				ls = content[st.path]
			} else if st.guard && !isData(ls) {
				continue
			}
			for _, n := range stale(ls) {
				r.add(&Finding{Rule: "no-stale-input", Key: key(n), Pos: w.posOf(st.instr),
					Msg: fmt.Sprintf("%s.Fit leaves in %s a value computed from the %s of an earlier fit", fc.name, strings.TrimPrefix(st.path, "."), strings.TrimPrefix(n, ".")), Path: w.path(st.ctx, st.instr)})
			}
		}
		// what is kept: everything learned into the cell is stored under a test of the cell
		for p := range learned {
			ci := a.cinfo[cellOf[p]]
			if strings.Contains(p, "[") || strings.Contains(p, ".mat.") {
				continue
			}
			var at *refitStore
			sized := isRefType(ci.typ)
			for _, st := range stores {
				if st.path == p {
					sized = sized && st.asNil && (isData(st.shape) || a.lsHasKind(st.shape, LCols) || a.lsHasKind(st.shape, LRows))
				} else if strings.HasPrefix(st.path, p) && (header(st.path) || strings.HasSuffix(st.path, ".mat.Data")) {
					sized = false
				}
				if st.path != p {
					continue
				}
				if !isRefType(st.typ) && !isData(st.ls) {
					continue
				}
				if !st.guard {
					at = nil
					break
				}
				at = st
			}
			if at == nil {
				continue
			}
			v := a.get(s.st, ci.o, ci.p, ci.typ)
			kept := false
			if isRefType(ci.typ) {
				orig := a.initial(ci.o, ci.p, ci.typ)
				for _, x := range v.refs {
					for _, y := range orig.refs {
						kept = kept || x.o == y.o
					}
				}
				for q := range stores {
					if strings.HasPrefix(q.path, p) && q.path != p && !sized {
						kept = false // its content is learned anew, in the size it has now
					}
				}
			} else {
				kept = own(p) >= 0 && v.ls.has(own(p))
			}
			if kept {
				r.add(&Finding{Rule: "no-stale-rest", Key: key(p), Pos: w.posOf(at.instr),
					Msg: fmt.Sprintf("%s.Fit sets %s from the data only if it was not set before, so an earlier fit decides it", fc.name, strings.TrimPrefix(p, ".")), Path: w.path(at.ctx, at.instr)})
			}
		}
		// what is replaced only if an earlier fit left nothing elsewhere
		cells := map[string]bool{}
		sets := map[string]bool{} // set whatever they held before
		for _, st := range stores {
			cells[st.path] = true
			if !st.guard {
				sets[st.path] = true
			}
		}
		for p := range cells {
			if strings.Contains(p, "[") || strings.Contains(p, ".mat.") || header(p) {
				continue
			}
			ci := a.cinfo[cellOf[p]]
			var at *refitStore
			what, where := "", ""
			for _, st := range stores {
				if st.path != p {
					continue
				}
				q := ""
				for c := range st.tests {
					if c != p && (isLearned(c) || sets[c]) {
						q = c
					}
				}
				if q == "" && !st.guard {
					at = nil
					break
				}
				if q != "" {
					at, what, where = st, q, st.tests[q]
				}
			}
			if at == nil {
				continue
			}
			v := a.get(s.st, ci.o, ci.p, ci.typ)
			kept := own(p) >= 0 && v.ls.has(own(p))
			if isRefType(ci.typ) {
				kept = false
				for _, x := range v.refs {
					for _, y := range a.initial(ci.o, ci.p, ci.typ).refs {
						kept = kept || x.o == y.o
					}
				}
			}
			if kept {
				r.add(&Finding{Rule: "no-stale-rest", Key: key(p), Pos: w.posOf(at.instr),
					Msg: fmt.Sprintf("%s.Fit replaces %s only if the %s of an earlier fit passes the test at %s", fc.name, strings.TrimPrefix(p, "."), strings.TrimPrefix(what, "."), where), Path: w.path(at.ctx, at.instr)})
			}
		}
		// what is replaced only for some data: every store into the cell happens
		// under a test of the data, and the old value can survive
		for p := range cells {
			if strings.Contains(p, "[") || strings.Contains(p, ".mat.") || header(p) {
				continue
			}
			ci := a.cinfo[cellOf[p]]
			var at *refitStore
			for _, st := range stores {
				if st.path != p {
					continue
				}
				if st.data == "" || st.guard && !learned[p] { // (a default for what was not set)
					at = nil
					break
				}
				at = st
			}
			if at == nil {
				continue
			}
			v := a.get(s.st, ci.o, ci.p, ci.typ)
			kept := false
			if isRefType(ci.typ) {
				for _, x := range v.refs {
					for _, y := range a.initial(ci.o, ci.p, ci.typ).refs {
						kept = kept || x.o == y.o
					}
				}
			} else {
				kept = own(p) >= 0 && v.ls.has(own(p))
			}
			if kept {
				r.add(&Finding{Rule: "no-stale-rest", Key: key(p), Pos: w.posOf(at.instr),
					Msg: fmt.Sprintf("%s.Fit replaces %s only if the data passes the test at %s; otherwise the one of an earlier fit stays", fc.name, strings.TrimPrefix(p, "."), at.data), Path: w.path(at.ctx, at.instr)})
			}
		}
		_ = ro
		if meth == "FitTransform" {
			outs := res.tup
			if len(outs) == 0 {
				outs = []*Val{res}
			}
			for _, v := range outs {
				learned = before
				for _, n := range stale(a.reachLS(s.st, v)) {
					if renewed(n) {
						continue
					}
					r.add(&Finding{Rule: "no-stale-input", Key: key(n), Pos: w.pos(w.findMethod(fc.recv, meth).Pos()),
						Msg: fmt.Sprintf("what %s.%s returns is computed from the %s of an earlier fit", fc.name, meth, strings.TrimPrefix(n, "."))})
				}
			}
		}
		return anew
	}
	parallel(jobs, func(fc job) {
		learned := refit(fc, "Fit", nil)
		if f := w.findMethod(fc.recv, "FitTransform"); f != nil && len(f.Blocks) > 0 && learned != nil {
			refit(fc, "FitTransform", learned)
		}
	})
	return r
}

func (a *An) hasInitUnder(ls LS, prefix string) bool {
	found := false
	ls.inter(a.lt.kindMask[LInit]).each(func(i int) {
		if strings.HasPrefix(a.lt.list[i].name, prefix) {
			found = true
		}
	})
	return found
}

// modes enumerates the configurations of a type that select between whole
// training algorithms; together they cover every configuration.
func modes(t *types.Named) []map[string]*Val {
	out := []map[string]*Val{{}}
	for f, vs := range modeFields(t) {
		out = crossModes(out, "recv"+f, vs...)
	}
	return out
}

// modeFields gives the fields of a perceptron that select a training algorithm.
func modeFields(t *types.Named) map[string][]*Val {
	out := map[string][]*Val{}
	str := func(x string) *Val { return &Val{ck: 1, cv: constant.MakeString(x)} }
	mlp := false
	for _, l := range leaves(t) {
		switch lastField(l.path) {
		case "Solver":
			out[l.path] = []*Val{str("sgd"), str("adam"), str("lbfgs")}
		case "EarlyStopping":
			out[l.path] = []*Val{boolVal(true), boolVal(false)}
		case "BatchNormalize":
			mlp = true
			out[l.path] = []*Val{boolVal(true), boolVal(false)}
		}
	}
	if !mlp {
		return nil
	}
	return out
}

// inMode fixes the value of configuration fields.
func (s *Scen) inMode(m map[string]*Val) {
	s.mode = m
	if len(m) == 0 {
		return
	}
	prev := s.a.assume
	s.a.assume = func(o *Obj, p string, t types.Type) *Val {
		if o.kind == OSym && o.path == "" {
			if v := m[o.root+p]; v == isSet || v == isUnset {
				if v == isUnset {
					return zeroVal(t)
				}
				sv := s.a.assume
				s.a.assume = nil
				x := *s.a.initial(o, p, t)
				s.a.assume = sv
				x.nl = mayNon
				return &x
			} else if v != nil && !isRefType(t) {
				return v
			}
		}
		if prev != nil {
			return prev(o, p, t)
		}
		return nil
	}
}
