package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- reproducible

func propSeeded(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"seeded-draws: with every random source set, no random number is drawn from the process-wide generators or from a source seeded from the clock",
		"no-clock: nothing read from the clock reaches a result or the state of a model, other than time stamps and durations, or decides when a computation ends",
		"no-map-order, no-arrival-order: nothing that depends on the order in which a map is traversed or in which goroutines finish reaches a result or the state of a model",
		"no-shared-draws: concurrent goroutines do not draw from one source or accumulate into one sum, in whatever order they happen to run",
	}
	parallel(w.entries(), func(e *Entry) {
		r.caseSplit(e.configRoots(), func(r *Result, mode map[string]*Val) {
			for k, v := range mode {
				if v == isUnset && !strings.Contains(k, ".") {
					return // no configuration given, hence no source either
				}
			}
			s := newScen(w)
			a := s.a
			a.ordered, a.seeded = true, true
			s.assumptions()
			s.inMode(mode)
			s.cloneAssume()
			s.inits()
			add := func(rule, key, msg string, ctx *Ctx, in ssa.Instruction) {
				p, f := w.repoSite(ctx, in)
				r.add(&Finding{Rule: rule, Key: fnKey(f) + ":" + key, Pos: w.posOf(p), Msg: msg + " (entry " + e.name + ")", Path: w.path(ctx, in)})
			}
			draws, takes := 0, takesSource(e)
			a.onCall = append(a.onCall, func(x *CallEvent) {
				switch x.name {
				case "global-rand":
					draws++
					add("seeded-draws", "global", "draws from the process-wide random generator", x.ctx, x.instr)
				case "clock-exit":
					add("no-clock", "exit", "the clock decides when the loop ends", x.ctx, x.instr)
				case "draw":
					draws++
					if a.unordered(x.ctx, x.instr) {
						add("no-map-order", "draw", "draws random numbers in the order of a map or of arriving results", x.ctx, x.instr)
					}
					if a.lsHasKind(x.recv.ls, LTime) {
						add("seeded-draws", "clock", "draws from a source seeded from the clock", x.ctx, x.instr)
					}
					for _, ad := range x.recv.refs {
						if takes && !seeds(x.instr) && a.selfMade(x.st, ad, x.recv.ls) {
							add("seeded-draws", "own", fmt.Sprintf("draws from a generator seeded without the random source given (%s)", ad.o.name()), x.ctx, x.instr)
						}
						if v := a.get2(x.st, ad.o, ad.p+"$state", types.Typ[types.Int]); a.lsHasKind(v.ls, LTime) {
							add("seeded-draws", "clock", "draws from a source seeded from the clock", x.ctx, x.instr)
						}
						if a.cur != 0 && a.regions[a.cur].multi && a.shared(ad.o, a.cur) && !a.instanceOwn(x.recv.ls, a.regions[a.cur], ad.p) {
							if sole := a.soleInstance(x.ctx, x.instr, a.cur); sole[a.cur] == "" {
								add("no-shared-draws", "draw", fmt.Sprintf("goroutines draw from the same source %s in the order they happen to run", ad.o.name()), x.ctx, x.instr)
							}
						}
					}
				}
			})
			a.onWrite = append(a.onWrite, func(x *Access) {
				if a.cur == 0 || x.st.locks.empty() || x.typ == nil || strings.Contains(x.p, "$") {
					return
				}
				rg := a.regions[a.cur]
				if !rg.multi || !a.shared(x.o, a.cur) || a.instanceOwn(x.als, rg, x.p) {
					return
				}
				if _, ok := x.typ.Underlying().(*types.Slice); ok || isFloat(x.typ) {
					add("no-shared-draws", cellName(x.o, x.p), fmt.Sprintf("goroutines update %s in the order they happen to run", x.o.name()+x.p), x.ctx, x.instr)
				}
			})
			args := s.args(e)
			v, ok := s.run("e", e.fn, args)
			r.absorb(a, e.name)
			r.ob(1 + draws)
			r.unit("operations", 1)
			r.unit("draws", draws)
			if !ok {
				return
			}
			all := &Val{tup: append([]*Val{v}, args...)}
			for _, f := range a.disordered(s.st, all) {
				r.add(&Finding{Rule: f[0], Key: e.name + ":" + f[1], Pos: w.pos(e.fn.Pos()), Msg: fmt.Sprintf("%s of %s depends on %s", f[1], e.name, f[2])})
			}
		})
	})
	return r
}

// takesSource tells whether a random source is given to an operation: as an
// argument or in a field of its receiver or of one of its arguments.
func takesSource(e *Entry) bool {
	src := func(t types.Type) bool {
		ms := types.NewMethodSet(t)
		return ms.Lookup(nil, "Uint64") != nil && ms.Lookup(nil, "Seed") != nil
	}
	var in func(t types.Type, depth int) bool
	in = func(t types.Type, depth int) bool {
		if src(t) {
			return true
		}
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if src(f.Type()) || depth > 0 && f.Embedded() && in(f.Type(), depth-1) {
				return true
			}
		}
		return false
	}
	for _, p := range e.fn.Params {
		if in(p.Type(), 3) {
			return true
		}
	}
	return false
}

// seeds: a call that seeds a generator draws nothing from it.
func seeds(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if m := ci.Common().Method; m != nil {
		return m.Name() == "Seed"
	}
	f := ci.Common().StaticCallee()
	return f != nil && f.Name() == "Seed"
}

// selfMade tells whether a generator was made by the operation itself, from a
// seed that depends neither on numbers drawn from another source nor on
// anything that is called a seed or a random state.
func (a *An) selfMade(st *State, ad Addr, ls LS) bool {
	o := ad.o
	switch {
	case o.kind == OSym && strings.HasPrefix(o.root, "fresh:") && strings.Contains(o.name(), "rand.New"):
	case o.kind == OAlloc && o.typ != nil && strings.Contains(o.typ.String(), "randomkit."):
	default:
		return false
	}
	ls = ls.union(a.get2(st, o, ad.p+"$state", types.Typ[types.Int]).ls)
	given := false
	ls.each(func(i int) {
		l := a.lt.list[i]
		n := strings.ToLower(l.name)
		given = given || l.kind == LRng && l.id != o.canon().id || l.kind == LInit && (strings.Contains(n, "seed") || strings.Contains(n, "random"))
	})
	return !given
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// disordered lists what is reachable from v and depends on the clock or on an
// order the program does not determine.
func (a *An) disordered(st *State, v *Val) [][3]string {
	var out [][3]string
	seen := map[[3]string]bool{}
	put := func(ls LS, what string, t types.Type) {
		var f [3]string
		switch {
		case a.lsHasKind(ls, LMapOrd):
			f = [3]string{"no-map-order", what, "the order in which a map is traversed or results arrive"}
		case a.lsHasKind(ls, LTime) && !timeType(t):
			f = [3]string{"no-clock", what, "the clock"}
		default:
			return
		}
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, x := range v.tup[0].tup {
		put(x.ls, "the result", types.Typ[types.Int])
	}
	put(v.tup[0].ls, "the result", types.Typ[types.Int])
	objs := a.reach(st, v)
	for i := range a.cinfo {
		ci := a.cinfo[i]
		if _, ok := objs[ci.o]; !ok || ci.typ == nil || strings.HasSuffix(ci.p, "$state") {
			continue
		}
		if x := st.heap.get(uint32(i)); x != nil {
			put(x.ls, posRE.ReplaceAllString(ci.o.name(), "")+ci.p, ci.typ)
		}
	}
	return out
}
