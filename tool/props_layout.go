package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// propLayout: matrices handed in by callers may be views of larger ones.
func propLayout(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"own-stride: an index or slice bound into the storage of a matrix that is built from a stride or increment is built from that matrix's own",
		"row-index: rows of a matrix that may be a view are never addressed without its stride (by a row counter alone or by a multiple of the column count)",
		"whole-storage: the storage of a matrix that may be a view is never traversed, copied or handed on as one array",
		"row-end: a slice of the storage of a matrix that may be a view ends with the columns of a row, not a whole stride further",
		"own-header: a header made over the storage of a matrix that may be a view carries that matrix's stride",
	}
	parallel(w.entries(), func(e *Entry) {
		sig := e.fn.Signature
		n := 0
		roots := map[string]bool{}
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			if matrixLike(p.Type()) {
				n++
			}
			roots[paramName(p, i)] = true
		}
		if rv := sig.Recv(); rv != nil && matrixLike(rv.Type()) && !reheads(e.fn) {
			n++
			roots["recv"] = true
		}
		if n == 0 {
			return
		}
		r.unit("entry points", 1)
		r.unit("matrix parameters", n)
		r.caseSplit(e.configRoots(), func(r *Result, mode map[string]*Val) {
			s := newScen(w)
			a := s.a
			a.layout = true
			s.assumptions()
			s.inMode(mode)
			s.inits()
			view := func(o *Obj) bool {
				return o.kind == OSym && roots[o.root] && strings.Contains(o.path, "Data")
			}
			type site struct {
				ctx   *Ctx
				instr ssa.Instruction
				k     string
			}
			found := map[site]*Finding{}
			seen := map[site]bool{}
			set := func(ctx *Ctx, in ssa.Instruction, k, rule string, o *Obj, msg string) {
				st := site{ctx, in, k}
				seen[st] = true
				if rule == "" {
					delete(found, st)
					return
				}
				found[st] = &Finding{Rule: rule, Key: w.fnName(in) + ":" + k + ":" + matName(o), Pos: w.posOf(in), Msg: msg + " (entry " + e.name + ")", Path: w.path(ctx, in)}
			}
			a.onIndex = append(a.onIndex, func(a *An, fr *frame, st *State, in ssa.Instruction, base, idx *Val, idxV ssa.Value) {
				if len(base.refs) == 0 || idx == nil {
					return
				}
				for _, x := range base.refs {
					o := x.o
					ls := idx.ls
					if _, ok := in.(*ssa.IndexAddr); ok {
						ls = ls.union(base.ls.inter(a.lt.kindMask[LStride].union(a.lt.kindMask[LInc])))
					}
					rule, msg := "", ""
					own := a.owns(ls, o)
					fs := a.foreign(ls)
					switch {
					case own:
					case !fs.empty():
						fv := view(o)
						var other string
						fs.each(func(i int) {
							if f := a.objs[a.lt.list[i].id-1]; f != nil {
								fv = fv || view(f)
								other = matName(f)
							}
						})
						if fv {
							rule, msg = "own-stride", fmt.Sprintf("the storage of %s is indexed with the stride of %s", matName(o), other)
						}
					case !view(o) || a.inARow(base, o) || fr.compact(in.Block(), o):
					case a.lsHasKind(ls, LMulCols):
						rule, msg = "row-index", fmt.Sprintf("rows of %s are addressed by a multiple of a column count instead of its stride", matName(o))
					case a.lsHasKind(ls, LAll):
						rule, msg = "whole-storage", fmt.Sprintf("the storage of %s is traversed as one array", matName(o))
					case a.lsHasKind(ls, LRows):
						rule, msg = "row-index", fmt.Sprintf("rows of %s are addressed without its stride", matName(o))
					}
					if view(o) || rule != "" {
						set(fr.ctx, in, "index", rule, o, msg)
					}
				}
			})
			a.onBulk = append(a.onBulk, func(c *callCtx, v *Val, what string) {
				for _, x := range v.refs {
					if !view(x.o) {
						continue
					}
					if a.inARow(v, x.o) || c.fr.compact(c.instr.Block(), x.o) {
						set(c.ctx, c.instr, what, "", x.o, "")
					} else {
						set(c.ctx, c.instr, what, "whole-storage", x.o, fmt.Sprintf("%s is given the storage of %s as one array", what, matName(x.o)))
					}
				}
			})
			a.onHeader = append(a.onHeader, func(c *callCtx, v *Val, what string) {
				d := v.agg[".Data"]
				sv := v.agg[".Stride"]
				for _, x := range d.refs {
					if !view(x.o) {
						continue
					}
					rule, msg := "", ""
					switch {
					case sv != nil:
						if rows := v.agg[".Rows"]; rows != nil && rows.ck == 1 && rows.cv != nil && constant.Compare(rows.cv, token.LEQ, constant.MakeInt64(1)) || a.inARow(d, x.o) || c.fr.compact(c.instr.Block(), x.o) {
							break
						}
						if !a.owns(sv.ls, x.o) && (sv.ck == 1 || !sv.ls.inter(a.extents().union(a.mark("difference"))).empty()) {
							rule, msg = "own-header", fmt.Sprintf("a header over the storage of %s is given another stride", matName(x.o))
						}
					case v.agg[".Inc"] != nil && v.agg[".N"] != nil:
						inc, n := v.agg[".Inc"], v.agg[".N"]
						if !a.owns(inc.ls, x.o) && a.lsHasKind(n.ls, LRows) && !a.inARow(d, x.o) && (inc.ck == 1 || !inc.ls.inter(a.extents()).empty()) {
							rule, msg = "own-header", fmt.Sprintf("a vector over rows of %s is given an increment that is not its stride", matName(x.o))
						}
					}
					set(c.ctx, c.instr, what, rule, x.o, msg)
				}
			})
			a.onSpan = append(a.onSpan, func(c *callCtx, v, high *Val, hv ssa.Value) {
				for _, x := range v.refs {
					if !view(x.o) || !a.owns(high.ls, x.o) {
						continue
					}
					rule := ""
					if c.fr.multiple(hv, x.o, 0) && !c.fr.compact(c.instr.Block(), x.o) {
						rule = "row-end"
					}
					set(c.ctx, c.instr, "slice", rule, x.o, fmt.Sprintf("a slice of the storage of %s reaches a full stride beyond the start of a row, past the end of the last row", matName(x.o)))
				}
			})
			s.run("e", e.fn, s.args(e))
			r.absorb(a, e.name)
			r.ob(len(seen))
			r.unit("uses of storage", len(seen))
			var fs []*Finding
			for _, f := range found {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].Key+fs[i].Pos < fs[j].Key+fs[j].Pos })
			for _, f := range fs {
				r.add(f)
			}
		})
	})
	return r
}

func matrixLike(t types.Type) bool {
	if m, mu := isMatrixIface(t); m || mu || isDensePtr(t) {
		return true
	}
	s := shortType(t)
	return strings.Contains(s, "mat.") || strings.Contains(s, "General") || strings.Contains(s, "blas")
}

func matName(o *Obj) string {
	if o.kind == OSym {
		p := o.path
		for _, x := range []string{".mat.Data", ".Data", "*", "[]"} {
			p = strings.ReplaceAll(p, x, "")
		}
		return strings.TrimSuffix(o.root+p, ".")
	}
	return "a matrix made at " + o.site
}

func (w *World) fnName(in ssa.Instruction) string {
	f := in.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.TrimPrefix(strings.ReplaceAll(f.RelString(nil), modPath+"/", ""), "*")
}

// reheads: the method gives its receiver a header of its own making.
func reheads(f *ssa.Function) bool {
	if len(f.Params) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			addr := st.Addr
			if fa, ok := addr.(*ssa.FieldAddr); ok {
				addr = fa.X
			}
			if addr == f.Params[0] {
				return true
			}
		}
	}
	return false
}
