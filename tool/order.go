package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Iterations whose order the program does not determine: ranging over a map, and
// receiving what several goroutines send.

// unorderedLoop: the loop with blocks l takes its elements in no particular order.
func (a *An) unorderedLoop(fr *frame, l map[*ssa.BasicBlock]bool) bool {
	for b := range l {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
					if _, ok := rg.X.Type().Underlying().(*types.Map); ok && sameLoopMap(a.w.natLoop(b), l) {
						return true
					}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && a.arrival[x] && sameLoopMap(a.w.natLoop(b), l) {
					return true
				}
				if ix, ok := x.X.(*ssa.IndexAddr); ok && fr != nil && x.Op == token.MUL && a.lsHasKind(fr.val(x).ls, LMapOrd) && sameLoopMap(a.w.natLoop(b), l) && a.w.variesInLoop(ix.Index, b) && !a.lsHasKind(fr.val(ix.Index).ls, LMapOrd) {
					return true // over a slice filled in such an order
				}
			}
		}
	}
	return false
}

func sameLoopMap(x, y map[*ssa.BasicBlock]bool) bool {
	if len(x) != len(y) {
		return false
	}
	for b := range x {
		if !y[b] {
			return false
		}
	}
	return true
}

// unorderedHere: the block lies in such a loop of its own function.
func (a *An) unorderedHere(fr *frame, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	for _, l := range a.w.loopsAround(b) {
		if a.unorderedLoop(fr, l) {
			return l
		}
	}
	return nil
}

// unordered: the instruction is executed, directly or through calls, in such a loop.
func (a *An) unordered(ctx *Ctx, in ssa.Instruction) bool {
	for in != nil && in.Block() != nil {
		if a.unorderedHere(nil, in.Block()) != nil {
			return true
		}
		if ctx == nil {
			return false
		}
		in, ctx = ctx.site, ctx.parent
	}
	return false
}

func (w *World) loopsAround(b *ssa.BasicBlock) []map[*ssa.BasicBlock]bool {
	w.natLoop(b)
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []map[*ssa.BasicBlock]bool
	for _, l := range w.allLoops[b.Parent()] {
		if l[b] {
			out = append(out, l)
		}
	}
	return out
}

// scramble marks the elements of a slice as being in the order of an unordered
// iteration.
func (c *callCtx) scramble(v *Val, t types.Type) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return
	}
	a := c.a
	mo := a.label(LMapOrd, 0, "")
	for _, r := range v.refs {
		if r.o.kind != OAlloc {
			continue
		}
		for _, l := range leaves(sl.Elem()) {
			p := r.p + "[]" + l.path
			x := a.get2(c.st, r.o, p, l.typ)
			if x != bottom && !mo.minus(x.ls).empty() {
				c.st = a.set(c.st, r.o, p, l.typ, join(x, x.withLS(mo)))
			}
		}
	}
}

// carried: a slice built up by an unordered loop.
func (c *callCtx) carried(x *ssa.Phi) {
	a, b := c.a, x.Block()
	if !a.ordered {
		return
	}
	if _, ok := x.Type().Underlying().(*types.Slice); !ok {
		return
	}
	l := a.w.natLoop(b)
	if l == nil || !isHeader(b, l) || !a.unorderedLoop(c.fr, l) {
		return
	}
	for i, p := range b.Preds {
		if l[p] && x.Edges[i] != x {
			c.scramble(c.fr.val(x.Edges[i]), x.Type())
		}
	}
}

// keptIn: a slice stored outside of the unordered loop that computes it.
func (c *callCtx) keptIn(x *ssa.Store) {
	a := c.a
	if !a.ordered {
		return
	}
	if _, ok := x.Val.Type().Underlying().(*types.Slice); !ok || a.lsHasKind(c.fr.val(x.Addr).ls, LMapOrd) {
		return
	}
	l := a.unorderedHere(c.fr, x.Block())
	if l == nil {
		return
	}
	root := x.Addr
	for {
		switch y := root.(type) {
		case *ssa.FieldAddr:
			root = y.X
			continue
		case *ssa.IndexAddr:
			root = y.X
			continue
		}
		break
	}
	if in, ok := root.(ssa.Instruction); ok && l[in.Block()] {
		return
	}
	c.scramble(c.fr.val(x.Val), x.Val.Type())
}

// decided: the value new reaches phi x only after a comparison with what x held
// before, so that the outcome (a minimum, a maximum) does not depend on the order.
func decided(x *ssa.Phi, nw ssa.Value) bool {
	for _, old := range x.Edges {
		if old == nw {
			continue
		}
		if refs := old.Referrers(); refs != nil {
			for _, r := range *refs {
				b, ok := r.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch b.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if b.X == nw || b.Y == nw {
						return true
					}
				}
			}
		}
	}
	return false
}

// accumulates: one operand is the running total.
func accumulates(x *ssa.BinOp) bool {
	var from func(v ssa.Value, d int) bool
	seen := map[ssa.Value]bool{}
	from = func(v ssa.Value, d int) bool {
		ph, ok := v.(*ssa.Phi)
		if !ok || seen[v] || d > 4 {
			return false
		}
		seen[v] = true
		for _, e := range ph.Edges {
			if e == ssa.Value(x) || from(e, d+1) {
				return true
			}
		}
		return false
	}
	for _, o := range []ssa.Value{x.X, x.Y} {
		if from(o, 0) {
			return true
		}
		if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if rs := x.Referrers(); rs != nil {
				for _, r := range *rs {
					if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(x) && st.Addr == ld.X {
						return true
					}
				}
			}
		}
	}
	return false
}

// arrives notes that x receives what several goroutines send.
func (c *callCtx) arrives(o *Obj, x *ssa.UnOp) bool {
	a := c.a
	id := o.canon().id
	n := 0
	for _, r := range a.regions[1:] {
		if _, ok := r.sends[id]; ok {
			n++
			if r.multi {
				n++
			}
		}
	}
	if n > 1 {
		if a.arrival == nil {
			a.arrival = map[*ssa.UnOp]bool{}
		}
		a.arrival[x] = true
	}
	return n > 1
}

func timeType(t types.Type) bool { return strings.HasPrefix(shortType(t), "time.") }
