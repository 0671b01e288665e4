package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the indices of matrix storage come from. A matrix handed in by a caller
// may be a view: its rows are Stride elements apart, of which only Cols belong
// to it. Labels record which storage a stride, increment or column count
// describes (LStride, LInc, LCols), that an index counts rows (LRows) or runs over
// a whole storage (LAll), and whether a slice stays within a row (mark "in-row").

const inRow = "in-row"

// extents are the label kinds of the fields of a matrix header.
func (a *An) extents() LS {
	var s LS
	for _, k := range []LabelKind{LStride, LInc, LCols, LMulCols, LLen, LRows} {
		s = s.union(a.lt.kindMask[k])
	}
	return s
}

func (a *An) owns(ls LS, o *Obj) bool {
	id := o.canon().id
	if ls.has(a.lt.id(Label{LStride, id, ""})) || ls.has(a.lt.id(Label{LInc, id, ""})) {
		return true
	}
	for _, x := range a.sameStep[id] {
		if ls.has(a.lt.id(Label{LStride, x, ""})) {
			return true
		}
	}
	return false
}

// sameStride: a header over storage made by the program was given the stride of
// another matrix, so the same offsets address both.
func (c *callCtx) sameStride(o *Obj, p string) {
	a := c.a
	i := strings.LastIndexByte(p, '.')
	if i < 0 || p[i:] != ".Stride" && p[i:] != ".Data" {
		return
	}
	hdr := typeAt(o.typ, p[:i])
	if hdr == nil || typeAt(hdr, ".Stride") == nil || typeAt(hdr, ".Data") == nil {
		return
	}
	d := a.get(c.st, o, p[:i]+".Data", sliceF64)
	st := a.get(c.st, o, p[:i]+".Stride", types.Typ[types.Int])
	for _, r := range d.refs {
		if r.o.kind != OAlloc {
			continue
		}
		id := r.o.canon().id
		st.ls.inter(a.lt.kindMask[LStride]).each(func(i int) {
			y := a.lt.list[i].id
			for _, z := range a.sameStep[id] {
				if z == y {
					return
				}
			}
			if a.sameStep == nil {
				a.sameStep = map[int][]int{}
			}
			a.sameStep[id] = append(a.sameStep[id], y)
		})
	}
}

// foreign: the offset was built from the stride of another storage only.
func (a *An) foreign(ls LS) LS {
	return ls.inter(a.lt.kindMask[LStride].union(a.lt.kindMask[LInc]))
}

// inARow: the slice v of the storage o is known not to leave a row.
func (a *An) inARow(v *Val, o *Obj) bool {
	return v.ls.has(a.lt.id(Label{LMark, 0, inRow})) || v.ls.has(a.lt.id(Label{LMark, 0, "row"}))
}

// bound: the labels a loop counter gets from the bound it is compared with.
func (fr *frame) bound(x *ssa.Phi) LS {
	a := fr.a
	b := x.Block()
	if !isIntType(x.Type()) || !isHeader(b, a.w.natLoop(b)) {
		return LS{}
	}
	var ls LS
	same := func(v ssa.Value) bool {
		if v == x {
			return true
		}
		if o, ok := v.(*ssa.BinOp); ok && (o.Op == token.ADD || o.Op == token.SUB) {
			return o.X == x && isConst(o.Y) || o.Y == x && isConst(o.X)
		}
		return false
	}
	loop := a.w.natLoop(b)
	for _, e := range x.Edges {
		// stepping by a column count
		if o, ok := e.(*ssa.BinOp); ok && o.Op == token.ADD && (o.X == x || o.Y == x) {
			y := o.Y
			if y == x {
				y = o.X
			}
			fr.val(y).ls.inter(a.lt.kindMask[LCols]).each(func(i int) {
				ls = ls.union(a.label(LMulCols, a.lt.list[i].id, ""))
			})
		}
	}
	for blk := range loop {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || loop[blk.Succs[0]] && loop[blk.Succs[1]] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		default:
			continue
		}
		var o ssa.Value
		if same(cmp.X) {
			o = cmp.Y
		} else if same(cmp.Y) {
			o = cmp.X
		} else {
			continue
		}
		ls = ls.union(fr.val(o).ls.inter(a.lt.kindMask[LRows].union(a.lt.kindMask[LAll])))
	}
	return ls
}

// divided: the labels of a quotient or remainder. The quotient by a stride is a
// row, the remainder a column.
func (a *An) divided(op token.Token, ls, by LS) LS {
	st := by.inter(a.lt.kindMask[LStride])
	rows := ls.inter(a.lt.kindMask[LRows])
	if op == token.QUO && a.lsHasKind(by, LCols) && (a.lsHasKind(ls, LMulCols) || a.lsHasKind(ls, LAll)) {
		st = by
	}
	ls = ls.minus(a.lt.kindMask[LCols]).minus(a.lt.kindMask[LMulCols]) // a part of a row
	if op == token.REM {
		ls = ls.minus(a.lt.kindMask[LRows]).minus(a.lt.kindMask[LAll])
		if a.lsHasKind(by, LRows) {
			ls = ls.union(rows)
		}
		return ls.minus(st)
	}
	ls = ls.minus(st.inter(a.lt.kindMask[LStride])).minus(a.lt.kindMask[LAll])
	if !st.empty() {
		ls = ls.union(a.label(LRows, 0, ""))
	}
	return ls
}

// withinRow marks the slice x of v if it does not extend over several rows.
func (fr *frame) withinRow(x *ssa.Slice, v *Val) LS {
	a := fr.a
	m := a.mark(inRow)
	if x.High == nil {
		if x.Low == nil {
			return LS{}
		}
		return m // up to the caller how far it is read
	}
	h := fr.val(x.High).ls
	if !h.inter(a.lt.kindMask[LCols]).empty() && h.inter(a.lt.kindMask[LMulCols]).empty() {
		return m
	}
	if !h.inter(a.lt.kindMask[LMulCols]).empty() {
		return LS{}
	}
	own := false
	for _, r := range v.refs {
		if h.has(a.lt.id(Label{LAll, r.o.canon().id, ""})) {
			return LS{}
		}
		own = own || a.owns(h, r.o)
	}
	if !own {
		if a.lsHasKind(h, LRows) {
			return LS{}
		}
		return m
	}
	low := false
	for _, r := range v.refs {
		low = low || x.Low != nil && a.owns(fr.val(x.Low).ls, r.o)
	}
	if !low {
		return LS{} // from the first row to another one
	}
	if add, ok := x.High.(*ssa.BinOp); ok && add.Op == token.ADD {
		for _, y := range []ssa.Value{add.X, add.Y} {
			o := false
			for _, r := range v.refs {
				o = o || a.owns(fr.val(y).ls, r.o)
			}
			if !o && !a.lsHasKind(fr.val(y).ls, LRows) {
				if p, q := rowOf(add, y), rowOf(x.Low, nil); p != nil && q != nil && !sameProduct(p, q) {
					return LS{} // from one row to another
				}
				return m
			}
		}
	}
	return LS{}
}

// rowOf: the product of row and stride in an offset that is it, or it and a column.
func rowOf(v, col ssa.Value) *ssa.BinOp {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return nil
	}
	switch b.Op {
	case token.MUL:
		return b
	case token.ADD:
		for _, y := range []ssa.Value{b.X, b.Y} {
			if m, ok := y.(*ssa.BinOp); ok && m.Op == token.MUL && y != col {
				return m
			}
		}
	}
	return nil
}

// sameProduct: two products have the same factors.
func sameProduct(p, q *ssa.BinOp) bool {
	return sameExpr(p.X, q.X, 4) && sameExpr(p.Y, q.Y, 4) || sameExpr(p.X, q.Y, 4) && sameExpr(p.Y, q.X, 4)
}

func sameExpr(x, y ssa.Value, depth int) bool {
	if x == y {
		return true
	}
	if depth == 0 {
		return true
	}
	switch a := x.(type) {
	case *ssa.Const:
		b, ok := y.(*ssa.Const)
		return ok && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
	case *ssa.BinOp:
		b, ok := y.(*ssa.BinOp)
		return ok && a.Op == b.Op && sameExpr(a.X, b.X, depth-1) && sameExpr(a.Y, b.Y, depth-1)
	case *ssa.UnOp:
		b, ok := y.(*ssa.UnOp)
		return ok && a.Op == b.Op && sameExpr(a.X, b.X, depth-1)
	case *ssa.FieldAddr:
		b, ok := y.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameExpr(a.X, b.X, depth-1)
	case *ssa.Field:
		b, ok := y.(*ssa.Field)
		return ok && a.Field == b.Field && sameExpr(a.X, b.X, depth-1)
	case *ssa.Extract:
		b, ok := y.(*ssa.Extract)
		return ok && a.Index == b.Index && sameExpr(a.Tuple, b.Tuple, depth-1)
	case *ssa.Call:
		_, ok := y.(*ssa.Call)
		return ok // may well be
	case *ssa.IndexAddr:
		b, ok := y.(*ssa.IndexAddr)
		return ok && sameExpr(a.X, b.X, depth-1) && sameExpr(a.Index, b.Index, depth-1)
	case *ssa.Convert:
		b, ok := y.(*ssa.Convert)
		return ok && sameExpr(a.X, b.X, depth-1)
	}
	return false
}

// rawLayout corrects the fields RawMatrix reports where the header was built by
// the program itself.
func (c *callCtx) rawLayout(recv *Val, v *Val) {
	a := c.a
	if r := v.agg[".Rows"]; r != nil {
		v.agg[".Rows"] = r.withLS(a.label(LRows, 0, ""))
	}
	if _, vec := v.agg[".Inc"]; vec {
		v.agg[".N"] = v.agg[".N"].withLS(a.label(LRows, 0, ""))
	}
	for _, f := range []string{".Stride", ".Inc", ".Cols"} {
		if v.agg[f] == nil {
			continue
		}
		var x *Val = bottom
		n := 0
		for _, ad := range recv.refs {
			t := typeAt(ad.o.typ, ad.p)
			if t == nil || typeAt(t, ".mat"+f) == nil || ad.o.kind == OSym {
				continue
			}
			h := a.get(c.st, ad.o, ad.p+".mat"+f, types.Typ[types.Int])
			if !h.ls.inter(a.extents()).empty() {
				x = join(x, h)
				n++
			}
		}
		if n > 0 && n == len(recv.refs) {
			v.agg[f] = x
		}
	}
}

// bulk reports library calls given the whole storage of a matrix as if it were
// a plain array, or a header whose stride is not that of its storage.
func (c *callCtx) bulk(f *ssa.Function, args []*Val, argTy []types.Type) {
	a := c.a
	if a.noEvents || f.Object() == nil || f.Object().Pkg() == nil {
		return
	}
	pkg := f.Object().Pkg().Path()
	plain := strings.HasPrefix(pkg, "gonum.org/v1/gonum/floats") || strings.HasPrefix(pkg, "gonum.org/v1/gonum/stat") || pkg == "sort" ||
		pkg == "gonum.org/v1/gonum/mat" && strings.HasPrefix(f.Name(), "New")
	headers := strings.HasPrefix(pkg, "gonum.org/v1/gonum/") || strings.Contains(f.Name(), "Raw")
	for i, v := range args {
		if i >= len(argTy) {
			break
		}
		if _, ok := argTy[i].Underlying().(*types.Slice); ok && plain {
			for _, h := range a.onBulk {
				h(c, v, f.Name())
			}
		}
		if v.agg != nil && v.agg[".Data"] != nil && headers {
			for _, h := range a.onHeader {
				h(c, v, f.Name())
			}
		}
	}
}

// header reports a matrix header the program stores or hands on.
func (c *callCtx) header(fr *frame, x ssa.Value, what string) {
	a := c.a
	v := fr.val(x)
	if !a.layout || a.noEvents || v == nil || v.agg[".Data"] == nil || v.agg[".Stride"] == nil {
		return
	}
	if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
		// just put together: the stride may be one the program worked out
		for _, ad := range fr.val(ld.X).refs {
			if ad.o.kind != OAlloc || ad.p != "" || len(fr.val(ld.X).refs) > 1 {
				continue
			}
			if st := a.get(c.st, ad.o, ".Stride", types.Typ[types.Int]); !st.ls.inter(a.mark("difference")).empty() {
				n := &Val{agg: map[string]*Val{}}
				for k, f := range v.agg {
					n.agg[k] = f
				}
				n.agg[".Stride"] = st
				v = n
			}
		}
	}
	for _, h := range a.onHeader {
		h(c, v, what)
	}
}

// compact: block b is reached only if the stride of o was found equal to
// something else: its column count, or the stride of a matrix without gaps.
func (fr *frame) compact(b *ssa.BasicBlock, o *Obj) bool {
	a := fr.a
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		yes := -1
		switch cmp.Op {
		case token.EQL:
			yes = 0
		case token.NEQ:
			yes = 1
		}
		if yes < 0 || p.Succs[yes] != d || len(d.Preds) != 1 {
			continue
		}
		if a.owns(fr.val(cmp.X).ls, o) || a.owns(fr.val(cmp.Y).ls, o) {
			return true
		}
	}
	return false
}

// multiple: v is built by adding and multiplying strides of o only.
func (fr *frame) multiple(v ssa.Value, o *Obj, depth int) bool {
	a := fr.a
	if !a.owns(fr.val(v).ls, o) || depth > 8 {
		return false
	}
	if a.lsHasKind(fr.val(v).ls, LCols) {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.MUL:
			return true
		case token.ADD, token.SUB:
			return fr.multiple(x.X, o, depth+1) && fr.multiple(x.Y, o, depth+1)
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || isConst(e) {
				continue
			}
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && (b.X == v || b.Y == v) {
				y := b.Y
				if y == v {
					y = b.X
				}
				if !fr.multiple(y, o, depth+1) {
					return false
				}
				continue
			}
			if !fr.multiple(e, o, depth+1) {
				return false
			}
		}
		return true
	}
	return true
}
