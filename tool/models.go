package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(c *callCtx) *Val

const (
	pMat    = "gonum.org/v1/gonum/mat."
	pFloats = "gonum.org/v1/gonum/floats."
	pBlas64 = "gonum.org/v1/gonum/blas/blas64."
	pBlas32 = "gonum.org/v1/gonum/blas/blas32."
	pStat   = "gonum.org/v1/gonum/stat."
	pXrand  = "golang.org/x/exp/rand."
	pRand   = "math/rand."
)

// ---------------------------------------------------------------- helpers

func f64() types.Type { return types.Typ[types.Float64] }

// dataAddrs returns the storage slices of the matrices/vectors a value denotes.
func (c *callCtx) dataOf(v *Val) *Val {
	var out *Val = bottom
	for _, ad := range v.refs {
		out = join(out, c.dataAt(ad))
	}
	if v.agg != nil {
		if d := v.agg[".Data"]; d != nil {
			out = join(out, d)
		}
	}
	return out.withLS(v.ls.minus(c.a.strideKinds()))
}

func (c *callCtx) dataAt(ad Addr) *Val {
	a := c.a
	if ad.o.kind == OBox {
		// a matrix header by value (General64, ...)
		if t := ad.o.typ; t != nil {
			for _, l := range leaves(t) {
				if l.path == ".Data" || strings.HasSuffix(l.path, ".mat.Data") {
					return a.get(c.st, ad.o, ad.p+l.path, l.typ)
				}
			}
			var out *Val = bottom
			for _, l := range leaves(t) {
				if isRefType(l.typ) {
					x := a.get(c.st, ad.o, ad.p+l.path, l.typ)
					if _, ok := l.typ.Underlying().(*types.Slice); ok {
						out = join(out, x)
					} else {
						out = join(out, c.dataOf(x))
					}
				}
			}
			return out
		}
	}
	if t := typeAt(ad.o.typ, ad.p); ad.o.typ != nil && t != nil {
		if _, ok := t.Underlying().(*types.Struct); ok {
			p := ""
			for _, l := range leaves(t) {
				if l.path == ".mat.Data" || l.path == ".Data" {
					p = l.path
				}
			}
			if p == "" {
				// wrapper around other matrices: every reference leaf
				var out *Val = bottom
				for _, l := range leaves(t) {
					if !isRefType(l.typ) {
						continue
					}
					x := a.get(c.st, ad.o, ad.p+l.path, l.typ)
					switch l.typ.Underlying().(type) {
					case *types.Slice:
						out = join(out, x)
					case *types.Pointer, *types.Interface:
						if len(x.refs) > 0 && x.refs[0].o != ad.o && x.refs[0].o.depth < 6 {
							out = join(out, c.dataOf(x))
						}
					}
				}
				return out
			}
			return a.get(c.st, ad.o, ad.p+p, sliceF64)
		}
	}
	return a.get(c.st, ad.o, ad.p+".mat.Data", sliceF64)
}

// contentLS is the union of the data labels of what an argument denotes.
func (c *callCtx) contentLS(v *Val) LS {
	a := c.a
	ls := v.allLS()
	seen := map[Addr]bool{}
	var rec func(v *Val, d int)
	rec = func(v *Val, d int) {
		if d > 4 {
			return
		}
		for _, ad := range v.refs {
			if seen[ad] || ad.o.kind == OClosure {
				continue
			}
			seen[ad] = true
			t := typeAt(ad.o.typ, ad.p)
			if ad.o.typ != nil && t != nil {
				switch u := t.Underlying().(type) {
				case *types.Slice:
					for _, l := range leaves(u.Elem()) {
						x := c.loadLeaf(ad.o, ad.p+"[]"+l.path, l.typ, v.ls)
						ls = ls.union(x.ls)
						rec(x, d+1)
					}
					continue
				case *types.Map:
					ls = ls.union(a.get(c.st, ad.o, ad.p+"[v]", u.Elem()).allLS())
					continue
				case *types.Struct:
					if strings.HasPrefix(shortType(t), "mat.") || u.NumFields() < 12 {
						for _, l := range leaves(t) {
							if isRefType(l.typ) {
								rec(a.get(c.st, ad.o, ad.p+l.path, l.typ).withLS(v.ls), d+1)
							} else {
								ls = ls.union(a.get(c.st, ad.o, ad.p+l.path, l.typ).ls)
							}
						}
					}
					continue
				case *types.Basic:
					ls = ls.union(c.loadLeaf(ad.o, ad.p, t, v.ls).ls)
					continue
				default:
					continue
				}
			}
			if ad.o.typ == nil {
				// unknown dynamic type: a matrix
				d := a.get(c.st, ad.o, ad.p+".mat.Data", sliceF64)
				for _, r := range d.refs {
					ls = ls.union(c.loadLeaf(r.o, r.p+"[]", f64(), v.ls).ls)
				}
			}
		}
		for _, x := range v.agg {
			rec(x, d+1)
		}
	}
	rec(v, 0)
	return ls.minus(a.structural())
}

// writeElems writes the elements of a slice value.
func (c *callCtx) writeElems(s *Val, et types.Type, v *Val) {
	for _, ad := range s.refs {
		for _, l := range leaves(et) {
			x := v
			if isAgg(et) {
				x = v.agg[l.path]
				if x == nil {
					x = scalar(v.ls)
				}
			}
			c.storeLeaf(ad.o, ad.p+"[]"+l.path, x, l.typ, s.ls, false)
		}
	}
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return f64()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if ar, ok := u.Elem().Underlying().(*types.Array); ok {
			return ar.Elem()
		}
	}
	return f64()
}

// writeMat writes the storage of matrices; zero matrices get storage first.
// setters write elements of existing storage only; other methods with the
// matrix as destination allocate it when it is empty.
var setters = map[string]bool{"Set": true, "SetVec": true, "SetRow": true, "SetCol": true, "SetSym": true, "SetTri": true, "SetDiag": true, "SetBand": true, "SetSymBand": true, "SetTriBand": true, "Zero": true}

func (c *callCtx) writeMat(m *Val, ls LS, idx LS, name string) {
	a := c.a
	for _, ad := range m.refs {
		d := c.dataAt(ad)
		if !setters[name] && ad.o.kind != OBox && ad.o.typ != nil && (len(d.refs) == 0 || (d.nl&mayNil != 0 && ad.o.kind != OSym)) {
			s := c.newSlice(c.tagFor("st", ad.o), sliceF64, scalar(ls))
			d = join(&Val{refs: d.refs, ls: d.ls, nl: mayNon}, s)
			p := c.matDataPath(ad)
			c.storeLeaf(ad.o, ad.p+p, d, sliceF64, LS{}, len(m.refs) == 1)
		}
		d = d.withLS(m.ls).withLS(idx)
		c.writeElems(d, f64(), scalar(ls))
	}
	if m.agg != nil {
		if d := m.agg[".Data"]; d != nil {
			c.writeElems(d.withLS(idx), f64(), scalar(ls))
		}
	}
	_ = a
}

func (c *callCtx) matDataPath(ad Addr) string {
	if t := typeAt(ad.o.typ, ad.p); ad.o.typ != nil && t != nil {
		for _, l := range leaves(t) {
			if l.path == ".mat.Data" || l.path == ".Data" {
				return l.path
			}
		}
	}
	return ".mat.Data"
}

// dimLabels: the shape of symbolic matrices.
func (c *callCtx) dimLabels(m *Val) LS {
	var ls LS
	for _, ad := range m.refs {
		if ad.o.kind == OSym {
			ls = ls.union(c.a.label(LInit, 0, ad.o.root+ad.o.path+ad.p+".dims"))
		}
	}
	return ls
}

func (c *callCtx) matType(name string) types.Type {
	return c.a.w.extType("gonum.org/v1/gonum/mat", name)
}

func (w *World) extType(pkg, name string) types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// newMat allocates a matrix header of the named gonum type over data.
func (c *callCtx) newMat(tag, name string, data *Val, ls LS) *Val {
	t := c.matType(name)
	o := c.alloc(tag, t, "mat."+name+" "+c.a.w.posOf(c.instr))
	c.zeroInit(o, t)
	if data == nil {
		data = c.newSlice(tag+"data", sliceF64, scalar(ls))
	}
	c.st = c.a.set(c.st, o, ".mat.Data", sliceF64, data)
	if o.summary {
		// the header may denote several matrices
	}
	for _, f := range []string{".mat.Rows", ".mat.Cols", ".mat.Stride", ".mat.N", ".mat.Inc"} {
		if typeAt(t, f) != nil {
			c.st = c.a.set(c.st, o, f, types.Typ[types.Int], topScalar)
		}
	}
	for _, r := range data.refs {
		r.o.escaped = r.o.escaped || r.o.kind == OAlloc
	}
	return ref(Addr{o, ""})
}

func (c *callCtx) unionContent(from int) LS {
	var ls LS
	for i := from; i < len(c.args); i++ {
		if i < len(c.argTy) {
			if _, ok := c.argTy[i].Underlying().(*types.Signature); ok {
				continue
			}
		}
		ls = ls.union(c.contentLS(c.args[i]))
	}
	return ls
}

func pure(c *callCtx) *Val {
	return c.resultOpaque("r", c.sig, c.unionContent(0))
}

func diverge(c *callCtx) *Val { c.dead = true; return bottom }

// writes returns a model that writes the slice arguments at the given positions
// and returns the first of them when the function has a result.
func writesSlice(idx ...int) model {
	return func(c *callCtx) *Val {
		ls := c.unionContent(0)
		var first *Val
		for _, i := range idx {
			if i >= len(c.args) {
				continue
			}
			v := c.args[i]
			if first == nil {
				first = v
			}
			if v.agg != nil {
				c.writeMat(v, ls, LS{}, "")
			} else {
				c.writeElems(v, elemType(c.argTy[i]), scalar(ls))
			}
		}
		if c.sig.Results().Len() == 1 && first != nil && isRefType(c.sig.Results().At(0).Type()) {
			return first
		}
		return c.resultOpaque("r", c.sig, ls)
	}
}

// product: the last operand is replaced by a product of the others, none of which
// shares storage with it.
func (c *callCtx) product() *Val {
	dst := c.args[len(c.args)-1]
	own := map[*Obj]bool{}
	for _, r := range dst.agg[".Data"].refs {
		own[r.o] = true
	}
	var ls LS
	for _, x := range c.args[:len(c.args)-1] {
		if x.agg == nil {
			ls = ls.union(x.ls)
			continue
		}
		d := *x.agg[".Data"]
		var refs []Addr
		for _, r := range d.refs {
			if !own[r.o] {
				refs = append(refs, r)
			}
		}
		d.refs = refs
		ls = ls.union(c.contentLS(&d))
	}
	c.writeMat(dst, ls.minus(c.a.structural()), LS{}, "")
	return bottom
}

func (v *Val) isZero() bool { return v.ck == 1 && v.cv != nil && constant.Sign(v.cv) == 0 }

// callClosure calls a function argument with scalar arguments; it is called any
// number of times.
func (c *callCtx) callClosure(f *Val, ft types.Type, tag string, ls LS, mk func(i int, t types.Type) *Val) *Val {
	sig, ok := ft.Underlying().(*types.Signature)
	if !ok {
		return bottom
	}
	var res *Val = bottom
	for it := 0; it < 4; it++ {
		st0 := c.st
		var args []*Val
		var tys []types.Type
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			v := (*Val)(nil)
			if mk != nil {
				v = mk(i, t)
			}
			if v == nil {
				v = c.opaqueOf(fmt.Sprintf("%sa%d", tag, i), t, ls)
			}
			args = append(args, v)
			tys = append(tys, t)
		}
		how, a0, t0, s0 := c.how, c.args, c.argTy, c.sig
		c.sig = sig
		r := c.callValue(f, args, tys, tag)
		c.how, c.args, c.argTy, c.sig = how, a0, t0, s0
		if c.dead {
			c.dead = false
			c.st = st0
			return res
		}
		res = join(res, r)
		c.st = c.a.joinState(st0, c.st)
		if c.st.eq(st0) {
			break
		}
	}
	return res
}

func (c *callCtx) writeState(v *Val, ls LS) {
	for _, ad := range v.refs {
		c.storeLeaf(ad.o, ad.p+"$state", scalar(ls), types.Typ[types.Int], v.ls, false)
	}
}

// draw models a draw from a random source.
func (c *callCtx) draw(src *Val) LS {
	a := c.a
	var ls LS
	for _, ad := range src.refs {
		ls = ls.union(a.label(LRng, ad.o.canon().id, ""))
	}
	c.event("draw", src, nil, ls)
	st := ls
	if a.seeded {
		// the state goes on depending on the seed
		for _, ad := range src.refs {
			st = st.union(a.get2(c.st, ad.o, ad.p+"$state", types.Typ[types.Int]).ls)
		}
	}
	c.writeState(src, st)
	return ls
}

// readState reads the state of a source.
func (c *callCtx) readState(src *Val) {
	for _, ad := range src.refs {
		c.loadLeaf(ad.o, ad.p+"$state", types.Typ[types.Int], src.ls)
	}
}

func (c *callCtx) globalRand() LS {
	ls := c.a.label(LGlobRng, 0, "")
	c.event("global-rand", bottom, c.args, ls)
	return ls
}

// ---------------------------------------------------------------- dispatch

func (w *World) model(f *ssa.Function) model {
	if m, ok := w.modelTab[f.RelString(nil)]; ok {
		return m
	}
	return nil
}

var matGetters = map[string]bool{"At": true, "AtVec": true, "Dims": true, "Len": true, "IsEmpty": true, "IsZero": true, "Caps": true, "Cap": true,
	"Trace": true, "Symmetric": true, "Bandwidth": true, "Triangle": true, "Det": true, "LogDet": true, "Cond": true, "Size": true, "SymBand": true, "TriBand": true, "Diag": true, "MarshalBinary": true, "Kind": true, "Norm": true}
var matAlias = map[string]bool{"T": true, "TVec": true, "TTri": true, "TBand": true, "Grow": true, "GrowSym": true, "Slice": true, "SliceVec": true, "SliceSym": true, "SliceTri": true, "DiagView": true, "TTriBand": true}
var matRaw = map[string]bool{"RawMatrix": true, "RawVector": true, "RawSymmetric": true, "RawTriangular": true, "RawBand": true, "RawSymBand": true, "RawTriBand": true}

var floatsDst = map[string][]int{"Add": {0}, "AddConst": {1}, "AddScaled": {0}, "AddScaledTo": {0}, "AddTo": {0}, "Argsort": {0, 1}, "CumProd": {0}, "CumSum": {0},
	"Div": {0}, "DivTo": {0}, "Mul": {0}, "MulTo": {0}, "Scale": {1}, "ScaleTo": {0}, "Sub": {0}, "SubTo": {0}, "Span": {0}, "LogSpan": {0}, "Reverse": {0}}

var blasPure = map[string]bool{"Nrm2": true, "Asum": true, "Dot": true, "Iamax": true, "DDot": true, "SDDot": true, "Implementation": true, "DSDot": true}

// external decides calls that leave the repository and are not in the table.
func (w *World) external(c *callCtx, f *ssa.Function) *Val {
	rel := f.RelString(nil)
	pkg := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	name := f.Name()
	recv := f.Signature.Recv()
	switch {
	case pkg == "gonum.org/v1/gonum/mat" && recv != nil:
		return w.matMethod(c, name, recv.Type())
	case pkg == "gonum.org/v1/gonum/mat" && strings.HasPrefix(name, "New"):
		// constructors: a trailing []float64 is used as backing storage
		t := strings.TrimPrefix(name, "New")
		if w.extType(pkg, t) != nil && typeAt(w.extType(pkg, t), ".mat.Data") != nil {
			last := c.args[len(c.args)-1]
			if _, ok := c.argTy[len(c.argTy)-1].Underlying().(*types.Slice); ok && len(last.refs) > 0 {
				d := last
				if last.nl&mayNil != 0 {
					d = join(d, c.newSlice("nd", sliceF64, nil))
				}
				return c.newMat("m", t, d, LS{})
			}
			return c.newMat("m", t, nil, LS{})
		}
	case pkg == "gonum.org/v1/gonum/floats" && recv == nil:
		if ix, ok := floatsDst[name]; ok {
			return writesSlice(ix...)(c)
		}
		return pure(c)
	case (pkg == "gonum.org/v1/gonum/blas/blas64" || pkg == "gonum.org/v1/gonum/blas/blas32") && recv == nil:
		if blasPure[name] {
			return pure(c)
		}
		if name == "Swap" {
			return writesSlice(0, 1)(c)
		}
		if c.a.once && (name == "Gemm" || name == "Gemv") && c.args[len(c.args)-2].isZero() {
			return c.product()
		}
		// level 1-3 routines update their last matrix/vector operand
		for i := len(c.args) - 1; i >= 0; i-- {
			if isAgg(c.argTy[i]) || isRefType(c.argTy[i]) {
				return writesSlice(i)(c)
			}
		}
		return pure(c)
	case pkg == "golang.org/x/exp/rand" || pkg == "math/rand" || pkg == "math/rand/v2":
		if recv == nil {
			switch name {
			case "New", "NewSource", "NewZipf", "NewPCG", "NewChaCha8":
				break
			default:
				ls := c.globalRand()
				if name == "Shuffle" {
					c.callClosure(c.args[1], c.argTy[1], "sh", ls, nil)
				}
				return c.resultOpaque("r", c.sig, ls.union(c.unionContent(0)))
			}
		} else {
			return w.randMethod(c, name)
		}
	case pkg == "sort" && recv == nil:
		return w.sortCall(c, name)
	case pkg == "sync/atomic":
		return pure(c)
	case pkg == "reflect":
		return w.reflectCall(c, name)
	}
	if recv != nil {
		if strings.HasPrefix(rel, "(*github.com/pa-m/randomkit.") {
			return w.randMethod(c, name)
		}
		// a method of a library object: it may change the object, nothing else
		if isPtr(recv.Type()) && !pureMethod(rel) {
			c.a.opaque[rel]++
			c.writeState(c.args[0], c.unionContent(0))
		}
		for i := 1; i < len(c.args); i++ {
			if s, ok := c.argTy[i].Underlying().(*types.Signature); ok && s.Params().Len() >= 0 {
				c.callClosure(c.args[i], c.argTy[i], fmt.Sprintf("cb%d", i), LS{}, nil)
			}
		}
		return c.resultOpaque("r", c.sig, c.unionContent(0))
	}
	c.a.opaque[rel]++
	for i := range c.args {
		if _, ok := c.argTy[i].Underlying().(*types.Signature); ok {
			c.callClosure(c.args[i], c.argTy[i], fmt.Sprintf("cb%d", i), LS{}, nil)
		}
	}
	return pure(c)
}

func pureMethod(rel string) bool {
	return strings.HasPrefix(rel, "(time.") || strings.Contains(rel, ").String") || strings.Contains(rel, ").Error")
}

func (w *World) randMethod(c *callCtx, name string) *Val {
	recv := c.args[0]
	src := recv
	// rand.Rand delegates to its source
	var under *Val = bottom
	for _, ad := range recv.refs {
		if t := typeAt(ad.o.typ, ad.p); ad.o.typ != nil && t != nil && typeAt(t, ".src") != nil {
			under = join(under, c.a.get(c.st, ad.o, ad.p+".src", typeAt(t, ".src")))
		}
	}
	if name == "SourceClone" {
		c.readState(recv)
		return c.opaqueOf("clone", c.sig.Results().At(0).Type(), LS{})
	}
	ls := c.draw(src)
	if name == "Seed" && len(c.args) > 1 {
		c.writeState(src, c.args[1].ls)
	}
	for _, ad := range under.refs {
		u := &Val{refs: []Addr{ad}, nl: mayNon, ls: under.ls}
		if dt := c.a.dynType(ad); dt != nil {
			// drive the repository's own source implementation
			ms := w.prog.MethodSets.MethodSet(dt)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "Uint64" && name != "Seed" || ms.At(i).Obj().Name() == "Seed" && name == "Seed" {
					if f := w.prog.MethodValue(ms.At(i)); f != nil && w.interpretable(f) {
						args := []*Val{u}
						if name == "Seed" {
							args = append(args, topScalar)
						}
						h, a0, t0, s0 := c.how, c.args, c.argTy, c.sig
						c.callFn(f, args, nil, nil, c.tagFor("src", ad.o))
						c.dead = false
						c.how, c.args, c.argTy, c.sig = h, a0, t0, s0
					}
				}
			}
		}
		ls = ls.union(c.draw(u))
	}
	if name == "Shuffle" && len(c.args) >= 3 {
		c.callClosure(c.args[2], c.argTy[2], "sh", ls, nil)
	}
	if name == "Read" {
		c.writeElems(c.args[1], types.Typ[types.Byte], scalar(ls))
	}
	return c.resultOpaque("r", c.sig, ls)
}

func (w *World) sortCall(c *callCtx, name string) *Val {
	a := c.a
	switch name {
	case "Float64s", "Ints", "Strings":
		et := elemType(c.argTy[0])
		var v *Val = bottom
		for _, ad := range c.args[0].refs {
			v = join(v, c.loadLeaf(ad.o, ad.p+"[]", et, c.args[0].ls))
		}
		c.sorted(c.args[0], et, v)
		return bottom
	case "Slice", "SliceStable":
		s := c.args[0]
		for _, ad := range s.refs {
			if ad.o.kind == OBox {
				inner := c.unbox(ad, ad.o.typ, s.ls)
				et := elemType(ad.o.typ)
				var v *Val = bottom
				for _, r := range inner.refs {
					v = join(v, c.loadAt(Addr{r.o, r.p + "[]"}, et, inner.ls))
				}
				c.callClosure(c.args[1], c.argTy[1], "less", LS{}, nil)
				c.sorted(inner, et, v)
			}
		}
		return bottom
	case "Sort", "Stable":
		// what is sorted is permuted: elements that were all different stay so
		type elem struct {
			o *Obj
			p string
			t types.Type
		}
		var distinct []elem
		for _, ad := range c.args[0].refs {
			if ad.o.kind != OBox || ad.o.typ == nil {
				continue
			}
			if sl, ok := ad.o.typ.Underlying().(*types.Slice); ok && !isAgg(sl.Elem()) && !isRefType(sl.Elem()) {
				for _, r := range c.unbox(ad, ad.o.typ, LS{}).refs {
					if v := a.get2(c.st, r.o, r.p+"[]", sl.Elem()); a.lsHasKind(v.ls, LCtr) && !a.lsHasKind(v.ls, LDup) {
						distinct = append(distinct, elem{r.o, r.p + "[]", sl.Elem()})
					}
				}
			}
		}
		defer func() {
			for _, d := range distinct {
				v := a.get2(c.st, d.o, d.p, d.t)
				c.st = a.set(c.st, d.o, d.p, d.t, v.setLS(v.ls.minus(a.ctrKinds()).union(a.label(LCtr, 0, ""))))
			}
		}()
		for _, mn := range []string{"Len", "Less", "Swap"} {
			it := c.argTy[0].Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				if m := it.Method(i); m.Name() == mn {
					sig := m.Type().(*types.Signature)
					var args []*Val
					var tys []types.Type
					for j := 0; j < sig.Params().Len(); j++ {
						args = append(args, topScalar)
						tys = append(tys, sig.Params().At(j).Type())
					}
					h, a0, t0, s0 := c.how, c.args, c.argTy, c.sig
					for k := 0; k < 2; k++ {
						st0 := c.st
						c.invoke(a0[0], m, t0[0], args, tys)
						c.dead = false
						c.st = a.joinState(st0, c.st)
					}
					c.how, c.args, c.argTy, c.sig = h, a0, t0, s0
				}
			}
		}
		// the order of the elements is now determined
		for _, ad := range c.args[0].refs {
			if ad.o.kind == OBox {
				if _, ok := ad.o.typ.Underlying().(*types.Slice); ok {
					inner := c.unbox(ad, ad.o.typ, LS{})
					c.clearMapOrd(inner, elemType(ad.o.typ))
				}
			}
		}
		return bottom
	case "Search":
		c.callClosure(c.args[1], c.argTy[1], "s", LS{}, nil)
		return pure(c)
	case "Reverse":
		return c.args[0]
	}
	return pure(c)
}

func (c *callCtx) clearMapOrd(s *Val, et types.Type) {
	a := c.a
	if len(s.refs) == 0 {
		return
	}
	for _, ad := range s.refs {
		for _, l := range leaves(et) {
			v := a.get(c.st, ad.o, ad.p+"[]"+l.path, l.typ)
			c.st = a.set(c.st, ad.o, ad.p+"[]"+l.path, l.typ, v.setLS(v.ls.minus(a.lt.kindMask[LMapOrd])))
			for _, b := range v.refs { // boxed elements
				if b.o.kind == OBox && b.o.typ != nil && !isAgg(b.o.typ) && !isRefType(b.o.typ) {
					x := a.get(c.st, b.o, b.p, b.o.typ)
					c.st = a.set(c.st, b.o, b.p, b.o.typ, x.setLS(x.ls.minus(a.lt.kindMask[LMapOrd])))
				}
			}
		}
	}
}

func (c *callCtx) sorted(s *Val, et types.Type, v *Val) {
	c.writeElems(s, et, v)
	c.clearMapOrd(s, et)
}

func (w *World) reflectCall(c *callCtx, name string) *Val {
	// reflect values are treated as references to what they describe
	switch name {
	case "Set", "SetFloat", "SetInt", "SetString", "SetBool", "SetLen":
		v := c.args[0]
		for _, r := range v.allRefs() {
			c.storeLeaf(r.o, r.p+"$reflect", topScalar, types.Typ[types.Int], v.ls, false)
		}
		return bottom
	}
	r := c.resultOpaque("r", c.sig, c.unionContent(0))
	if c.sig.Results().Len() == 1 && shortType(c.sig.Results().At(0).Type()) == "reflect.Value" && len(c.args) > 0 {
		rr := c.args[0].allRefs()
		n := &Val{refs: rr, nl: mayNon, ls: r.allLS(), agg: map[string]*Val{".ptr": {refs: rr, nl: mayNon}}}
		return n
	}
	return r
}

// matMethod: gonum's convention is that the receiver is the destination and
// every argument is read only.
// noData: the matrix is certainly empty.
func (c *callCtx) noData(m *Val) bool {
	d := c.dataOf(m)
	return len(d.refs) == 0 && d.nl == mayNil
}

func (w *World) matMethod(c *callCtx, name string, rt types.Type) *Val {
	recv := c.args[0]
	a := c.a
	tn := shortType(rt)
	tn = strings.TrimPrefix(strings.TrimPrefix(tn, "*"), "mat.")
	switch {
	case tn == "SVD" || tn == "Cholesky" || tn == "Eigen" || tn == "EigenSym" || tn == "QR" || tn == "LU" || tn == "LQ" || tn == "GSVD" || tn == "HOGSVD" || tn == "BandCholesky":
		return w.factorMethod(c, name, tn)
	case matRaw[name]:
		rtp := c.sig.Results().At(0).Type()
		v := &Val{agg: map[string]*Val{}}
		ls := recv.ls
		d := c.dataOf(recv)
		for _, l := range leaves(rtp) {
			switch l.path {
			case ".Data":
				v.agg[l.path] = d
			case ".Stride":
				var x LS
				for _, r := range d.refs {
					x = x.union(a.label(LStride, r.o.canon().id, ""))
				}
				v.agg[l.path] = scalar(x)
			case ".Inc":
				var x LS
				for _, r := range d.refs {
					x = x.union(a.label(LInc, r.o.canon().id, ""))
				}
				v.agg[l.path] = scalar(x)
			case ".Cols", ".N":
				var x LS
				for _, r := range d.refs {
					x = x.union(a.label(LCols, r.o.canon().id, ""))
				}
				v.agg[l.path] = scalar(x)
			default:
				v.agg[l.path] = scalar(LS{})
			}
			if a.someData && (l.path == ".Rows" || l.path == ".Cols" || l.path == ".N") {
				v.agg[l.path] = v.agg[l.path].withLo(3)
			}
		}
		_ = ls
		if a.layout {
			c.rawLayout(recv, v)
		}
		return v
	case name == "RawRowView":
		d := c.dataOf(recv)
		if len(c.args) > 1 {
			d = d.withLS(c.args[1].ls.minus(a.strideKinds()))
		}
		return d.withLS(a.mark("row"))
	case name == "RowView" || name == "ColView":
		d := c.dataOf(recv).withLS(c.args[1].ls.minus(a.strideKinds()))
		if a.layout && name == "RowView" {
			d = d.withLS(a.mark(inRow))
		}
		m := c.newMat("view", "VecDense", d, LS{})
		m.ls = m.ls.union(c.args[1].ls.minus(a.strideKinds()))
		return m
	case name == "Slice" || name == "SliceVec" || name == "SliceSym":
		d := c.dataOf(recv)
		for _, x := range c.args[1:] {
			d = d.withLS(x.ls.minus(a.strideKinds()))
		}
		if a.windows {
			d = c.window(d)
		}
		n := tn
		m := c.newMat("view", n, d, LS{})
		for _, x := range c.args[1:] {
			m = m.withLS(x.ls.minus(a.strideKinds()))
		}
		return m
	case a.once && (name == "Set" || name == "At" || name == "RawRowView" || name == "RowView" || name == "ColView" || name == "SetRow" || name == "SetCol") && c.noData(recv):
		c.dead = true
		return bottom
	case matAlias[name]:
		return recv
	case name == "Dims" || name == "Caps":
		d := c.dataOf(recv)
		var x LS
		for _, r := range d.refs {
			x = x.union(a.label(LCols, r.o.canon().id, ""))
		}
		dl := c.dimLabels(recv)
		rl := dl
		if a.layout {
			rl = rl.union(a.label(LRows, 0, ""))
		}
		var lo uint8 = 2
		if a.someData {
			lo = 3
		}
		return &Val{tup: []*Val{scalar(rl).withLo(lo), scalar(x.union(dl)).withLo(lo)}}
	case name == "IsEmpty" || name == "IsZero":
		d := c.dataOf(recv)
		if a.emptyMat != nil && len(recv.refs) == 1 {
			if o := recv.refs[0].o; a.emptyMat(o) == 2 || a.emptyMat(o) == 1 && len(d.refs) > 0 && d.refs[0].o.kind == OSym {
				return boolVal(a.emptyMat(o) == 1)
			}
		}
		if len(d.refs) == 0 && d.nl == mayNil {
			return boolVal(true)
		}
		if d.nl == mayNon {
			allAlloc := true
			for _, ad := range recv.refs {
				if ad.o.kind == OSym {
					allAlloc = false
				}
			}
			for _, r := range d.refs {
				if r.o.kind == OSym {
					allAlloc = false
				}
			}
			if allAlloc && len(d.refs) > 0 {
				return boolVal(false)
			}
		}
		return topScalar
	case matGetters[name]:
		var idx LS
		for _, x := range c.args[1:] {
			idx = idx.union(x.ls)
		}
		d := c.dataOf(recv)
		ls := recv.ls.minus(a.structural())
		for _, r := range d.refs {
			ls = ls.union(c.loadLeaf(r.o, r.p+"[]", f64(), d.ls.union(idx)).ls)
		}
		if a.layout && name == "Len" {
			return scalar(ls.union(a.label(LRows, 0, "")))
		}
		return c.resultOpaque("r", c.sig, ls.union(idx.minus(a.structural())))
	case name == "SetRawMatrix" || name == "SetRawVector" || name == "SetRawSymmetric" || name == "SetRawTriangular":
		g := c.args[1]
		for _, ad := range recv.refs {
			for k, x := range g.agg {
				lt := typeAt(a.w.extType("gonum.org/v1/gonum/mat", tn), ".mat"+k)
				if lt == nil {
					lt = types.Typ[types.Int]
				}
				c.storeLeaf(ad.o, ad.p+".mat"+k, x, lt, LS{}, len(recv.refs) == 1)
			}
		}
		return bottom
	case name == "CloneFrom" || name == "Clone" || name == "CloneVec" || name == "CloneFromVec":
		ls := c.unionContent(1)
		s := c.newSlice("clone", sliceF64, scalar(ls))
		for _, ad := range recv.refs {
			c.storeLeaf(ad.o, ad.p+c.matDataPath(ad), s, sliceF64, LS{}, len(recv.refs) == 1)
		}
		return bottom
	case name == "ColViewOf" || name == "RowViewOf":
		d := c.dataOf(c.args[1]).withLS(c.args[2].ls.minus(a.strideKinds()))
		for _, ad := range recv.refs {
			c.storeLeaf(ad.o, ad.p+".mat.Data", d, sliceF64, LS{}, len(recv.refs) == 1)
		}
		return bottom
	case name == "Reset":
		for _, ad := range recv.refs {
			c.storeLeaf(ad.o, ad.p+c.matDataPath(ad), nilVal, sliceF64, LS{}, len(recv.refs) == 1)
		}
		return bottom
	}
	// destination methods
	var idx LS
	var ls LS
	for i := 1; i < len(c.args); i++ {
		t := c.argTy[i]
		if isIntType(t) {
			idx = idx.union(c.args[i].ls)
			continue
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			continue
		}
		ls = ls.union(c.contentLS(c.args[i]))
	}
	for i := 1; i < len(c.args); i++ {
		if _, ok := c.argTy[i].Underlying().(*types.Signature); ok {
			r := c.callClosure(c.args[i], c.argTy[i], fmt.Sprintf("fn%d", i), ls, nil)
			ls = ls.union(r.allLS())
		}
	}
	c.writeMat(recv, ls.union(idx.minus(a.structural())), idx, name)
	return c.resultOpaque("r", c.sig, LS{})
}

func (w *World) factorMethod(c *callCtx, name, tn string) *Val {
	a := c.a
	recv := c.args[0]
	state := func() LS {
		var ls LS
		for _, ad := range recv.refs {
			ls = ls.union(c.loadLeaf(ad.o, ad.p+"$state", types.Typ[types.Int], recv.ls).ls)
		}
		return ls
	}
	inner := func() *Val {
		// slices owned by the factorisation that Factorize reuses
		var out *Val = bottom
		for _, ad := range recv.refs {
			t := w.extType("gonum.org/v1/gonum/mat", tn)
			for _, l := range leaves(t) {
				if !isRefType(l.typ) {
					continue
				}
				x := a.get(c.st, ad.o, ad.p+l.path, l.typ)
				switch l.typ.Underlying().(type) {
				case *types.Slice:
					out = join(out, x)
				case *types.Pointer:
					out = join(out, c.dataOf(x))
				}
			}
		}
		return out
	}
	switch name {
	case "Factorize", "FactorizeTri", "FactorizeDense", "SymRankOne", "ExtendVecSym", "Scale", "Clone", "SetFromU", "Reset", "RankOne":
		ls := c.unionContent(1)
		c.writeState(recv, ls)
		in := inner()
		if len(in.refs) > 0 {
			c.writeElems(in, f64(), scalar(ls))
		}
		// storage is (re)allocated when it does not fit
		for _, ad := range recv.refs {
			t := w.extType("gonum.org/v1/gonum/mat", tn)
			for _, l := range leaves(t) {
				if _, ok := l.typ.Underlying().(*types.Slice); ok {
					s := c.newSlice("fs"+l.path, l.typ, scalar(ls))
					c.st = a.set(c.st, ad.o, ad.p+l.path, l.typ, join(a.get(c.st, ad.o, ad.p+l.path, l.typ), s))
				}
			}
		}
		return c.resultOpaque("r", c.sig, ls)
	case "Values":
		ls := state()
		if len(c.args) > 1 && len(c.args[1].refs) > 0 {
			c.writeElems(c.args[1], f64(), scalar(ls))
		}
		s := c.newSlice("vals", sliceF64, scalar(ls))
		if len(c.args) > 1 {
			s = join(s, &Val{refs: c.args[1].refs, nl: mayNon})
		}
		return s
	}
	ls := c.unionContent(1).union(state())
	// XxxTo(dst, ...) and SolveTo(dst, ...) write dst
	if len(c.args) > 1 && isPtr(c.argTy[1]) && (strings.HasSuffix(name, "To") || strings.HasSuffix(name, "Vec")) {
		c.writeMat(c.args[1], ls, LS{}, "")
		if c.sig.Results().Len() == 1 && isPtr(c.sig.Results().At(0).Type()) {
			r := &Val{refs: c.args[1].refs, nl: mayNon}
			if c.args[1].nl&mayNil != 0 || len(r.refs) == 0 {
				r = join(r, c.opaqueOf("dst", c.sig.Results().At(0).Type(), ls))
			}
			return r
		}
	}
	return c.resultOpaque("r", c.sig, ls)
}

// ---------------------------------------------------------------- builtins

func (c *callCtx) builtin(name string, cc *ssa.CallCommon, args []*Val) *Val {
	a := c.a
	switch name {
	case "len", "cap":
		v := args[0]
		if v.nl == mayNil && len(v.refs) == 0 && isRefType(cc.Args[0].Type()) {
			return &Val{ck: 1, cv: constant.MakeInt64(0)}
		}
		ls := v.ls.minus(a.structural())
		if a.windows {
			ls = ls.minus(a.lt.kindMask[LMark])
		}
		if v.ck == 1 && v.cv != nil && v.cv.Kind() == constant.String {
			return &Val{ck: 1, cv: constant.MakeInt64(int64(len(constant.StringVal(v.cv))))}
		}
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			for _, r := range v.refs {
				ls = ls.union(a.label(LLen, r.o.canon().id, ""))
				if a.layout && !a.inARow(v, r.o) {
					ls = ls.union(a.label(LAll, r.o.canon().id, ""))
				}
			}
			if in, ok := c.instr.(ssa.Value); ok && c.instr.Block() != nil && a.w.variesInLoop(in, c.instr.Block()) {
				ls = ls.union(a.label(LCtr, 0, "")) // the length of a slice that grows
			}
		}
		return scalar(ls).withLo(2 + v.ml)
	case "append":
		return c.doAppend(args[0], args[1], cc.Args[0].Type(), cc.Args[1].Type())
	case "copy":
		et := elemType(cc.Args[0].Type())
		var v *Val = bottom
		if len(args[1].refs) > 0 {
			for _, r := range args[1].refs {
				v = join(v, c.loadAt(Addr{r.o, r.p + "[]"}, et, args[1].ls))
			}
		} else {
			v = scalar(args[1].ls)
		}
		c.how = "copy"
		for _, ad := range args[0].refs {
			c.storeAt(Addr{ad.o, ad.p + "[]"}, v, et, args[0].ls, false)
		}
		for _, f := range a.onBulk {
			if !a.noEvents {
				f(c, args[1], "copy")
				f(c, args[0], "copy")
			}
		}
		return topScalar
	case "delete":
		m := args[0]
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		for _, ad := range m.refs {
			c.storeAt(Addr{ad.o, ad.p + "[v]"}, bottom, mt.Elem(), m.ls.union(args[1].ls), false)
		}
		return bottom
	case "close":
		for _, ad := range args[0].refs {
			c.closeChan(ad.o, len(args[0].refs) == 1)
			c.must(fmt.Sprintf("close:%d", ad.o.canon().id))
		}
		return bottom
	case "panic":
		c.dead = true
		return bottom
	case "recover":
		return &Val{nl: mayNil}
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		var ls LS
		for _, x := range args {
			ls = ls.union(x.ls)
		}
		return scalar(ls)
	case "print", "println":
		return bottom
	case "clear":
		if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			for _, ad := range args[0].refs {
				c.storeAt(Addr{ad.o, ad.p + "[v]"}, bottom, mt.Elem(), args[0].ls, false)
			}
			return bottom
		}
		for _, ad := range args[0].refs {
			c.storeLeaf(ad.o, ad.p+"[]", scalar(LS{}), elemType(cc.Args[0].Type()), args[0].ls, false)
		}
		return bottom
	}
	var ls LS
	for _, x := range args {
		ls = ls.union(x.allLS())
	}
	if v, ok := c.instr.(ssa.Value); ok {
		return c.opaqueOf("bi", v.Type(), ls)
	}
	return bottom
}

func (c *callCtx) doAppend(s, x *Val, st, xt types.Type) *Val {
	a := c.a
	et := elemType(st)
	split := refElem(st)
	c.how = "append"
	if a.layout && !a.noEvents {
		for _, h := range a.onBulk {
			h(c, x, "append")
		}
	}
	var base0, baseR, added *Val = bottom, bottom, bottom
	emptied, trunc := a.lsHasKind(s.ls, LEmpty), a.lsHasKind(s.ls, LTrunc)
	for _, r := range s.refs {
		if emptied {
			break
		}
		if r.p == "" && splitElems(r.o, "[]") && !a.lsHasKind(s.ls, LShift) {
			base0 = join(base0, c.loadAt(Addr{r.o, "[0]"}, et, s.ls))
			baseR = join(baseR, c.loadAt(Addr{r.o, "[+]"}, et, s.ls))
			continue
		}
		v := c.loadAt(Addr{r.o, r.p + "[]"}, et, s.ls)
		base0, baseR = join(base0, v), join(baseR, v)
	}
	if len(x.refs) > 0 {
		for _, r := range x.refs {
			added = join(added, c.loadAt(Addr{r.o, r.p + "[]"}, et, x.ls))
		}
	} else if !isRefType(xt) { // string
		added = scalar(x.ls)
	}
	part := func(v *Val, l leaf) *Val {
		if isAgg(et) {
			v = v.agg[l.path]
			if v == nil {
				return bottom
			}
		}
		if v == bottom {
			return bottom
		}
		return v.setLS(a.elemLS(v.ls, l.typ))
	}
	put := func(o *Obj, p string, v *Val, l leaf) {
		if v == bottom {
			return
		}
		c.st = a.set(c.st, o, p, l.typ, join(a.get2(c.st, o, p, l.typ), v))
		for _, r := range v.refs {
			r.o.escaped = r.o.escaped || r.o.kind == OAlloc
		}
	}
	single := c.firstElem() // the first element and nothing else
	o := c.alloc("app", st, "append "+a.w.posOf(c.instr))
	for _, l := range leaves(et) {
		if !split {
			put(o, "[]"+l.path, join(join(part(base0, l), part(baseR, l)), part(added, l)), l)
			continue
		}
		f, r := part(base0, l), part(baseR, l)
		if !single {
			r = join(r, part(added, l))
		}
		if s.ml == 0 {
			f = join(f, part(added, l))
		}
		put(o, "[0]"+l.path, f, l)
		put(o, "[+]"+l.path, r, l)
	}
	// spare capacity of the first operand may be reused
	for _, r := range s.refs {
		if r.o.kind != OAlloc {
			if trunc && added != bottom {
				c.storeAt(Addr{r.o, r.p + "[]"}, added, et, s.ls.minus(a.structural()), false)
			} else if added != bottom && !c.fullSlice() {
				// beyond what is visible now, but in the same storage
				for _, l := range leaves(et) {
					a.fireWrite(c, r.o, r.p+"[]"+l.path, l.typ, s.ls.minus(a.structural()), part(added, l), true)
				}
			}
			continue
		}
		for _, l := range leaves(et) {
			v := part(added, l)
			if v == bottom {
				continue
			}
			if a.cur != 0 && r.o.roomy() && a.shared(r.o, a.cur) && !c.fullSlice() {
				a.fireWrite(c, r.o, r.p+"[]"+l.path, l.typ, s.ls.minus(a.structural()), v, true)
			}
			if r.p == "" && splitElems(r.o, "[]") {
				if s.ml == 0 {
					put(r.o, "[0]"+l.path, v, l)
				}
				if !single {
					put(r.o, "[+]"+l.path, v, l)
				}
			} else {
				put(r.o, r.p+"[]"+l.path, join(a.get(c.st, r.o, r.p+"[]"+l.path, l.typ), v), l)
			}
		}
	}
	return &Val{refs: mergeRefs(s.refs, []Addr{{o, ""}}), nl: mayNon, ls: s.ls.minus(a.lt.kindMask[LEmpty]), ml: min(s.ml+x.ml, 4)}
}

// firstElem: append(nothing, x)
func (c *callCtx) firstElem() bool {
	call, ok := c.instr.(*ssa.Call)
	if !ok || len(call.Call.Args) != 2 {
		return false
	}
	switch x := call.Call.Args[0].(type) {
	case *ssa.MakeSlice:
		if n, ok := x.Len.(*ssa.Const); !ok || n.Int64() != 0 {
			return false
		}
	case *ssa.Slice: // make with constant capacity
		n, ok := x.High.(*ssa.Const)
		if !ok || n.Int64() != 0 {
			return false
		}
	case *ssa.Const:
		if !x.IsNil() {
			return false
		}
	default:
		return false
	}
	x, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := x.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return ok && arr.Len() == 1
}

// roomy: the storage may be larger than the slice first made of it.
func (o *Obj) roomy() bool {
	switch x := o.instr.(type) {
	case *ssa.MakeSlice:
		return x.Cap != x.Len
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append"
	}
	return false
}

// fullSlice: the slice appended to was given no room to grow, as in s[:n:n].
func (c *callCtx) fullSlice() bool {
	call, ok := c.instr.(*ssa.Call)
	if !ok || len(call.Call.Args) == 0 {
		return false
	}
	sl, ok := call.Call.Args[0].(*ssa.Slice)
	if !ok || sl.Max == nil {
		return false
	}
	if sl.Max == sl.High {
		return true
	}
	m, ok1 := sl.Max.(*ssa.Call)
	h, ok2 := sl.High.(*ssa.Call)
	if ok1 && ok2 {
		b1, ok1 := m.Call.Value.(*ssa.Builtin)
		b2, ok2 := h.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && b1.Name() == "len" && b2.Name() == "len"
	}
	x, ok1 := sl.Max.(*ssa.Const)
	y, ok2 := sl.High.(*ssa.Const)
	return ok1 && ok2 && sameConst(x.Value, y.Value)
}

// get2 is get without an initial value.
func (a *An) get2(st *State, o *Obj, p string, t types.Type) *Val {
	if splitElems(o, p) {
		return join(a.get2(st, o, "[0]"+p[2:], t), a.get2(st, o, "[+]"+p[2:], t))
	}
	if v := st.heap.get(a.cell(o, p, t)); v != nil {
		return v
	}
	return bottom
}

// ---------------------------------------------------------------- table

func models() map[string]model {
	m := map[string]model{}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit"} {
		m[n] = diverge
	}
	for _, n := range []string{"time.Now", "time.Since"} {
		m[n] = func(c *callCtx) *Val {
			ls := c.a.label(LTime, 0, "")
			c.event("clock", bottom, nil, ls)
			return c.resultOpaque("r", c.sig, ls)
		}
	}
	m["strings.EqualFold"] = func(c *callCtx) *Val {
		x, y := c.args[0], c.args[1]
		if x.ck == 1 && y.ck == 1 && x.cv != nil && y.cv != nil {
			return &Val{ck: 1, cv: constant.MakeBool(strings.EqualFold(constant.StringVal(x.cv), constant.StringVal(y.cv))), ls: x.ls.union(y.ls)}
		}
		return pure(c)
	}
	m[pMat+"Row"] = func(c *callCtx) *Val { return rowcol(c) }
	m[pMat+"Col"] = func(c *callCtx) *Val { return rowcol(c) }
	m[pMat+"DenseCopyOf"] = func(c *callCtx) *Val { return c.newMat("m", "Dense", nil, c.contentLS(c.args[0])) }
	m[pMat+"VecDenseCopyOf"] = func(c *callCtx) *Val { return c.newMat("m", "VecDense", nil, c.contentLS(c.args[0])) }
	m[pStat+"SortWeighted"] = writesSlice(0, 1)
	m[pStat+"SortWeightedLabeled"] = writesSlice(0, 1, 2)
	// the most frequent value is chosen among ties in map order
	m[pStat+"Mode"] = func(c *callCtx) *Val {
		ls := c.contentLS(c.args[0]).union(c.contentLS(c.args[1]))
		if c.a.ordered {
			ls = ls.union(c.a.label(LMapOrd, 0, ""))
		}
		return &Val{tup: []*Val{scalar(ls), scalar(ls)}}
	}
	// random sources
	newRand := func(c *callCtx) *Val {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := c.alloc("", t, "rand.New "+c.a.w.posOf(c.instr))
		c.zeroInit(o, t)
		if it := typeAt(t, ".src"); it != nil {
			c.st = c.a.set(c.st, o, ".src", it, c.args[0])
		}
		return ref(Addr{o, ""})
	}
	m[pXrand+"New"] = newRand
	m[pRand+"New"] = newRand
	// distributions over a source
	m["gonum.org/v1/gonum/stat/distmv.NewNormal"] = func(c *callCtx) *Val {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := c.alloc("", t, "distmv.Normal "+c.a.w.posOf(c.instr))
		if it := typeAt(t, ".src"); it != nil {
			c.st = c.a.set(c.st, o, ".src", it, c.args[2])
		}
		return &Val{tup: []*Val{ref(Addr{o, ""}), topScalar}}
	}
	m["(*gonum.org/v1/gonum/stat/distmv.Normal).Rand"] = func(c *callCtx) *Val {
		var ls LS
		for _, ad := range c.args[0].refs {
			t := typeAt(ad.o.typ, ad.p)
			if it := typeAt(t, ".src"); it != nil {
				s := c.a.get(c.st, ad.o, ad.p+".src", it)
				if s.nl&mayNil != 0 {
					ls = ls.union(c.globalRand())
				}
				if len(s.refs) > 0 {
					ls = ls.union(c.draw(s))
				}
			}
		}
		x := c.args[1]
		if len(x.refs) > 0 {
			c.writeElems(x, f64(), scalar(ls))
		}
		return join(&Val{refs: x.refs, nl: mayNon}, c.newSlice("s", sliceF64, scalar(ls)))
	}
	// optimisation drivers call the problem's functions
	m["gonum.org/v1/gonum/optimize.Minimize"] = minimize
	m["github.com/pa-m/optimize.NewBrentMinimizer"] = func(c *callCtx) *Val {
		c.callClosure(c.args[0], c.argTy[0], "f", LS{}, nil)
		return c.resultOpaque("r", c.sig, LS{})
	}
	// synchronisation
	m["(*sync.Mutex).Lock"] = lock
	m["(*sync.RWMutex).Lock"] = lock
	m["(*sync.RWMutex).RLock"] = rlock
	m["(*sync.Mutex).Unlock"] = unlock
	m["(*sync.RWMutex).Unlock"] = unlock
	m["(*sync.RWMutex).RUnlock"] = runlock
	m["(*sync.WaitGroup).Add"] = func(c *callCtx) *Val {
		c.wgAdd(c.args[0], c.args[1], c.instr)
		return bottom
	}
	m["(*sync.WaitGroup).Done"] = func(c *callCtx) *Val {
		c.wgDone(c.args[0])
		return bottom
	}
	m["(*sync.WaitGroup).Wait"] = func(c *callCtx) *Val {
		c.wgWait(c.args[0])
		return bottom
	}
	m["(*sync.WaitGroup).Go"] = func(c *callCtx) *Val {
		wg := c.args[0]
		ci, ok := c.instr.(*ssa.Call)
		if !ok || len(ci.Call.Args) != 2 {
			c.callClosure(c.args[1], c.argTy[1], "wg", LS{}, nil)
			return bottom
		}
		one := &Val{ck: 1, cv: constant.MakeInt64(1)}
		c.wgAdd(wg, one, c.instr)
		c.spawn(c.instr, &ssa.CallCommon{Value: ci.Call.Args[1]}, func() { c.wgDone(wg) })
		return bottom
	}
	m["(*sync.Once).Do"] = func(c *callCtx) *Val {
		c.callClosure(c.args[1], c.argTy[1], "once", LS{}, nil)
		return bottom
	}
	// decoding into arguments
	for n, i := range map[string]int{"encoding/json.Unmarshal": 1, "encoding/binary.Read": 2, "io.ReadFull": 1, "fmt.Sscan": 1, "fmt.Sscanf": 2, "fmt.Fscan": 1} {
		i := i
		m[n] = func(c *callCtx) *Val {
			if i < len(c.args) {
				for _, ad := range c.args[i].refs {
					c.decodeInto(ad)
				}
			}
			return pure(c)
		}
	}
	return m
}

// decodeInto: arbitrary content is written behind an address.
func (c *callCtx) decodeInto(ad Addr) {
	t := typeAt(ad.o.typ, ad.p)
	if ad.o.kind == OBox {
		inner := c.unbox(ad, ad.o.typ, LS{})
		if _, ok := ad.o.typ.Underlying().(*types.Slice); ok {
			c.writeElems(inner, elemType(ad.o.typ), scalar(LS{}))
		}
		return
	}
	if ad.o.typ == nil || t == nil {
		c.storeLeaf(ad.o, ad.p+"$state", topScalar, types.Typ[types.Int], LS{}, false)
		return
	}
	for _, l := range leaves(t) {
		c.storeLeaf(ad.o, ad.p+l.path, c.opaqueOf("dec"+l.path, l.typ, LS{}), l.typ, LS{}, false)
	}
}

func rowcol(c *callCtx) *Val {
	dst, m := c.args[0], c.args[2]
	ls := c.contentLS(m.withLS(c.args[1].ls.minus(c.a.strideKinds()))).union(c.args[1].ls.minus(c.a.structural()))
	var out *Val = bottom
	if len(dst.refs) > 0 {
		c.writeElems(dst, f64(), scalar(ls))
		out = &Val{refs: dst.refs, nl: mayNon, ls: dst.ls}
	}
	if dst.nl&mayNil != 0 || len(dst.refs) == 0 {
		out = join(out, c.newSlice("rc", sliceF64, scalar(ls)))
	}
	return out
}

func lock(c *callCtx) *Val    { return c.acquire("lock") }
func rlock(c *callCtx) *Val   { return c.acquire("rlock") }
func unlock(c *callCtx) *Val  { return c.release("lock") }
func runlock(c *callCtx) *Val { return c.release("rlock") }

func (c *callCtx) acquire(kind string) *Val {
	n := *c.st
	if len(c.args[0].refs) == 1 {
		c.event(kind, c.args[0], nil, LS{})
		id := c.lockID(c.args[0].refs[0], kind)
		c.ordered(id)
		n.held = n.held.with(id)
		n.locks = n.locks.with(id)
		c.a.lockInfos[id].als = c.a.lockInfos[id].als.union(c.args[0].ls)
		c.st = &n
	}
	return bottom
}

func (c *callCtx) release(kind string) *Val {
	n := *c.st
	c.event("un"+kind, c.args[0], nil, LS{})
	for _, ad := range c.args[0].refs {
		id := c.lockID(ad, kind)
		if len(c.args[0].refs) == 1 {
			if !n.locks.has(id) && !c.a.lockInfos[id].elem {
				c.sync("unlock-held", fmt.Sprintf("%s%s may be unlocked without being held", ad.o.name(), ad.p))
			}
			n.held = n.held.minus(LS{}.with(id))
		}
		n.locks = n.locks.minus(LS{}.with(id))
	}
	c.st = &n
	return bottom
}

// lockInfo describes an element of State.locks.
type lockInfo struct {
	o    *Obj
	kind string
	pair int // the other mode of the same lock
	elem bool
	als  LS // labels of its address
}

func (c *callCtx) lockID(ad Addr, kind string) int {
	a := c.a
	id := func(k string) int { return a.mustID(fmt.Sprintf("%s:%d%s", k, ad.o.canon().id, ad.p)) }
	i, other := id(kind), "rlock"
	if kind == "rlock" {
		other = "lock"
	}
	if a.lockInfos == nil {
		a.lockInfos = map[int]*lockInfo{}
	}
	if a.lockInfos[i] == nil {
		a.lockInfos[i] = &lockInfo{o: ad.o, kind: kind, pair: id(other), elem: strings.ContainsAny(ad.p, "[")}
	}
	return i
}

// excludes: a lock held at x and at y keeps the two apart. Instances of region r
// have locks of their own if the lock is made in the region.
func (a *An) excludes(x, y LS, r int) bool {
	hit := false
	x.each(func(i int) {
		li := a.lockInfos[i]
		if li == nil || li.elem || r != 0 && (!a.shared(li.o, r) || li.als.has(a.regions[r].part)) {
			return
		}
		if li.kind == "lock" && (y.has(i) || y.has(li.pair)) || li.kind == "rlock" && y.has(li.pair) {
			hit = true
		}
	})
	return hit
}

func minimize(c *callCtx) *Val {
	prob := c.args[0]
	pt := c.argTy[0]
	ls := c.contentLS(c.args[1])
	x := c.newSlice("x", sliceF64, scalar(ls))
	g := c.newSlice("g", sliceF64, scalar(ls))
	for k := 0; k < 2; k++ {
		for _, n := range []string{"Func", "Grad", "Hess", "Status"} {
			ft := typeAt(pt, "."+n)
			fv := prob.agg["."+n]
			if ft == nil || fv == nil || len(fv.refs) == 0 {
				continue
			}
			r := c.callClosure(fv, ft, n, ls, func(i int, t types.Type) *Val {
				if _, ok := t.Underlying().(*types.Slice); !ok {
					return nil
				}
				if n == "Func" {
					return x
				}
				if i == 0 {
					return &Val{refs: g.refs, nl: mayNil | mayNon, ls: g.ls}
				}
				return x
			})
			ls = ls.union(r.allLS())
		}
		var gl LS
		for _, r := range g.refs {
			gl = c.a.get(c.st, r.o, "[]", f64()).ls
		}
		ls = ls.union(gl)
		for _, r := range x.refs {
			c.st = c.a.set(c.st, r.o, "[]", f64(), scalar(ls))
		}
	}
	// a recorder given in the settings is called during the run
	for _, ad := range c.args[2].refs {
		t := typeAt(ad.o.typ, ad.p)
		rt := typeAt(t, ".Recorder")
		if ad.o.typ == nil || t == nil || rt == nil {
			continue
		}
		rec := c.a.get(c.st, ad.o, ad.p+".Recorder", rt)
		it := rt.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			mth := it.Method(i)
			sig := mth.Type().(*types.Signature)
			var args []*Val
			var tys []types.Type
			for j := 0; j < sig.Params().Len(); j++ {
				args = append(args, c.opaqueOf(fmt.Sprintf("rec%s%d", mth.Name(), j), sig.Params().At(j).Type(), ls))
				tys = append(tys, sig.Params().At(j).Type())
			}
			if len(rec.refs) > 0 {
				h, a0, t0, s0 := c.how, c.args, c.argTy, c.sig
				st0 := c.st
				c.invoke(rec, mth, rt, args, tys)
				c.dead = false
				c.st = c.a.joinState(st0, c.st)
				c.how, c.args, c.argTy, c.sig = h, a0, t0, s0
			}
		}
	}
	// the method object keeps state
	if len(c.args[3].refs) > 0 {
		c.writeState(c.args[3], LS{})
	}
	res := c.resultOpaque("r", c.sig, ls)
	// Result.X is fresh and carries the data labels
	if len(res.tup) > 0 {
		for _, ad := range res.tup[0].refs {
			c.st = c.a.set(c.st, ad.o, ad.p+".Location.X", sliceF64, x)
			c.st = c.a.set(c.st, ad.o, ad.p+".X", sliceF64, x)
		}
		// there is no result when the settings are refused
		v := *res.tup[0]
		v.nl |= mayNil
		res.tup[0] = &v
	}
	return res
}

// ---------------------------------------------------------------- contracts

// contract gives the meaning of a call on an object of unknown dynamic type
// (supplied by the user): the documented contract of the interface. The
// repository's own implementations are checked against the same contract.
func (w *World) contract(c *callCtx, ad Addr, rls LS, name string, it types.Type) (*Val, bool) {
	a := c.a
	recv := &Val{refs: []Addr{ad}, nl: mayNon, ls: rls}
	data := func() *Val { return c.dataOf(recv) }
	readAll := func(idx LS) LS {
		ls := recv.ls.minus(a.structural())
		d := data()
		for _, r := range d.refs {
			ls = ls.union(c.loadLeaf(r.o, r.p+"[]", f64(), d.ls.union(idx)).ls)
		}
		return ls
	}
	var idx LS
	for i, x := range c.args {
		if isIntType(c.argTy[i]) {
			idx = idx.union(x.ls)
		}
	}
	its := types.TypeString(it, nil)
	switch name {
	case "At", "AtVec":
		if strings.Contains(its, "tensor") {
			return nil, false
		}
		return scalar(readAll(idx).union(idx.minus(a.structural()))), true
	case "Dims":
		var x LS
		for _, r := range data().refs {
			x = x.union(a.label(LCols, r.o.canon().id, ""))
		}
		dl := c.dimLabels(recv)
		rl := dl
		if a.layout {
			rl = rl.union(a.label(LRows, 0, ""))
		}
		var lo uint8 = 2
		if a.someData {
			lo = 3
		}
		return &Val{tup: []*Val{scalar(rl).withLo(lo), scalar(x.union(dl)).withLo(lo)}}, true
	case "Len":
		if a.layout {
			return scalar(a.label(LRows, 0, "")), true
		}
		return topScalar, true
	case "T":
		return recv, true
	case "Set", "SetVec", "SetSym":
		var ls LS
		for i, x := range c.args {
			if !isIntType(c.argTy[i]) {
				ls = ls.union(x.ls)
			}
		}
		c.writeMatAlways(recv, ls, idx, name)
		return bottom, true
	case "RawMatrix", "RawVector", "RawSymmetric", "RawTriangular", "RawRowView", "RowView", "ColView":
		if name == "RawMatrix" || name == "RawVector" || name == "RawSymmetric" || name == "RawTriangular" || name == "RawRowView" || name == "RowView" || name == "ColView" {
			args, tys := c.args, c.argTy
			c.args = append([]*Val{recv}, args...)
			c.argTy = append([]types.Type{it}, tys...)
			r := w.matMethod(c, name, types.NewPointer(c.matType("Dense")))
			c.args, c.argTy = args, tys
			return r, true
		}
	case "Fit", "PartialFit":
		c.event("invoke "+name, recv, c.args, LS{})
		ls := c.unionContent(0)
		c.writeState(recv, ls)
		return recv, true
	case "Predict", "PredictProba", "PredictProbas":
		c.event("invoke "+name, recv, c.args, LS{})
		ls := c.unionContent(0)
		if a.once && len(c.args) > 0 {
			ls = c.contentLS(c.args[0])
		}
		if a.windows {
			ls = ls.union(a.mark("PRED"))
		}
		for _, r := range recv.refs {
			ls = ls.union(c.loadLeaf(r.o, r.p+"$state", types.Typ[types.Int], recv.ls).ls)
		}
		var out *Val = c.opaqueOf("pred", c.sig.Results().At(0).Type(), ls)
		if len(c.args) > 1 && len(c.args[1].refs) > 0 {
			c.writeMatAlways(c.args[1], ls, LS{}, "")
			if !types.Identical(c.sig.Results().At(0).Type(), types.Typ[types.Float64]) {
				// the result shares its storage with the caller's matrix
				for _, r := range out.refs {
					c.st = a.set(c.st, r.o, r.p+".mat.Data", sliceF64, join(c.dataOf(c.args[1]), c.newSlice("preddata", sliceF64, scalar(ls))))
				}
			}
		}
		return out, true
	case "Score", "IsClassifier", "GetNOutputs", "String", "IsStationary", "GetNSplits":
		c.event("invoke "+name, recv, c.args, LS{})
		ls := c.unionContent(0)
		for _, r := range recv.refs {
			ls = ls.union(c.loadLeaf(r.o, r.p+"$state", types.Typ[types.Int], recv.ls).ls)
		}
		if a.windows && name != "Score" {
			ls = LS{} // a count, a name or a yes or no
		}
		return c.resultOpaque("r", c.sig, ls), true
	case "Transform", "InverseTransform", "FitTransform":
		c.event("invoke "+name, recv, c.args, LS{})
		ls := c.unionContent(0)
		if name == "FitTransform" {
			c.writeState(recv, ls)
		}
		for _, r := range recv.refs {
			ls = ls.union(c.loadLeaf(r.o, r.p+"$state", types.Typ[types.Int], recv.ls).ls)
		}
		if a.windows && c.sig.Results().Len() == 2 && len(c.args) == 2 {
			// what transformations are held to: the new X does not depend on Y
			x, y := c.resultOpaque(c.tagFor("tr", ad.o), c.sig, c.contentLS(c.args[0]).union(a.mark("TRANSFORMED"))), c.resultOpaque(c.tagFor("try", ad.o), c.sig, ls)
			return &Val{tup: []*Val{x.tup[0], y.tup[1]}}, true
		}
		if a.once {
			ls = ls.minus(a.initLabels(a.outRoot)) // the targets of a transformer that is given none are its own
		}
		return c.resultOpaque(c.tagFor("tr", ad.o), c.sig, ls), true
	case "PredicterClone", "TransformerClone", "SplitterClone", "SourceClone", "CloneWithTheta":
		c.event("invoke "+name, recv, c.args, LS{})
		if name == "SourceClone" {
			c.readState(recv)
		}
		cl := *c.opaqueOf(c.tagFor(name, ad.o), c.sig.Results().At(0).Type(), rls)
		cl.nl = mayNon
		return &cl, true
	case "Uint64", "Seed", "Int63", "Int31", "Intn", "Int31n", "Int63n", "Uint32", "Perm", "Float64", "NormFloat64", "ExpFloat64", "Float32", "Int", "Shuffle":
		if strings.Contains(its, "sort.") {
			return nil, false
		}
		ls := c.draw(recv)
		if name == "Seed" && len(c.args) > 0 {
			c.writeState(recv, c.args[len(c.args)-1].ls)
		}
		if name == "Shuffle" && len(c.args) == 2 {
			c.callClosure(c.args[1], c.argTy[1], "sh", ls, nil)
		}
		return c.resultOpaque("r", c.sig, ls), true
	case "Eval", "Diag", "Theta", "hyperparameters", "Bounds":
		if strings.Contains(its, "kernels.") {
			return c.resultOpaque(c.tagFor("k", ad.o), c.sig, c.unionContent(0).union(rls)), true
		}
	case "Split":
		if strings.Contains(its, "model_selection") {
			c.event("invoke Split", recv, c.args, LS{})
			return w.splitContract(c, ad)
		}
	case "Swap":
		if its == "sort.Interface" {
			c.writeState(recv, LS{})
			return bottom, true
		}
	case "Less":
		return topScalar, true
	case "Read":
		c.writeElems(c.args[0], types.Typ[types.Byte], topScalar)
		return c.resultOpaque("r", c.sig, LS{}), true
	case "Init", "Record", "Status", "Error", "Kind", "Type":
		return c.resultOpaque("r", c.sig, c.unionContent(0)), true
	}
	return nil, false
}

// splitContract: a channel of (train, test) index pairs.
func (w *World) splitContract(c *callCtx, ad Addr) (*Val, bool) {
	a := c.a
	ch, ok := c.sig.Results().At(0).Type().Underlying().(*types.Chan)
	if !ok {
		return nil, false
	}
	o := c.alloc(c.tagFor("split", ad.o), c.sig.Results().At(0).Type(), "splits")
	for _, l := range leaves(ch.Elem()) {
		var v *Val
		if sl, ok := l.typ.Underlying().(*types.Slice); ok {
			mk := a.mark("OTHER")
			if strings.Contains(strings.ToLower(l.path), "train") {
				mk = a.mark("TRAIN")
			} else if strings.Contains(strings.ToLower(l.path), "test") {
				mk = a.mark("TEST")
			}
			v = c.newSlice("idx"+l.path, types.NewSlice(sl.Elem()), scalar(mk)).withLS(mk)
		} else {
			v = scalar(LS{})
		}
		c.st = a.set(c.st, o, "[c]"+l.path, l.typ, v)
	}
	return ref(Addr{o, ""}), true
}

// writeMatAlways writes the storage of matrices of unknown dynamic type.
func (c *callCtx) writeMatAlways(m *Val, ls LS, idx LS, name string) {
	for _, ad := range m.refs {
		if ad.o.typ == nil {
			d := c.dataAt(ad).withLS(m.ls).withLS(idx)
			c.writeElems(d, f64(), scalar(ls))
		} else {
			c.writeMat(&Val{refs: []Addr{ad}, nl: mayNon, ls: m.ls}, ls, idx, name)
		}
	}
}
