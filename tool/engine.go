package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the flow-sensitive part of the abstract machine. It is immutable.
type State struct {
	heap    *PMap
	locks   LS // locks that are certainly held
	held    LS // locks that may be held
	pending LS // regions that may still be running
	must    LS // events that have certainly happened
}

func (s *State) eq(o *State) bool {
	return s == o || (s != nil && o != nil && s.locks.eq(o.locks) && s.held.eq(o.held) && s.pending.eq(o.pending) && s.must.eq(o.must) && peq(s.heap, o.heap))
}

// Ctx is a node of the call tree of one run (full call strings).
type Ctx struct {
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
	kids   map[ctxKey]*Ctx
	memo   *memo
	rec    *frame // active frame
}
type ctxKey struct {
	site ssa.Instruction
	fn   *ssa.Function
	tag  string
}
type memo struct {
	args, binds []*Val
	in          *State
	res         *Val
	out         *State
}

func (c *Ctx) chain() []*ssa.Function {
	var out []*ssa.Function
	for ; c != nil; c = c.parent {
		if c.fn != nil {
			out = append(out, c.fn)
		}
	}
	return out
}

type closureInfo struct {
	fn    *ssa.Function
	nbind int
	recv  *Val // what a method value found in the initial memory is bound to
}

type cellInfo struct {
	o   *Obj
	p   string
	typ types.Type
}
type cellKey struct {
	o int
	p string
}
type allocKey struct {
	ctx   *Ctx
	instr ssa.Instruction
	tag   string
}
type symKey struct {
	o int
	p string
}

// Region is a set of goroutine instances started by one go statement in one
// calling context.
type Region struct {
	id     int
	parent int
	instr  ssa.Instruction
	multi  bool // several instances may run at once
	part   int  // label id
	conc   LS   // regions that may run at the same time
	partq  int
	partr  int
	done   LS // must-events that mark the end of every instance
	writes map[uint32]bool
	sends  map[int]bool // channels sent to; true: repeatedly
	recvs  map[int]bool // channels received from
	acq    LS           // locks taken
	late   LS           // events after which instances still use shared memory
	loose  LS           // wait group events that do not wait for every instance
	ctx    *Ctx
}

// Access describes one read or write of a cell.
type Access struct {
	an     *An
	st     *State
	cell   uint32
	o      *Obj
	p      string
	typ    types.Type
	als    LS // labels of the address (base and indices)
	val    *Val
	instr  ssa.Instruction
	ctx    *Ctx
	how    string // name of the operation for calls into libraries
	region int
	nilcmp bool
	weak   bool
}

func (x *Access) pos() token.Pos { return instrPos(x.instr) }

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	// synthetic instruction: use the nearest one in the block
	b := in.Block()
	if b != nil {
		found := false
		for _, i := range b.Instrs {
			if i == in {
				found = true
			}
			if found && i.Pos().IsValid() {
				return i.Pos()
			}
		}
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

// CallEvent describes a call that a property may care about.
type CallEvent struct {
	an    *An
	st    *State
	name  string // "invoke Fit", "global-rand", ...
	recv  *Val
	args  []*Val
	instr ssa.Instruction
	ctx   *Ctx
	ls    LS
}

// An is one run of the abstract interpreter: one scenario.
type An struct {
	w         *World
	lt        *labelTab
	objs      []*Obj
	cells     map[cellKey]uint32
	cinfo     []cellInfo
	holders   map[*Obj][]uint32
	allocs    map[allocKey]*Obj
	syms      map[symKey]*Obj
	globals   map[*ssa.Global]*Obj
	funcs     map[*ssa.Function]*Obj
	regions   []*Region
	regionOf  map[allocKey]*Region
	cur       int  // current region
	funcSet   bool // hidden function fields are set
	mustIDs   map[string]int
	lockInfos map[int]*lockInfo
	mustNames []string
	assume    func(o *Obj, p string, t types.Type) *Val
	emptyMat  func(o *Obj) int               // 1: a matrix without elements, 2: one with elements
	assumeOK  func(o *Obj, t types.Type) int // 1 true, 2 false, 0 unknown
	onRead    []func(*Access)
	onWrite   []func(*Access)
	onCall    []func(*CallEvent)
	onSync    []func(kind, msg string, c *callCtx)
	lockOrder map[[2]int]*lockEdge
	onBulk    []func(c *callCtx, v *Val, what string)
	onSpan    []func(c *callCtx, v, high *Val, hv ssa.Value)
	onHeader  []func(c *callCtx, v *Val, what string)
	onIndex   []func(a *An, fr *frame, st *State, instr ssa.Instruction, base, idx *Val, idxV ssa.Value)
	visited   map[*ssa.Function]bool
	steps     int
	opaque    map[string]int // calls treated as opaque
	curFn     *ssa.Function
	budget    int
	seeded    bool          // a random state is among the named options
	ordered   bool          // order of iterations is followed
	layout    bool          // where indices of matrix storage come from is followed
	bareElems bool          // fresh elements hold nothing until they are stored
	sameStep  map[int][]int // storage made by the program: the storages whose stride its headers were given
	arrival   map[*ssa.UnOp]bool
	onFn      func(c *callCtx, f *ssa.Function, args []*Val)
	someData  bool // matrices have rows and columns
	windows   bool // parts of slices are kept apart
	winOf     map[*Obj]*Obj
	once      bool   // loops run at least once, goroutines at once, stores replace the caller's content
	outRoot   string // of the caller's matrix whose previous content must not survive (once)
	outObj    *Obj   // the caller's matrix (once)
	undecided bool   // an unknown function was given the caller's matrix (once)
	overwrite bool   // element stores are taken to replace the previous content
	prof      map[string]int
	exceeded  bool
	noEvents  bool
	contract  func(cc *callCtx, recv Addr, name string) (*Val, bool)
	lref      map[int]bool // labels of reference cells
}

func newAn(w *World) *An {
	a := &An{w: w, lt: newLabelTab(), cells: map[cellKey]uint32{}, holders: map[*Obj][]uint32{}, allocs: map[allocKey]*Obj{}, syms: map[symKey]*Obj{},
		globals: map[*ssa.Global]*Obj{}, funcs: map[*ssa.Function]*Obj{}, regionOf: map[allocKey]*Region{},
		lref: map[int]bool{}, mustIDs: map[string]int{}, visited: map[*ssa.Function]bool{}, opaque: map[string]int{}, budget: 3000000, winOf: map[*Obj]*Obj{}}
	a.regions = []*Region{{id: 0}}
	return a
}

func (a *An) label(k LabelKind, id int, name string) LS {
	return LS{}.with(a.lt.id(Label{k, id, name}))
}
func (a *An) mark(name string) LS { return a.label(LMark, 0, name) }
func (a *An) lsHasKind(ls LS, k LabelKind) bool {
	return !ls.inter(a.lt.kindMask[k]).empty()
}
func (a *An) lsStrings(ls LS) []string {
	var out []string
	ls.each(func(i int) { out = append(out, a.lt.list[i].String()) })
	sort.Strings(out)
	return out
}

// structural label kinds describe how an index was built, not data.
func (a *An) structural() LS {
	var s LS
	for _, k := range []LabelKind{LPart, LPartQ, LPartR, LStride, LInc, LCols, LMulCols, LLen, LShift, LTrunc, LEmpty, LCtr, LDup, LRows, LAll, LRange} {
		s = s.union(a.lt.kindMask[k])
	}
	return s
}
func (a *An) ctrKinds() LS     { return a.lt.kindMask[LCtr].union(a.lt.kindMask[LDup]) }
func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }
func (a *An) strideKinds() LS {
	var s LS
	for _, k := range []LabelKind{LStride, LInc, LCols, LMulCols, LLen, LShift, LTrunc, LEmpty, LCtr, LDup, LRows, LAll, LRange} {
		s = s.union(a.lt.kindMask[k])
	}
	return s
}

// elemLS: the labels a value keeps as an element of a container.
func (a *An) elemLS(ls LS, t types.Type) LS {
	n := ls.minus(a.structural())
	if isRefType(t) {
		return n
	}
	if a.layout {
		n = n.union(ls.inter(a.lt.kindMask[LRows]))
	}
	if a.lsHasKind(ls, LCtr) && !a.lsHasKind(ls, LDup) {
		return n.union(a.label(LCtr, 0, ""))
	}
	return n.union(a.label(LDup, 0, ""))
}

func (a *An) mustID(name string) int {
	if i, ok := a.mustIDs[name]; ok {
		return i
	}
	i := len(a.mustNames)
	a.mustIDs[name] = i
	a.mustNames = append(a.mustNames, name)
	return i
}

func (a *An) newObj(k ObjKind, t types.Type, site string) *Obj {
	o := &Obj{id: len(a.objs) + 1, kind: k, typ: t, site: site, region: a.cur}
	a.objs = append(a.objs, o)
	return o
}

// sym creates a root symbolic object.
func (a *An) sym(root string, t types.Type) *Obj {
	o := a.newObj(OSym, t, "")
	o.root = root
	o.region = 0
	return o
}

func (a *An) cell(o *Obj, p string, t types.Type) uint32 {
	k := cellKey{o.id, p}
	if c, ok := a.cells[k]; ok {
		if t != nil && a.cinfo[c].typ == nil {
			a.cinfo[c].typ = t
		}
		return c
	}
	c := uint32(len(a.cinfo))
	a.cells[k] = c
	a.cinfo = append(a.cinfo, cellInfo{o, p, t})
	if o.old != nil && p != "$a" && p != "$p" {
		o.cells = append(o.cells, c)
	}
	return c
}

// initial value of a cell that has never been written.
func (a *An) initial(o *Obj, p string, t types.Type) *Val {
	if o.kind == OGlobal && o.root == "" {
		return a.initialSym(o, p, t)
	}
	if o.kind != OSym {
		return zeroVal(t)
	}
	return a.initialSym(o, p, t)
}

func (a *An) initialSym(o *Obj, p string, t types.Type) *Val {
	if a.assume != nil {
		if v := a.assume(o, p, t); v != nil {
			return v
		}
	}
	full := o.path + p
	ls := a.label(LInit, 0, o.root+full)
	id := a.lt.id(Label{LInit, 0, o.root + full})
	if !isRefType(t) {
		return &Val{ck: 2, ls: ls, id: uint32(id) + 1}
	}
	a.lref[id] = true
	if _, isFn := t.Underlying().(*types.Signature); isFn {
		if v := a.hiddenFunc(o, p, t); v != nil {
			v.ls = ls
			return v
		}
	}
	k := symKey{o.id, p}
	ch, ok := a.syms[k]
	if !ok {
		// recursive structures are folded: a link found again below itself
		// denotes the same summary object
		for q := o; q != nil && q.up != nil && ch == nil; q = q.up {
			if q.upPath == p && p != "" {
				ch = q
				ch.summary = true
			}
		}
		if ch != nil {
		} else if o.depth > 10 {
			ch = o
		} else {
			var ct types.Type
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				ct = u.Elem()
			case *types.Slice:
				ct = t
			case *types.Map:
				ct = t
			case *types.Interface:
				ct = nil
			case *types.Signature:
				ct = t
			default:
				ct = t
			}
			ch = a.newObj(OSym, ct, o.site)
			ch.root, ch.path, ch.depth = o.root, full, o.depth+1
			ch.region = o.region
			ch.up, ch.upPath = o, p
			ch.summary = o.summary || strings.HasSuffix(p, "[]") || strings.Contains(p, "[]") || strings.Contains(p, "[v]")
			if o.kind == OGlobal {
				ch.root = "global:" + o.site
			}
		}
		a.syms[k] = ch
	}
	return &Val{refs: []Addr{{ch, ""}}, nl: mayNil | mayNon, ls: ls}
}

func (a *An) get(st *State, o *Obj, p string, t types.Type) *Val {
	if splitElems(o, p) {
		return join(a.get(st, o, "[0]"+p[2:], t), a.get(st, o, "[+]"+p[2:], t))
	}
	c := a.cell(o, p, t)
	v := st.heap.get(c)
	if o.old != nil && a.published(st, o) {
		if w := st.heap.get(a.cell(o.old, p, t)); w != nil {
			if v == nil {
				return w
			}
			return join(v, w)
		}
	}
	if v != nil {
		return v
	}
	return a.initial(o, p, t)
}

// An allocation site that runs repeatedly has two objects: the most recent
// instance, which is updated strongly as long as only local references to it
// exist, and one that stands for all earlier instances. Storing a reference in
// memory publishes the recent instance: from then on both are treated as one.
func (a *An) published(st *State, o *Obj) bool { return st.heap.get(o.pubCell) != nil }

func (a *An) fold(st *State, o *Obj) *State {
	h := st.heap
	for _, c := range o.cells {
		if v := h.get(c); v != nil {
			ci := a.cinfo[c]
			k := a.cell(o.old, ci.p, ci.typ)
			if w := h.get(k); w != nil {
				v = join(w, v)
			}
			h = h.set(k, v)
		}
	}
	if h == st.heap {
		return st
	}
	n := *st
	n.heap = h
	return &n
}

func (a *An) publish(st *State, v *Val) (*State, *Val) {
	hit := false
	for _, r := range v.refs {
		if r.o.old != nil {
			hit = true
			if !a.published(st, r.o) {
				st = a.fold(st, r.o)
				n := *st
				n.heap = n.heap.set(r.o.pubCell, topScalar)
				st = &n
			}
		}
	}
	if hit {
		v = v.retire(nil)
	}
	return st, v
}

// retire replaces references to the recent instance of a repeated allocation (of
// o, or of any) by references to its earlier instances.
func (v *Val) retire(o *Obj) *Val {
	ch := false
	for _, r := range v.refs {
		if r.o.old != nil && (o == nil || r.o == o) {
			ch = true
		}
	}
	for _, x := range v.agg {
		ch = ch || x.retire(o) != x
	}
	for _, x := range v.tup {
		ch = ch || x.retire(o) != x
	}
	if !ch {
		return v
	}
	n := *v
	n.refs = nil
	for _, r := range v.refs {
		if r.o.old != nil && (o == nil || r.o == o) {
			r.o = r.o.old
		}
		n.refs = mergeRefs(n.refs, []Addr{r})
	}
	if v.agg != nil {
		n.agg = map[string]*Val{}
		for k, x := range v.agg {
			n.agg[k] = x.retire(o)
		}
	}
	if v.tup != nil {
		n.tup = nil
		for _, x := range v.tup {
			n.tup = append(n.tup, x.retire(o))
		}
	}
	return &n
}

// again starts a new instance of a repeated allocation.
func (c *callCtx) again(o *Obj) {
	a := c.a
	if o.old == nil || c.st.heap.get(a.cell(o, "$a", nil)) == nil {
		return
	}
	c.st = a.fold(c.st, o)
	h := c.st.heap.del(o.pubCell)
	for _, k := range o.cells {
		h = h.del(k)
	}
	n := *c.st
	n.heap = h
	c.st = &n
	site := c.instr
	for x := c.ctx; x != nil; site, x = x.site, x.parent {
		fr := x.rec
		if fr == nil {
			continue
		}
		for k, v := range fr.env {
			// values computed after the site are computed anew before they are used
			if in, ok := k.(ssa.Instruction); ok && site != nil && after(site, in) {
				continue
			}
			if w := v.retire(o); w != v {
				fr.env[k] = join(v, w)
			}
		}
		for i, v := range fr.params {
			if w := v.retire(o); w != v {
				ps := append([]*Val{}, fr.params...)
				ps[i] = join(v, w)
				fr.params = ps
			}
		}
	}
}

// after: in is site or comes after it on every path.
func after(site, in ssa.Instruction) bool {
	b, d := site.Block(), in.Block()
	if b == nil || d == nil || b.Parent() != d.Parent() {
		return false
	}
	if b != d {
		return b.Dominates(d)
	}
	for _, x := range b.Instrs {
		if x == site {
			return true
		}
		if x == in {
			return false
		}
	}
	return false
}

func (a *An) set(st *State, o *Obj, p string, t types.Type, v *Val) *State {
	if splitElems(o, p) {
		st = a.set(st, o, "[0]"+p[2:], t, v)
		return a.set(st, o, "[+]"+p[2:], t, v)
	}
	st, v = a.publish(st, v)
	if o.old != nil && a.published(st, o) {
		o = o.old
		v = join(a.get2(st, o, p, t), v)
	}
	c := a.cell(o, p, t)
	h := st.heap.set(c, v)
	if h == st.heap {
		return st
	}
	if len(v.refs) == 1 && v.refs[0].o.kind == OSym && v.refs[0].o.up != nil {
		a.hold(v.refs[0].o, c)
	}
	n := *st
	n.heap = h
	return &n
}

// hold notes that a cell has held the initial content of another.
func (a *An) hold(o *Obj, c uint32) {
	for _, x := range a.holders[o] {
		if x == c {
			return
		}
	}
	if len(a.holders[o]) < 64 {
		a.holders[o] = append(a.holders[o], c)
	}
}

func (a *An) joinState(x, y *State) *State {
	if x == nil || x == y {
		return y
	}
	if y == nil {
		return x
	}
	h := pmerge(x.heap, y.heap,
		func(k uint32, p, q *Val) *Val { return join(p, q) },
		func(k uint32, v *Val) *Val {
			ci := a.cinfo[k]
			if ci.typ == nil {
				return v
			}
			switch ci.o.kind {
			case OSym:
				return join(v, a.initial(ci.o, ci.p, ci.typ))
			case OGlobal:
				return join(v, a.initial(ci.o, ci.p, ci.typ))
			}
			return v // the object does not exist on the other side
		})
	n := &State{heap: h, locks: x.locks.inter(y.locks), held: x.held.union(y.held), pending: x.pending.union(y.pending), must: x.must.inter(y.must)}
	if n.eq(x) {
		return x
	}
	return n
}

// ---------------------------------------------------------------- memory ops

type callCtx struct {
	a     *An
	st    *State // current state, updated by operations
	instr ssa.Instruction
	ctx   *Ctx
	fr    *frame
	args  []*Val
	argTy []types.Type
	sig   *types.Signature
	how   string
	dead  bool // the call does not return
}

// lateUse notes the use of shared memory by a goroutine after it has signalled.
func (a *An) lateUse(c *callCtx, o *Obj) {
	if a.cur == 0 || c.st.must.empty() || !a.shared(o, a.cur) {
		return
	}
	for r := a.cur; r != 0; r = a.regions[r].parent {
		a.regions[r].late = a.regions[r].late.union(c.st.must)
	}
}

func (a *An) fireRead(c *callCtx, o *Obj, p string, t types.Type, als LS, v *Val) {
	if a.noEvents {
		return
	}
	o = o.canon()
	a.lateUse(c, o)
	x := &Access{an: a, st: c.st, cell: a.cell(o, p, t), o: o, p: p, typ: t, als: als, val: v, instr: c.instr, ctx: c.ctx, how: c.how, region: a.cur}
	for _, f := range a.onRead {
		f(x)
	}
}

func (a *An) fireWrite(c *callCtx, o *Obj, p string, t types.Type, als LS, v *Val, weak bool) {
	o = o.canon()
	if a.cur != 0 {
		for r := a.cur; r != 0; r = a.regions[r].parent {
			a.regions[r].writes[a.cell(o, p, t)] = true
		}
	}
	if a.noEvents {
		return
	}
	a.lateUse(c, o)
	x := &Access{an: a, st: c.st, cell: a.cell(o, p, t), o: o, p: p, typ: t, als: als, val: v, instr: c.instr, ctx: c.ctx, how: c.how, region: a.cur, weak: weak}
	for _, f := range a.onWrite {
		f(x)
	}
}

// load reads a value of type t at every address of addr.
func (c *callCtx) load(addr *Val, t types.Type) *Val {
	var out *Val = bottom
	for _, ad := range addr.refs {
		out = join(out, c.loadAt(ad, t, addr.ls))
	}
	return out
}

func (c *callCtx) loadAt(ad Addr, t types.Type, als LS) *Val {
	if isAgg(t) {
		v := &Val{agg: map[string]*Val{}}
		for _, l := range leaves(t) {
			v.agg[l.path] = c.loadLeaf(ad.o, ad.p+l.path, l.typ, als)
		}
		return v
	}
	return c.loadLeaf(ad.o, ad.p, t, als)
}

func (c *callCtx) loadLeaf(o *Obj, p string, t types.Type, als LS) *Val {
	if splitElems(o, p) {
		return join(c.loadLeaf(o, "[0]"+p[2:], t, als), c.loadLeaf(o, "[+]"+p[2:], t, als))
	}
	a := c.a
	v := a.get(c.st, o, p, t)
	a.fireRead(c, o, p, t, als, v)
	// labels contributed by the address
	add := als.minus(a.strideKinds())
	if isRefType(t) {
		if !distinctObjs(v) {
			add = add.minus(a.structural())
		}
	} else if a.lsHasKind(v.ls, LCtr) && !a.lsHasKind(v.ls, LDup) {
		// elements that are all different: the value identifies the instance
		// when its index does
	} else {
		add = add.minus(a.structural())
		if strings.Contains(p, "[") {
			v = v.setLS(v.ls.minus(a.lt.kindMask[LCtr]).minus(a.lt.kindMask[LDup]))
		}
	}
	v = v.withLS(add)
	if a.seeded && o.kind == OAlloc && types.IsInterface(t) && len(v.refs) > 0 && v.nl&mayNil != 0 && strings.Contains(p, "[") {
		x := *v
		x.nl = mayNon // tables are filled before they are used
		v = &x
	}
	// headers of matrices: remember whose stride / column count this is
	if i := strings.LastIndexByte(p, '.'); i >= 0 {
		made := a.layout && !v.ls.inter(a.extents()).empty()
		switch p[i:] {
		case ".Rows":
			if a.layout {
				v = v.withLS(a.label(LRows, 0, ""))
			}
		case ".Stride":
			v = v.withLS(a.storageLabels(c.st, o, p[:i], LStride, made))
		case ".Cols", ".N":
			v = v.withLS(a.storageLabels(c.st, o, p[:i], LCols, made))
		case ".Inc":
			v = v.withLS(a.storageLabels(c.st, o, p[:i], LInc, made))
		}
		if a.someData && o.kind == OSym && strings.HasPrefix(o.root, "in_") && (p[i:] == ".Rows" || p[i:] == ".Cols" || p[i:] == ".N") {
			v = v.withLo(3)
		}
	}
	return v
}

func (a *An) storageLabels(st *State, o *Obj, hdr string, k LabelKind, made bool) LS {
	var ls LS
	d := a.get(st, o, hdr+".Data", sliceF64)
	for _, r := range d.refs {
		if made && r.o.kind == OSym {
			continue // the program itself says what the stride is
		}
		ls = ls.union(a.label(k, r.o.canon().id, ""))
	}
	return ls
}

var sliceF64 = types.NewSlice(types.Typ[types.Float64])

// store writes v of type t at every address of addr.
func (c *callCtx) store(addr *Val, v *Val, t types.Type) {
	strong := len(addr.refs) == 1
	for _, ad := range addr.refs {
		c.storeAt(ad, v, t, addr.ls, strong)
	}
}

func (c *callCtx) storeAt(ad Addr, v *Val, t types.Type, als LS, strong bool) {
	if isAgg(t) {
		for _, l := range leaves(t) {
			x := v.agg[l.path]
			if x == nil {
				x = zeroVal(l.typ)
				if v == bottom {
					x = bottom
				}
			}
			c.storeLeaf(ad.o, ad.p+l.path, x, l.typ, als, strong)
		}
		return
	}
	c.storeLeaf(ad.o, ad.p, v, t, als, strong)
}

func (c *callCtx) storeLeaf(o *Obj, p string, v *Val, t types.Type, als LS, strong bool) {
	if splitElems(o, p) {
		c.storeLeaf(o, "[0]"+p[2:], v, t, als, strong)
		c.storeLeaf(o, "[+]"+p[2:], v, t, als, strong)
		return
	}
	a := c.a
	if strings.HasSuffix(p, "]") || strings.Contains(p, "[k]") || strings.Contains(p, "[v]") {
		// element cells keep data labels only
		own := LS{}
		if strings.Contains(p, "[c]") {
			own = v.ls.inter(a.lt.kindMask[LPart]) // a message names the instance that sent it
		}
		v = v.setLS(a.elemLS(v.ls, t).union(own))
		if a.lsHasKind(als, LMapOrd) {
			v = v.setLS(v.ls.minus(a.lt.kindMask[LMapOrd]))
		}
	} else if strings.Contains(p, "[") && !isRefType(t) {
		if !strings.Contains(p, "[c]") {
			v = v.setLS(v.ls.minus(a.structural().minus(a.ctrKinds())))
		}
		if !a.lsHasKind(v.ls, LCtr) {
			v = v.withLS(a.label(LDup, 0, ""))
		}
	} else if !isRefType(t) && !isIntType(t) {
		v = v.setLS(v.ls.minus(a.strideKinds().minus(a.ctrKinds())))
	}
	if o.summary || strings.Contains(p, "[") {
		strong = false
	}
	if a.cur != 0 && a.shared(o, a.cur) {
		strong = false
	}
	a.fireWrite(c, o, p, t, als, v, !strong)
	if a.outObj != nil && !a.noEvents {
		c.since(o, p, t)
	}
	for _, r := range v.refs {
		if r.o.kind == OAlloc || r.o.kind == OBox {
			r.o.escaped = true
		}
	}
	if !strong {
		old := a.get(c.st, o, p, t)
		if (a.once || a.windows) && !isRefType(t) {
			old = old.setLS(old.ls.minus(a.initLabels(a.outRoot)))
		}
		if a.overwrite && o.kind == OSym {
			own := Label{LInit, 0, o.root + o.path + p}
			if id, ok := a.lt.ids[own]; ok && !v.ls.has(id) {
				old = old.setLS(old.ls.minus(LS{}.with(id)))
			}
		}
		v = join(old, v)
	}
	c.st = a.set(c.st, o, p, t, v)
	if a.layout {
		c.sameStride(o, p)
	}
	if b := a.winOf[o]; b != nil {
		c.storeLeaf(b, p, v, t, als, false)
	}
}

// atLeast decides a comparison of a number with a known lower bound and a constant.
func atLeast(l *Val, op token.Token, r *Val) (*Val, bool) {
	if l.ck == 1 && r.ck == 2 {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if l.ck != 2 || l.lower() < 3 || r.ck != 1 || r.cv == nil {
		return nil, false
	}
	n, ok := constant.Int64Val(r.cv)
	lo := int64(l.lower()) - 2
	switch {
	case !ok:
		return nil, false
	case lo > n:
		return boolVal(op == token.NEQ || op == token.GTR || op == token.GEQ), true
	case lo == n && (op == token.LSS || op == token.GEQ):
		return boolVal(op == token.GEQ), true
	}
	return nil, false
}

// window gives part of a storage of its own: what is stored through it is also in
// the whole, but the other parts of the whole are not in it.
func (c *callCtx) window(v *Val) *Val {
	a := c.a
	n := *v
	n.refs = nil
	for _, r := range v.refs {
		t := typeAt(r.o.typ, r.p)
		if sl, ok := t.(*types.Slice); !ok || r.o.kind != OAlloc || r.p != "" || isRefType(sl.Elem()) || isAgg(sl.Elem()) {
			n.refs = append(n.refs, r)
			continue
		}
		for x := r.o; x != nil; x = a.winOf[x] {
			if x.ctx == c.ctx && x.instr == c.instr {
				return v // in a loop
			}
		}
		o := c.alloc(c.tagFor("win", r.o), r.o.typ, "part")
		a.winOf[o] = r.o
		et := typeAt(r.o.typ, r.p).(*types.Slice).Elem()
		if c.st.heap.get(a.cell(o, "[]", et)) == nil {
			c.st = a.set(c.st, o, "[]", et, scalar(LS{}))
		}
		n.refs = append(n.refs, Addr{o, ""})
	}
	return &n
}

// since keeps the storages written to after the caller's matrix was.
func (c *callCtx) since(o *Obj, p string, t types.Type) {
	a := c.a
	out := o == a.outObj
	if !out {
		if isRefType(t) || !strings.HasSuffix(p, "]") {
			return
		}
		for _, r := range c.dataAt(Addr{a.outObj, ""}).refs {
			out = out || r.o == o
		}
	}
	var v *Val = bottom
	if !out {
		v = join(a.get2(c.st, a.outObj, "$since", sliceF64), ref(Addr{o, ""}))
	}
	n := *c.st
	n.heap = n.heap.set(a.cell(a.outObj, "$since", sliceF64), v)
	c.st = &n
}

// shared reports whether object o may be seen by another instance of region r.
func (a *An) shared(o *Obj, r int) bool {
	if o.priv[r] {
		return false
	}
	for x := o.region; x != 0; x = a.regions[x].parent {
		if x == r {
			return false
		}
	}
	return true
}

func (c *callCtx) alloc(tag string, t types.Type, site string) *Obj {
	a := c.a
	k := allocKey{c.ctx, c.instr, tag}
	o, ok := a.allocs[k]
	if !ok {
		o = a.newObj(OAlloc, t, site)
		o.ctx, o.instr = c.ctx, c.instr
		a.allocs[k] = o
		if c.instr != nil && c.instr.Block() != nil && a.w.inLoop(c.instr.Block()) {
			o.summary = true
		}
		c.markRep(o)
	}
	return o
}

// markRep notes that o is one of several objects made by the same site.
func (c *callCtx) markRep(o *Obj) {
	o.rep = o.summary
	for x := c.ctx; x != nil && !o.rep; x = x.parent {
		o.rep = x.site != nil && x.site.Block() != nil && c.a.w.inLoop(x.site.Block())
	}
}

// allocR is alloc for sites whose repeated instances are told apart.
func (c *callCtx) allocR(t types.Type, site string) *Obj {
	a := c.a
	k := allocKey{c.ctx, c.instr, ""}
	o, ok := a.allocs[k]
	if !ok {
		o = c.alloc("", t, site)
		if o.rep {
			o.summary = false
			o.old = a.newObj(OAlloc, t, site)
			o.old.summary = true
			o.old.ctx, o.old.instr = o.ctx, o.instr
			o.pubCell = a.cell(o, "$p", nil)
		}
	}
	c.again(o)
	return o
}

// freshAlloc (re)initialises an allocation with zero values.
func (c *callCtx) zeroInit(o *Obj, t types.Type) {
	c.wgInit(o, "", t)
	a := c.a
	mk := a.cell(o, "$a", nil)
	if o.old == nil && c.st.heap.get(mk) != nil && o.escaped {
		o.summary = true
	}
	for _, l := range leaves(t) {
		z := zeroVal(l.typ)
		if a.bareElems && strings.HasPrefix(l.path, "[]") {
			z = bottom
		}
		if o.summary {
			if old := c.st.heap.get(a.cell(o, l.path, l.typ)); old != nil {
				z = join(old, z)
			}
		}
		c.st = a.set(c.st, o, l.path, l.typ, z)
	}
	n := *c.st
	n.heap = n.heap.set(mk, topScalar)
	c.st = &n
}

// newSlice allocates backing storage for a slice type.
func (c *callCtx) newSlice(tag string, t types.Type, content *Val) *Val {
	et := t.Underlying().(*types.Slice).Elem()
	o := c.alloc(tag, t, "make "+c.a.w.posOf(c.instr))
	c.initElems(o, et, content)
	return ref(Addr{o, ""})
}

func (c *callCtx) initElems(o *Obj, et types.Type, content *Val) {
	a := c.a
	mk := a.cell(o, "$a", nil)
	again := c.st.heap.get(mk) != nil
	if again && o.escaped && o.old == nil {
		o.summary = true
	}
	for _, l := range leaves(et) {
		z := zeroVal(l.typ)
		if a.bareElems {
			z = bottom
		}
		if content != nil {
			if isAgg(et) {
				if x := content.agg[l.path]; x != nil {
					z = x
				}
			} else {
				z = content
			}
		}
		if o.summary && again {
			z = join(a.get(c.st, o, "[]"+l.path, l.typ), z)
		}
		c.st = a.set(c.st, o, "[]"+l.path, l.typ, z)
	}
	n := *c.st
	n.heap = n.heap.set(mk, topScalar)
	c.st = &n
}

// freshSym makes an opaque object of unknown content (result of an opaque call).
func (c *callCtx) freshSym(tag string, t types.Type, what string) *Obj {
	a := c.a
	k := allocKey{c.ctx, c.instr, tag}
	o, ok := a.allocs[k]
	if !ok {
		o = a.newObj(OSym, t, what)
		o.root = "fresh:" + what
		o.ctx, o.instr = c.ctx, c.instr
		a.allocs[k] = o
		if c.instr != nil && c.instr.Block() != nil && a.w.inLoop(c.instr.Block()) {
			o.summary = true
		}
		c.markRep(o)
	}
	return o
}

// opaqueOf builds a value of type t about which only the labels are known.
func (c *callCtx) opaqueOf(tag string, t types.Type, ls LS) *Val {
	ls = ls.minus(c.a.structural())
	switch u := t.(type) {
	case *types.Tuple:
		v := &Val{}
		for i := 0; i < u.Len(); i++ {
			v.tup = append(v.tup, c.opaqueOf(fmt.Sprintf("%s#%d", tag, i), u.At(i).Type(), ls))
		}
		return v
	}
	if isAgg(t) {
		v := &Val{agg: map[string]*Val{}}
		for _, l := range leaves(t) {
			v.agg[l.path] = c.opaqueOf(tag+l.path, l.typ, ls)
		}
		return v
	}
	if !isRefType(t) {
		return scalar(ls)
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		o := c.freshSym(tag, nil, "error")
		return &Val{refs: []Addr{{o, ""}}, nl: mayNil | mayNon, ls: ls}
	}
	var ct types.Type
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ct = u.Elem()
	case *types.Interface:
		ct = nil
	default:
		ct = t
	}
	o := c.freshSym(tag, ct, "result of "+c.how)
	return &Val{refs: []Addr{{o, ""}}, nl: mayNon, ls: ls}
}

// ---------------------------------------------------------------- frames

type frame struct {
	a                  *An
	fn                 *ssa.Function
	ctx                *Ctx
	env                map[ssa.Value]*Val
	binds              []*Val
	params             []*Val
	in                 map[*ssa.BasicBlock]*State
	edges              map[[2]int]bool
	dirty              map[*ssa.BasicBlock]bool
	back               map[*ssa.BasicBlock]*State // what the bodies of loops leave behind (once)
	undecided, decided map[*ssa.BasicBlock]bool
	cur                *ssa.BasicBlock
	defers             []*ssa.Defer
	ret                *Val
	out                *State
	hitRec             bool
	recRet             *Val
}

func (fr *frame) val(v ssa.Value) *Val {
	a := fr.a
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		return &Val{ck: 1, cv: x.Value}
	case *ssa.Global:
		return ref(Addr{a.global(x), ""})
	case *ssa.Function:
		return ref(Addr{a.funcObj(x), ""})
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
		return bottom
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.params) {
				return fr.params[i]
			}
		}
		return bottom
	}
	if ph, ok := v.(*ssa.Phi); ok && fr.cur != nil && ph.Block() != fr.cur {
		if a.once {
			if r := fr.afterLoop(ph); r != nil {
				return r
			}
		}
		if fs := a.w.facts(fr.fn)[fr.cur]; len(fs) > 0 {
			if r, ok := fr.restricted(ph, fs, map[*ssa.Phi]bool{}); ok {
				return r
			}
		}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return bottom
}

// afterLoop: what a variable of a loop that was gone round holds after it.
func (fr *frame) afterLoop(ph *ssa.Phi) *Val {
	h := ph.Block()
	if fr.back[h] == nil {
		return nil
	}
	loop := fr.a.w.natLoop(h)
	if loop == nil || loop[fr.cur] || !isHeader(h, loop) {
		return nil
	}
	for b := range loop {
		for _, t := range b.Succs {
			if b != h && !loop[t] && len(t.Succs) > 0 {
				return nil
			}
		}
	}
	var v *Val = bottom
	for i, p := range h.Preds {
		if !loop[p] || !fr.edges[[2]int{p.Index, h.Index}] {
			continue
		}
		if q, ok := ph.Edges[i].(*ssa.Phi); ok && q.Block() == h {
			return nil // not given a value every time
		}
		v = join(v, fr.val(ph.Edges[i]))
	}
	return v
}

// restricted evaluates a phi under branch conditions that hold in the current
// block: edges that are only taken under the opposite outcome are left out.
func (fr *frame) restricted(ph *ssa.Phi, fs []fact, seen map[*ssa.Phi]bool) (*Val, bool) {
	seen[ph] = true
	all := fr.a.w.facts(fr.fn)
	b := ph.Block()
	var v *Val = bottom
	dropped := false
edges:
	for i, p := range b.Preds {
		if !fr.edges[[2]int{p.Index, b.Index}] {
			continue
		}
		for _, f := range fs {
			if in, ok := f.cond.(ssa.Instruction); ok && fr.a.w.sameLoop(in.Block(), b) {
				continue
			}
			for _, g := range all[p] {
				if g.cond == f.cond && g.val != f.val {
					dropped = true
					continue edges
				}
			}
		}
		e := ph.Edges[i]
		if q, ok := e.(*ssa.Phi); ok {
			if seen[q] {
				continue
			}
			x, d := fr.restricted(q, fs, seen)
			if d {
				dropped = true
			}
			v = join(v, x)
			continue
		}
		v = join(v, fr.val(e))
	}
	return v, dropped
}

func (a *An) global(g *ssa.Global) *Obj {
	o, ok := a.globals[g]
	if !ok {
		o = a.newObj(OGlobal, g.Type().(*types.Pointer).Elem(), g.RelString(nil))
		o.region = 0
		a.globals[g] = o
	}
	return o
}

func (a *An) funcObj(f *ssa.Function) *Obj {
	o, ok := a.funcs[f]
	if !ok {
		o = a.newObj(OClosure, f.Signature, "func "+f.RelString(nil))
		o.region = 0
		o.fn = &closureInfo{fn: f}
		a.funcs[f] = o
	}
	return o
}

// result is the value of a returned expression. A counter of the function itself
// starts again with the next call.
func (fr *frame) result(r ssa.Value) *Val {
	v := fr.val(r)
	if !fr.a.lsHasKind(v.ls, LCtr) {
		return v
	}
	var own func(x ssa.Value) bool
	own = func(x ssa.Value) bool {
		switch y := x.(type) {
		case *ssa.BinOp:
			return own(y.X) || own(y.Y)
		case *ssa.Convert:
			return own(y.X)
		case *ssa.ChangeType:
			return own(y.X)
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Call:
			return false
		}
		return true
	}
	if own(r) {
		return v.setLS(v.ls.minus(fr.a.lt.kindMask[LCtr]))
	}
	return v
}

func (fr *frame) setEnv(v ssa.Value, x *Val) {
	old, ok := fr.env[v]
	n := x
	if ok {
		n = join(old, x)
		if n == old || n.eq(old) {
			return
		}
	}
	fr.env[v] = n
	if rs := v.Referrers(); rs != nil {
		for _, r := range *rs {
			if b := r.Block(); b != nil {
				fr.dirty[b] = true
			}
			if ph, ok := r.(*ssa.Phi); ok && fr.a.once && ph != v {
				for _, q := range *ph.Referrers() {
					if b := q.Block(); b != nil {
						fr.dirty[b] = true
					}
				}
			}
		}
	}
}

func sameVals(a, b []*Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].eq(b[i]) {
			return false
		}
	}
	return true
}

// call interprets fn.
func (a *An) call(parent *Ctx, site ssa.Instruction, tag string, fn *ssa.Function, args, binds []*Val, st *State) (*Val, *State) {
	// recursion
	n := 0
	for c := parent; c != nil; c = c.parent {
		if c.fn == fn {
			n++
			if n >= 2 && c.rec != nil {
				c.rec.hitRec = true
				r := c.rec.ret
				if r == nil {
					r = bottom
				}
				// a recursive call: assume what is known of the enclosing activation
				if r == bottom {
					cc := &callCtx{a: a, st: st, instr: site, ctx: parent, how: fn.Name()}
					var ls LS
					for _, x := range args {
						ls = ls.union(x.allLS())
					}
					r = cc.resultOpaque("rec", fn.Signature, ls)
				}
				return r, st
			}
		}
	}
	if parent != nil && parent.depth > 60 {
		return bottom, st
	}
	k := ctxKey{site, fn, tag}
	var ctx *Ctx
	if parent != nil {
		ctx = parent.kids[k]
	}
	if ctx == nil {
		ctx = &Ctx{parent: parent, site: site, fn: fn, kids: map[ctxKey]*Ctx{}}
		if parent != nil {
			ctx.depth = parent.depth + 1
			parent.kids[k] = ctx
		}
	}
	if m := ctx.memo; m != nil && sameVals(m.args, args) && sameVals(m.binds, binds) && m.in.eq(st) {
		return m.res, m.out
	}
	a.visited[fn] = true
	var res *Val
	var out *State
	for it := 0; it < 3; it++ {
		fr := &frame{a: a, fn: fn, ctx: ctx, env: map[ssa.Value]*Val{}, binds: binds, params: args,
			in: map[*ssa.BasicBlock]*State{}, edges: map[[2]int]bool{}, dirty: map[*ssa.BasicBlock]bool{}, decided: map[*ssa.BasicBlock]bool{}}
		if it > 0 {
			fr.ret = res
		}
		old := ctx.rec
		ctx.rec = fr
		fr.exec(st)
		ctx.rec = old
		done := !fr.hitRec || (res != nil && fr.ret != nil && fr.ret.eq(res))
		res, out = fr.ret, fr.out
		if done {
			break
		}
	}
	if res == nil {
		res = bottom
	}
	ctx.memo = &memo{args, binds, st, res, out}
	return res, out
}

func (fr *frame) exec(st *State) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		fr.out = st
		return
	}
	rpo := fr.a.w.rpo(fn)
	fr.in[fn.Blocks[0]] = st
	fr.dirty[fn.Blocks[0]] = true
	visits := 0
	for {
		// pick the dirty reachable block with the least rpo number
		var b *ssa.BasicBlock
		best := 1 << 30
		for d := range fr.dirty {
			if fr.in[d] == nil {
				continue
			}
			if r := rpo[d.Index]; r < best {
				best, b = r, d
			}
		}
		if b == nil {
			if len(fr.undecided) == 0 {
				break
			}
			// loops whose body never came round: their exits are taken after all
			for h := range fr.undecided {
				fr.dirty[h] = true
				fr.decided[h] = true
			}
			fr.undecided = nil
			continue
		}
		delete(fr.dirty, b)
		visits++
		fr.a.steps++
		if fr.a.steps > fr.a.budget || visits > 200*len(fn.Blocks)+1000 {
			fr.a.exceeded = true
			break
		}
		if fr.a.prof != nil {
			fr.a.prof[fr.fn.String()]++
		}
		fr.block(b)
	}
}

func (fr *frame) flow(from, to *ssa.BasicBlock, st *State) {
	if st == nil {
		return
	}
	if !st.pending.empty() {
		lc := &callCtx{a: fr.a, st: st, ctx: fr.ctx, fr: fr}
		if !fr.leaveLoop(lc, from, to) {
			return
		}
		st = lc.st
	}
	if fr.a.once {
		if st = fr.onceAround(from, to, st); st == nil {
			return
		}
	}
	if fr.a.overwrite {
		if st = fr.rewritten(from, to, st); st == nil {
			return
		}
	}
	e := [2]int{from.Index, to.Index}
	if !fr.edges[e] {
		fr.edges[e] = true
		fr.dirty[to] = true
	}
	old := fr.in[to]
	n := fr.a.joinState(old, st)
	if old == nil || !n.eq(old) {
		fr.in[to] = n
		fr.dirty[to] = true
	}
}

func (fr *frame) block(b *ssa.BasicBlock) {
	a := fr.a
	c := &callCtx{a: a, st: fr.in[b], ctx: fr.ctx, fr: fr}
	fr.cur = b
	for _, in := range b.Instrs {
		c.instr = in
		c.how = ""
		switch x := in.(type) {
		case *ssa.Phi:
			var v *Val = bottom
			for i, p := range b.Preds {
				if fr.edges[[2]int{p.Index, b.Index}] {
					e := fr.val(x.Edges[i])
					if a.ordered && a.lsHasKind(e.ls, LMapOrd) && decided(x, x.Edges[i]) {
						e = e.setLS(e.ls.minus(a.lt.kindMask[LMapOrd]))
					}
					v = join(v, e)
				}
			}
			if a.w.counter(x) {
				v = v.withLS(a.label(LCtr, 0, ""))
			} else if a.lsHasKind(v.ls, LCtr) {
				v = v.setLS(v.ls.minus(a.lt.kindMask[LCtr])) // may keep a value from before
			}
			if a.layout {
				v = v.withLS(fr.bound(x))
			}
			if a.lsHasKind(v.ls, LRange) {
				v = v.setLS(fr.loopSpan(x, v.ls))
			}
			fr.setEnv(x, v)
			c.carried(x)
		case *ssa.If:
			cv := fr.val(x.Cond)
			if a.ordered && a.lsHasKind(cv.ls, LTime) {
				if l := a.w.natLoop(b); l != nil && (!l[b.Succs[0]] || !l[b.Succs[1]]) {
					c.event("clock-exit", bottom, nil, LS{})
				}
			}
			if bv, ok := cv.constBool(); ok {
				if bv {
					fr.flow(b, b.Succs[0], c.st)
				} else {
					fr.flow(b, b.Succs[1], c.st)
				}
			} else {
				fr.flow(b, b.Succs[0], fr.refine(c, x.Cond, true))
				fr.flow(b, b.Succs[1], fr.refine(c, x.Cond, false))
			}
			return
		case *ssa.Jump:
			fr.flow(b, b.Succs[0], c.st)
			return
		case *ssa.Return:
			var v *Val
			for _, r := range x.Results {
				c.header(fr, r, "returned")
			}
			switch len(x.Results) {
			case 0:
				v = bottom
			case 1:
				v = fr.result(x.Results[0])
			default:
				v = &Val{}
				for _, r := range x.Results {
					v.tup = append(v.tup, fr.result(r))
				}
			}
			for _, r := range v.allRefs() {
				if r.o.kind == OAlloc || r.o.kind == OBox {
					r.o.escaped = true
				}
			}
			if fr.ret == nil {
				fr.ret = v
			} else {
				fr.ret = join(fr.ret, v)
			}
			fr.out = a.joinState(fr.out, c.st)
			return
		case *ssa.Panic:
			return
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				if d.Block() != b && !a.w.reaches(d.Block(), b) {
					continue
				}
				before := c.st
				c.instr = d
				c.doCall(&d.Call, d)
				if c.dead {
					return
				}
				if !d.Block().Dominates(b) {
					c.st = a.joinState(before, c.st)
				}
			}
		case *ssa.Defer:
			seen := false
			for _, d := range fr.defers {
				if d == x {
					seen = true
				}
			}
			if !seen {
				fr.defers = append(fr.defers, x)
			}
		case *ssa.Go:
			c.doGo(x)
		case *ssa.Store:
			if ld, ok := x.Val.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == x.Addr && ld.Block() == b && quietBetween(ld, x) {
				break // v = v
			}
			c.header(fr, x.Val, "stored")
			c.store(fr.val(x.Addr), fr.val(x.Val), x.Val.Type())
			c.keptIn(x)
		case *ssa.MapUpdate:
			m := fr.val(x.Map)
			mt := x.Map.Type().Underlying().(*types.Map)
			kv := fr.val(x.Key)
			als := m.ls.union(kv.ls)
			for _, r := range m.refs {
				c.storeAt(Addr{r.o, r.p + "[k]"}, kv, mt.Key(), als, false)
				c.storeAt(Addr{r.o, r.p + "[v]"}, fr.val(x.Value), mt.Elem(), als, false)
			}
		case *ssa.Send:
			ch := fr.val(x.Chan)
			et := x.Chan.Type().Underlying().(*types.Chan).Elem()
			for _, r := range ch.refs {
				saved := a.noEvents
				a.noEvents = true
				c.storeAt(Addr{r.o, r.p + "[c]"}, fr.val(x.X), et, LS{}, false)
				a.noEvents = saved
				c.sendTo(r.o)
				c.must(fmt.Sprintf("send:%d", r.o.canon().id))
				if a.cur != 0 {
					rg := a.regions[a.cur]
					if rg.sends == nil {
						rg.sends = map[int]bool{}
					}
					if k := r.o.canon().id; !rg.sends[k] {
						rg.sends[k] = a.w.inLoop(b) || c.loopedWithin(rg)
					}
				}
			}
		case *ssa.DebugRef:
		case ssa.Value:
			fr.eval(c, x)
			if c.dead {
				return
			}
		}
	}
}

// quietBetween: nothing is written or called between the two instructions.
func quietBetween(from, to ssa.Instruction) bool {
	on := false
	for _, in := range from.Block().Instrs {
		switch {
		case in == from:
			on = true
			continue
		case in == to:
			return true
		}
		if !on {
			continue
		}
		switch in.(type) {
		case *ssa.Store, ssa.CallInstruction, *ssa.MapUpdate, *ssa.Send, *ssa.Select:
			return false
		}
	}
	return false
}

func (c *callCtx) must(name string) {
	n := *c.st
	n.must = n.must.with(c.a.mustID(name))
	c.st = &n
}

// refine narrows the nilness of a heap cell tested directly by the condition.
func (fr *frame) refine(c *callCtx, cond ssa.Value, branch bool) *State {
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		return fr.refine(c, n.X, !branch)
	}
	if ta := assertOf(cond, 1); ta != nil {
		return fr.refineAssert(c, ta, branch)
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return c.st
	}
	x, y := bo.X, bo.Y
	if k, ok := x.(*ssa.Const); ok && k.Value == nil {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value != nil || !isRefType(k.Type()) {
		return c.st
	}
	isNil := (bo.Op == token.EQL) == branch
	if ta := assertOf(x, 0); ta != nil && isNil && okHolds(ta, c.instr.Block()) {
		return nil // a successful assertion to an interface is not nil
	}
	st := c.st
	if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if ad := fr.val(ld.X); len(ad.refs) == 1 && !ad.refs[0].o.summary && !strings.Contains(ad.refs[0].p, "[") {
			o, p := ad.refs[0].o, ad.refs[0].p
			cur := c.a.get(c.st, o, p, ld.Type())
			lv := fr.val(ld)
			if cur.eq(lv) || (len(cur.refs) == len(lv.refs) && cur.nl == lv.nl) { // unchanged since it was loaded
				st = c.a.set(st, o, p, ld.Type(), cur.asNil(isNil))
			}
		}
	}
	// the value is the initial content of one unknown cell: if it is nil, it is
	// so wherever it was copied to
	if v := fr.val(x); isNil && len(v.refs) == 1 && v.refs[0].p == "" && v.refs[0].o.kind == OSym && !v.refs[0].o.summary && v.refs[0].o.up != nil {
		o := v.refs[0].o
		cells := append([]uint32{c.a.cell(o.up, o.upPath, nil)}, c.a.holders[o]...)
		for _, k := range cells {
			ci := c.a.cinfo[k]
			if ci.typ == nil || ci.o.summary || strings.Contains(ci.p, "[") {
				continue
			}
			cur := c.a.get(st, ci.o, ci.p, ci.typ)
			if len(cur.refs) == 1 && cur.refs[0] == v.refs[0] {
				st = c.a.set(st, ci.o, ci.p, ci.typ, cur.asNil(true))
			}
		}
	}
	return st
}

// assertOf returns the comma-ok assertion whose component i is v.
func assertOf(v ssa.Value, i int) *ssa.TypeAssert {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == i {
		if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk {
			return ta
		}
	}
	return nil
}

// okHolds reports whether b runs only after the assertion succeeded.
func okHolds(ta *ssa.TypeAssert, b *ssa.BasicBlock) bool {
	if !types.IsInterface(ta.AssertedType) {
		return false
	}
	for _, r := range *ta.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		for _, u := range *ex.Referrers() {
			if f, ok := u.(*ssa.If); ok {
				t := f.Block().Succs[0]
				if len(t.Preds) == 1 && t.Dominates(b) {
					return true
				}
			}
		}
	}
	return false
}

// refineAssert keeps, in the cell an asserted value was loaded from, only the
// references that agree with the outcome.
func (fr *frame) refineAssert(c *callCtx, ta *ssa.TypeAssert, ok bool) *State {
	src := ta.X
	if ci, is := src.(*ssa.ChangeInterface); is {
		src = ci.X
	}
	ld, is := src.(*ssa.UnOp)
	if !is || ld.Op != token.MUL {
		return c.st
	}
	ad := fr.val(ld.X)
	if len(ad.refs) != 1 || ad.refs[0].o.summary || strings.Contains(ad.refs[0].p, "[") {
		return c.st
	}
	o, p := ad.refs[0].o, ad.refs[0].p
	cur, lv := c.a.get(c.st, o, p, ld.Type()), fr.val(ld)
	if !cur.eq(lv) && (len(cur.refs) != len(lv.refs) || cur.nl != lv.nl) {
		return c.st
	}
	n := *cur
	n.refs = nil
	for _, r := range cur.refs {
		t := c.typeAssert(&Val{refs: []Addr{r}, nl: mayNon}, ta.AssertedType, true)
		if b, known := t.tup[1].constBool(); !known || b == ok {
			n.refs = append(n.refs, r)
		}
	}
	if ok {
		n.nl = mayNon
	} else if len(n.refs) == 0 {
		n.nl = mayNil
	}
	return c.a.set(c.st, o, p, ld.Type(), &n)
}

func (v *Val) asNil(isNil bool) *Val {
	n := *v
	if isNil {
		n.refs, n.nl = nil, mayNil
	} else {
		n.nl = mayNon
	}
	return &n
}

func (fr *frame) eval(c *callCtx, in ssa.Value) {
	a := fr.a
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		nm := x.Comment
		if nm == "" || nm == "complit" || nm == "new" {
			nm = "new " + shortType(t)
		}
		o := c.allocR(t, nm+" "+a.w.posOf(x))
		c.zeroInit(o, t)
		fr.setEnv(x, ref(Addr{o, ""}))
	case *ssa.UnOp:
		v := fr.val(x.X)
		switch x.Op {
		case token.MUL:
			y := c.load(v, x.Type())
			if a.lsHasKind(y.ls, LRange) && counted(x.X) {
				y = y.setLS(y.ls.minus(a.lt.kindMask[LRange]))
			}
			fr.setEnv(x, y)
		case token.ARROW:
			ct := x.X.Type().Underlying().(*types.Chan)
			var r *Val = bottom
			for _, ad := range v.refs {
				sv := a.noEvents
				a.noEvents = true
				var own LS
				if a.cur != 0 && a.regions[a.cur].multi {
					own = own.with(a.regions[a.cur].part) // each element is received once
				}
				r = join(r, c.loadAt(Addr{ad.o, ad.p + "[c]"}, ct.Elem(), own))
				a.noEvents = sv
				c.recvFrom(ad.o, x)
				if a.ordered && c.arrives(ad.o, x) {
					r = r.withLS(a.label(LMapOrd, 0, ""))
				}
				c.joinRecv(ad.o.canon().id)
			}
			if x.CommaOk {
				r = &Val{tup: []*Val{r, topScalar}}
			}
			fr.setEnv(x, r)
		case token.NOT:
			if b, ok := v.constBool(); ok {
				fr.setEnv(x, boolVal(!b))
			} else {
				fr.setEnv(x, scalar(v.ls))
			}
		default:
			if v.ck == 1 && v.cv != nil && x.Op == token.SUB {
				fr.setEnv(x, &Val{ck: 1, cv: constant.UnaryOp(token.SUB, v.cv, 0), ls: v.ls})
			} else {
				fr.setEnv(x, scalar(v.ls))
			}
		}
	case *ssa.BinOp:
		v := a.binop(x, fr.val(x.X), fr.val(x.Y))
		if a.layout && x.Op == token.SUB && isIntType(x.Type()) {
			v = v.withLS(a.mark("difference"))
		}
		fr.setEnv(x, v)
	case *ssa.FieldAddr:
		v := fr.val(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		n := "." + st.Field(x.Field).Name()
		out := make([]Addr, len(v.refs))
		for i, r := range v.refs {
			out[i] = Addr{r.o, r.p + n}
		}
		r := ref(out...)
		r.ls = v.ls
		fr.setEnv(x, r)
	case *ssa.Field:
		v := fr.val(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		f := st.Field(x.Field)
		fr.setEnv(x, aggSub(v, "."+f.Name(), f.Type()))
	case *ssa.IndexAddr:
		v, idx := fr.val(x.X), fr.val(x.Index)
		for _, f := range a.onIndex {
			if !a.noEvents {
				f(a, fr, c.st, x, v, idx, x.Index)
			}
		}
		if a.once && len(v.refs) == 0 && v.nl == mayNil {
			c.dead = true // no element to take
		}
		var out []Addr
		for _, r := range v.refs {
			if r.p == "" && splitElems(r.o, "[]") {
				lo := idx.lower()
				if a.lsHasKind(v.ls, LShift) {
					lo = 0
				}
				zero := idx.ck == 1 && idx.cv != nil && constant.Sign(idx.cv) == 0 && lo != 0
				last := idx.ls.has(a.lt.id(Label{LLen, r.o.canon().id, ""})) && a.hasRest(c.st, r.o)
				if lo < 3 && !last {
					out = append(out, Addr{r.o, "[0]"})
				}
				if !zero {
					out = append(out, Addr{r.o, "[+]"})
				}
				continue
			}
			out = append(out, Addr{r.o, r.p + "[]"})
		}
		r := ref(out...)
		r.ls = v.ls.union(idx.ls)
		fr.setEnv(x, r)
	case *ssa.Index:
		v := fr.val(x.X)
		if isAgg(x.X.Type()) {
			fr.setEnv(x, aggSub(v, "[]", x.Type()))
		} else {
			fr.setEnv(x, scalar(v.ls))
		}
	case *ssa.Slice:
		v := fr.val(x.X)
		if len(v.refs) == 0 {
			fr.setEnv(x, v)
			return
		}
		ls := v.ls
		for _, b := range []ssa.Value{x.Low} {
			if b != nil {
				bv := fr.val(b)
				ls = ls.union(bv.ls)
				for _, f := range a.onIndex {
					if !a.noEvents {
						f(a, fr, c.st, x, v, bv, b)
					}
				}
			}
		}
		var ne uint8
		if x.Low == nil {
			if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if ar, ok := p.Elem().Underlying().(*types.Array); ok && x.High == nil {
					ne = uint8(min(ar.Len(), 4))
				}
			} else if x.High == nil {
				ne = v.ml
			}
		} else if lv := fr.val(x.Low); !(lv.ck == 1 && lv.cv != nil && constant.Sign(lv.cv) == 0) {
			ls = ls.union(a.label(LShift, 0, ""))
		}
		if x.High != nil && x.Max == nil {
			if hv := fr.val(x.High); hv.ck == 1 && hv.cv != nil && constant.Sign(hv.cv) == 0 {
				n := ""
				if _, ok := x.X.(*ssa.Alloc); ok {
					n = "new" // make with length 0
				}
				ls = ls.union(a.label(LEmpty, 0, n))
			}
			ls = ls.union(a.label(LTrunc, 0, ""))
		}
		if a.layout {
			m := fr.withinRow(x, v)
			if m.empty() && x.High != nil && !a.noEvents {
				for _, h := range a.onSpan {
					h(c, v, fr.val(x.High), x.High)
				}
			}
			ls = ls.union(m)
		}
		nv := *v
		nv.ls, nv.ml = ls, ne
		if a.windows && (x.Low != nil || x.High != nil) {
			c.instr = x
			nv = *c.window(&nv)
		}
		fr.setEnv(x, &nv)
	case *ssa.Lookup:
		v := fr.val(x.X)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			fr.setEnv(x, scalar(v.ls))
			return
		}
		k := fr.val(x.Index)
		als := v.ls.union(k.ls).minus(a.structural())
		var r *Val = bottom
		for _, ad := range v.refs {
			r = join(r, c.loadAt(Addr{ad.o, ad.p + "[v]"}, mt.Elem(), als.union(k.ls.inter(a.lt.kindMask[LPart]))))
		}
		if x.CommaOk && a.seeded && k.ck == 1 && k.cv != nil && k.cv.ExactString() == `"random_state"` {
			r = &Val{tup: []*Val{r, boolVal(true)}}
		} else if x.CommaOk {
			r = &Val{tup: []*Val{r, scalar(als)}}
		} else if r == bottom {
			r = zeroVal(mt.Elem())
		}
		fr.setEnv(x, r)
	case *ssa.MakeMap:
		o := c.alloc("", x.Type(), "map "+a.w.posOf(x))
		fr.setEnv(x, ref(Addr{o, ""}))
	case *ssa.MakeChan:
		o := c.alloc("", x.Type(), "chan "+a.w.posOf(x))
		c.st = a.set(c.st, o, "$cap", types.Typ[types.Int], fr.val(x.Size).setLS(LS{}))
		c.st = a.set(c.st, o, "$closed", types.Typ[types.Bool], boolVal(false))
		fr.setEnv(x, ref(Addr{o, ""}))
	case *ssa.MakeSlice:
		so := c.allocR(x.Type(), "make "+a.w.posOf(x))
		c.initElems(so, x.Type().Underlying().(*types.Slice).Elem(), nil)
		sl := ref(Addr{so, ""})
		if l := fr.val(x.Len).lower(); l >= 3 {
			sl.ml = l - 2
		}
		fr.setEnv(x, sl)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		k := allocKey{c.ctx, x, "clo"}
		o, ok := a.allocs[k]
		if !ok {
			o = a.newObj(OClosure, f.Signature, "func literal "+a.w.posOf(x))
			o.fn = &closureInfo{fn: f, nbind: len(x.Bindings)}
			a.allocs[k] = o
		}
		for i, b := range x.Bindings {
			c.st = a.set(c.st, o, fmt.Sprintf("$%d", i), b.Type(), fr.val(b))
		}
		fr.setEnv(x, ref(Addr{o, ""}))
	case *ssa.MakeInterface:
		c.instr = x
		c.header(fr, x.X, "handed on")
		fr.setEnv(x, c.makeInterface(fr.val(x.X), x.X.Type()))
	case *ssa.TypeAssert:
		fr.setEnv(x, c.typeAssert(fr.val(x.X), x.AssertedType, x.CommaOk))
	case *ssa.ChangeInterface:
		fr.setEnv(x, fr.val(x.X))
	case *ssa.ChangeType:
		fr.setEnv(x, fr.val(x.X))
	case *ssa.Convert:
		v := fr.val(x.X)
		if isRefType(x.Type()) {
			if sl, ok := x.Type().Underlying().(*types.Slice); ok && !isRefType(x.X.Type()) {
				_ = sl
				fr.setEnv(x, c.newSlice("", x.Type(), scalar(v.ls)))
				return
			}
			fr.setEnv(x, v)
			return
		}
		if v.ck == 1 && v.cv != nil && isIntType(x.Type()) && v.cv.Kind() == constant.Int {
			fr.setEnv(x, v)
			return
		}
		fr.setEnv(x, scalar(v.allLS()))
	case *ssa.MultiConvert:
		fr.setEnv(x, fr.val(x.X))
	case *ssa.SliceToArrayPointer:
		fr.setEnv(x, fr.val(x.X))
	case *ssa.Extract:
		v := fr.val(x.Tuple)
		if x.Index < len(v.tup) {
			fr.setEnv(x, v.tup[x.Index])
		}
	case *ssa.Range:
		fr.setEnv(x, fr.val(x.X))
	case *ssa.Next:
		rg := x.Iter.(*ssa.Range)
		v := fr.val(x.Iter)
		if mt, ok := rg.X.Type().Underlying().(*types.Map); ok && !x.IsString {
			var k, e *Val = bottom, bottom
			ls := v.ls.minus(a.structural()).union(a.label(LMapOrd, 0, ""))
			for _, ad := range v.refs {
				k = join(k, c.loadAt(Addr{ad.o, ad.p + "[k]"}, mt.Key(), ls))
				e = join(e, c.loadAt(Addr{ad.o, ad.p + "[v]"}, mt.Elem(), ls))
			}
			if !isRefType(mt.Key()) && !isAgg(mt.Key()) {
				k = k.setLS(k.ls.minus(a.ctrKinds()).union(a.label(LCtr, 0, ""))) // keys are all different
			}
			fr.setEnv(x, &Val{tup: []*Val{topScalar, k, e}})
		} else {
			fr.setEnv(x, &Val{tup: []*Val{topScalar, scalar(v.ls), scalar(v.ls)}})
		}
	case *ssa.Select:
		v := &Val{tup: []*Val{topScalar, topScalar}}
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				ch := fr.val(s.Chan)
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				var r *Val = bottom
				for _, ad := range ch.refs {
					r = join(r, c.loadAt(Addr{ad.o, ad.p + "[c]"}, et, LS{}))
				}
				v.tup = append(v.tup, r)
			} else {
				ch := fr.val(s.Chan)
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				for _, ad := range ch.refs {
					c.storeAt(Addr{ad.o, ad.p + "[c]"}, fr.val(s.Send), et, LS{}, false)
				}
			}
		}
		fr.setEnv(x, v)
	case *ssa.Call:
		r := c.doCall(&x.Call, x)
		if !c.dead {
			fr.setEnv(x, r)
		}
	default:
		panic(fmt.Sprintf("unhandled instruction %T %s", in, in))
	}
}

func aggSub(v *Val, p string, t types.Type) *Val {
	if !isAgg(t) {
		if x := v.agg[p]; x != nil {
			return x
		}
		return bottom
	}
	out := &Val{agg: map[string]*Val{}}
	for _, l := range leaves(t) {
		if x := v.agg[p+l.path]; x != nil {
			out.agg[l.path] = x
		}
	}
	return out
}

func (a *An) binop(x *ssa.BinOp, l, r *Val) *Val {
	ls := l.allLS().union(r.allLS())
	if a.lsHasKind(ls, LRange) {
		ls = ls.minus(a.lt.kindMask[LRange]).union(a.movedSpan(x, l, r))
	}
	if !ls.inter(a.ctrKinds()).empty() || isIntType(x.Type()) {
		ctr := false
		if x.Op == token.ADD || x.Op == token.SUB {
			ctr = isConst(x.Y) && a.lsHasKind(l.ls, LCtr) || isConst(x.X) && a.lsHasKind(r.ls, LCtr) || a.w.varCounter(x)
		}
		ls = ls.minus(a.ctrKinds())
		if ctr {
			ls = ls.union(a.label(LCtr, 0, ""))
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if isRefType(x.X.Type()) {
			lnil, rnil := l.nl == mayNil && len(l.refs) == 0, r.nl == mayNil && len(r.refs) == 0
			lnon, rnon := l.nl == mayNon, r.nl == mayNon
			if lnil && rnil {
				return boolVal(x.Op == token.EQL)
			}
			if (lnil && rnon) || (rnil && lnon) {
				return boolVal(x.Op == token.NEQ)
			}
			if a.once && lnon && rnon && disjoint(l, r) {
				return boolVal(x.Op == token.NEQ)
			}
			return scalar(ls.minus(a.structural()))
		}
		fallthrough
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if l.ck == 1 && r.ck == 1 && l.cv != nil && r.cv != nil && l.cv.Kind() == r.cv.Kind() {
			return &Val{ck: 1, cv: constant.MakeBool(constant.Compare(l.cv, x.Op, r.cv)), ls: ls}
		}
		if a.someData && isIntType(x.X.Type()) {
			if v, ok := atLeast(l, x.Op, r); ok {
				return v
			}
		}
		return scalar(ls.minus(a.structural()))
	}
	if l.ck == 1 && r.ck == 1 && l.cv != nil && r.cv != nil && l.cv.Kind() == constant.Int && r.cv.Kind() == constant.Int {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return &Val{ck: 1, cv: constant.BinaryOp(l.cv, x.Op, r.cv), ls: ls}
		}
	}
	if l.ck == 1 && r.ck == 1 && l.cv != nil && r.cv != nil && l.cv.Kind() == constant.String && r.cv.Kind() == constant.String && x.Op == token.ADD {
		return &Val{ck: 1, cv: constant.BinaryOp(l.cv, x.Op, r.cv), ls: ls}
	}
	switch x.Op {
	case token.QUO, token.REM:
		if isIntType(x.Type()) {
			k := LPartQ
			if x.Op == token.REM {
				k = LPartR
			}
			for _, rg := range a.regions {
				if rg.id != 0 && l.ls.has(rg.part) {
					ls = ls.minus(LS{}.with(rg.part)).union(a.label(k, rg.id, ""))
				}
			}
			if a.layout {
				ls = a.divided(x.Op, ls, r.ls)
			}
		}
	case token.MUL:
		if isIntType(x.Type()) {
			for _, pr := range [2]LS{l.ls, r.ls} {
				pr.inter(a.lt.kindMask[LCols]).each(func(i int) {
					ls = ls.union(a.label(LMulCols, a.lt.list[i].id, ""))
				})
			}
		}
	case token.ADD:
		if isIntType(x.Type()) {
			if accumulates(x) {
				ls = ls.minus(a.lt.kindMask[LMapOrd])
			}
			return scalar(ls).withLo(addLo(l.lower(), r.lower()))
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			ls = l.ls.union(r.ls)
		}
	}
	if isIntType(x.Type()) {
		ll, rl := l.lower(), r.lower()
		switch x.Op {
		case token.MUL:
			if ll >= 2 && rl >= 2 {
				return scalar(ls).withLo(min(ll, rl)) // both >= 0
			}
		case token.QUO, token.REM, token.SHR:
			if ll >= 2 && rl >= 2 {
				return scalar(ls).withLo(2)
			}
		case token.SUB:
			if r.ck == 1 && r.cv != nil && r.cv.Kind() == constant.Int && ll >= 1 {
				if n, ok := constant.Int64Val(r.cv); ok && n >= 0 && n < int64(ll) {
					return scalar(ls).withLo(ll - uint8(n))
				}
			}
		}
	}
	return scalar(ls)
}

func addLo(a, b uint8) uint8 {
	if a == 0 || b == 0 {
		return 0
	}
	n := int(a) - 2 + int(b) - 2
	switch {
	case n < -1:
		return 0
	case n > 4:
		n = 4
	}
	return uint8(n + 2)
}

func (c *callCtx) makeInterface(v *Val, t types.Type) *Val {
	a := c.a
	if _, ok := t.Underlying().(*types.Pointer); ok {
		n := *v
		n.nl = mayNon
		if len(v.refs) == 0 {
			// typed nil pointer in an interface
			return &n
		}
		return &n
	}
	o := c.alloc("box", t, "boxed "+shortType(t)+" "+a.w.posOf(c.instr))
	o.kind = OBox
	for _, l := range leaves(t) {
		x := v
		if isAgg(t) {
			x = v.agg[l.path]
			if x == nil {
				x = zeroVal(l.typ)
			}
		}
		c.st = a.set(c.st, o, l.path, l.typ, x)
	}
	r := ref(Addr{o, ""})
	r.ls = v.allLS()
	if v.ck == 1 {
		r.ck, r.cv = v.ck, v.cv
	}
	return r
}

// dynType returns the dynamic type of an interface value holding ad (nil: unknown).
func (a *An) dynType(ad Addr) types.Type {
	switch ad.o.kind {
	case OBox:
		if ad.p == "" {
			return ad.o.typ
		}
	case OClosure:
		return ad.o.typ
	}
	if ad.o.typ == nil {
		return nil
	}
	t := typeAt(ad.o.typ, ad.p)
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

func (c *callCtx) typeAssert(v *Val, t types.Type, commaOk bool) *Val {
	a := c.a
	_, isIface := t.Underlying().(*types.Interface)
	var out *Val = bottom
	canOK, canFail := false, v.nl&mayNil != 0
	for _, ad := range v.refs {
		dt := a.dynType(ad)
		if dt == nil {
			k := 0
			if a.assumeOK != nil {
				k = a.assumeOK(ad.o, t)
			}
			if k == 2 {
				canFail = true
				continue
			}
			canOK = true
			if k == 0 {
				canFail = true
			}
			if isIface || isPtr(t) {
				out = join(out, &Val{refs: []Addr{ad}, nl: mayNon, ls: v.ls})
			} else {
				out = join(out, c.unbox(ad, t, v.ls))
			}
			continue
		}
		if isIface {
			if types.Implements(dt, t.Underlying().(*types.Interface)) {
				canOK = true
				out = join(out, &Val{refs: []Addr{ad}, nl: mayNon, ls: v.ls})
			} else {
				canFail = true
			}
			continue
		}
		if types.Identical(dt, t) {
			canOK = true
			if isPtr(t) {
				out = join(out, &Val{refs: []Addr{ad}, nl: mayNon, ls: v.ls})
			} else {
				out = join(out, c.unbox(ad, t, v.ls))
			}
		} else {
			canFail = true
		}
	}
	if !commaOk {
		if !canOK && len(v.refs) > 0 {
			return bottom
		}
		return out
	}
	ok := topScalar
	switch {
	case canOK && !canFail:
		ok = boolVal(true)
	case !canOK:
		ok = boolVal(false)
	}
	if canFail {
		out = join(out, zeroVal(t))
	}
	return &Val{tup: []*Val{out, ok}}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (c *callCtx) unbox(ad Addr, t types.Type, ls LS) *Val {
	sv := c.a.noEvents
	c.a.noEvents = true
	v := c.loadAt(ad, t, LS{})
	c.a.noEvents = sv
	return v
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---------------------------------------------------------------- calls

func (c *callCtx) doCall(cc *ssa.CallCommon, instr ssa.CallInstruction) *Val {
	fr := c.fr
	var args []*Val
	var argTy []types.Type
	for _, x := range cc.Args {
		args = append(args, fr.val(x))
		argTy = append(argTy, x.Type())
	}
	c.sig = cc.Signature()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b.Name(), cc, args)
	}
	if cc.IsInvoke() {
		return c.invoke(fr.val(cc.Value), cc.Method, cc.Value.Type(), args, argTy)
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []*Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, fr.val(b))
			}
		}
		return c.callFn(f, args, argTy, binds, "")
	}
	return c.callValue(fr.val(cc.Value), args, argTy, "")
}

// callValue calls every function a function value may denote.
func (c *callCtx) callValue(fv *Val, args []*Val, argTy []types.Type, tag string) *Val {
	a := c.a
	var res *Val = bottom
	st0 := c.st
	var out *State
	n := 0
	for _, ad := range fv.refs {
		c.st = st0
		c.dead = false
		var r *Val
		if ad.o.kind == OClosure && ad.o.fn != nil {
			var binds []*Val
			for i := 0; i < ad.o.fn.nbind; i++ {
				if v := st0.heap.get(a.cell(ad.o, fmt.Sprintf("$%d", i), nil)); v != nil {
					binds = append(binds, v)
				} else if ad.o.fn.recv != nil && i == 0 {
					binds = append(binds, ad.o.fn.recv)
				} else {
					binds = append(binds, bottom)
				}
			}
			r = c.callFn(ad.o.fn.fn, args, argTy, binds, c.tagFor(tag+"v", ad.o))
		} else {
			c.how = "function value " + ad.o.name()
			var ls LS
			for _, x := range args {
				ls = ls.union(c.contentLS(x))
			}
			if a.once && !ls.inter(a.initLabels(a.outRoot)).empty() {
				a.undecided = true // it may fill what it is given
			}
			sig := c.sig
			if s, ok := ad.o.typ.(*types.Signature); ok {
				sig = s
			} else if ad.o.typ != nil {
				if s, ok := ad.o.typ.Underlying().(*types.Signature); ok {
					sig = s
				}
			}
			c.event("opaque-func", fv, args, LS{})
			c.reenter(args, sig)
			r = c.resultOpaque(c.tagFor(tag+"opq", ad.o), sig, ls.union(ad.o.initLS(a)))
		}
		if c.dead {
			continue
		}
		n++
		res = join(res, r)
		out = a.joinState(out, c.st)
	}
	if n == 0 {
		if len(fv.refs) > 0 {
			c.dead = true
		} else {
			// a function value with no known target: nil call or unreachable
			c.st = st0
			return bottom
		}
		return bottom
	}
	c.dead = false
	c.st = out
	return res
}

// reenter: a function of the caller's, called with a lock held, uses what it is
// given in every way its type allows.
func (c *callCtx) reenter(args []*Val, sig *types.Signature) {
	if len(c.a.onSync) == 0 || c.st.held.empty() || sig == nil || sig.Params().Len() != len(args) {
		return
	}
	st, how, a0, t0, s0 := c.st, c.how, c.args, c.argTy, c.sig
	for i, x := range args {
		it := sig.Params().At(i).Type()
		iface, ok := it.Underlying().(*types.Interface)
		if !ok || len(x.refs) == 0 {
			continue
		}
		for j := 0; j < iface.NumMethods(); j++ {
			m := iface.Method(j)
			ps := m.Type().(*types.Signature).Params()
			var av []*Val
			var at []types.Type
			for k := 0; k < ps.Len(); k++ {
				av = append(av, c.opaqueOf(fmt.Sprintf("re%d", k), ps.At(k).Type(), LS{}))
				at = append(at, ps.At(k).Type())
			}
			c.sig = m.Type().(*types.Signature)
			c.invoke(x, m, it, av, at)
			c.st, c.dead = st, false
		}
	}
	c.st, c.how, c.args, c.argTy, c.sig = st, how, a0, t0, s0
}

func (o *Obj) initLS(a *An) LS {
	if o.kind == OSym {
		return a.label(LInit, 0, o.root+o.path)
	}
	return LS{}
}

func (c *callCtx) resultOpaque(tag string, sig *types.Signature, ls LS) *Val {
	switch sig.Results().Len() {
	case 0:
		return bottom
	case 1:
		return c.opaqueOf(tag, sig.Results().At(0).Type(), ls)
	}
	return c.opaqueOf(tag, sig.Results(), ls)
}

func (c *callCtx) callFn(f *ssa.Function, args []*Val, argTy []types.Type, binds []*Val, tag string) *Val {
	a := c.a
	if a.layout {
		c.bulk(f, args, argTy)
	}
	if a.onFn != nil && !a.noEvents {
		a.onFn(c, f, args)
	}
	if a.once && f.Name() == "Parallelize" && len(args) == 3 && f.Pkg != nil && pkgShort(f.Pkg.Pkg) == "base" {
		n := scalar(args[1].ls)
		return c.callValue(args[2], []*Val{topScalar, n, n}, []types.Type{argTy[1], argTy[1], argTy[1]}, tag)
	}
	if m := a.w.model(f); m != nil {
		c.args, c.argTy = args, argTy
		c.how = f.RelString(nil)
		c.sig = f.Signature
		return m(c)
	}
	if len(f.Blocks) > 0 && a.w.interpretable(f) {
		sv := c.instr
		r, st := a.call(c.ctx, c.instr, tag, f, args, binds, c.st)
		c.instr = sv
		if st == nil {
			c.dead = true
			return bottom
		}
		c.st = st
		return r
	}
	c.how = f.RelString(nil)
	c.args, c.argTy = args, argTy
	c.sig = f.Signature
	return a.w.external(c, f)
}

// tagFor distinguishes calls at one site by the object they act on. Objects born
// below the same site share one tag, so that chains of clones stay finite.
func (c *callCtx) tagFor(p string, o *Obj) string {
	if o.instr == c.instr {
		return p + "r"
	}
	for x := o.ctx; x != nil; x = x.parent {
		if x.site == c.instr {
			return p + "r"
		}
	}
	return fmt.Sprintf("%s%d", p, o.id)
}

func (c *callCtx) event(name string, recv *Val, args []*Val, ls LS) {
	if c.a.noEvents {
		return
	}
	e := &CallEvent{an: c.a, st: c.st, name: name, recv: recv, args: args, instr: c.instr, ctx: c.ctx, ls: ls}
	for _, f := range c.a.onCall {
		f(e)
	}
}

func (c *callCtx) invoke(recv *Val, m *types.Func, it types.Type, args []*Val, argTy []types.Type) *Val {
	a := c.a
	var res *Val = bottom
	var out *State
	st0 := c.st
	n := 0
	for _, ad := range recv.refs {
		c.st = st0
		c.dead = false
		r, ok := c.invokeOne(ad, recv, m, it, args, argTy)
		if !ok || c.dead {
			continue
		}
		n++
		res = join(res, r)
		out = a.joinState(out, c.st)
	}
	if n == 0 {
		c.st = st0
		if len(recv.refs) > 0 && c.dead {
			return bottom
		}
		c.dead = len(recv.refs) > 0 || recv.nl == mayNil
		return bottom
	}
	c.dead = false
	c.st = out
	return res
}

func (c *callCtx) invokeOne(ad Addr, recv *Val, m *types.Func, it types.Type, args []*Val, argTy []types.Type) (*Val, bool) {
	a := c.a
	name := m.Name()
	dt := a.dynType(ad)
	if dt != nil {
		f := a.w.lookupMethod(dt, m)
		if f == nil {
			return bottom, false
		}
		var rv *Val
		if ad.o.kind == OBox && ad.p == "" {
			rv = c.unbox(ad, dt, recv.ls)
		} else {
			rv = &Val{refs: []Addr{ad}, nl: mayNon, ls: recv.ls}
		}
		all := append([]*Val{rv}, args...)
		tys := append([]types.Type{dt}, argTy...)
		return c.callFn(f, all, tys, nil, c.tagFor("i", ad.o)), true
	}
	c.how = shortType(it) + "." + name
	c.args, c.argTy, c.sig = args, argTy, m.Type().(*types.Signature)
	if a.contract != nil {
		if v, ok := a.contract(c, ad, name); ok {
			return v, true
		}
	}
	if v, ok := a.w.contract(c, ad, recv.ls, name, it); ok {
		return v, true
	}
	// class hierarchy: the implementations in the repository
	impls := a.w.implementations(it, m)
	if len(impls) > 0 {
		st0 := c.st
		var out *State
		var res *Val = bottom
		n := 0
		for i, im := range impls {
			c.st = st0
			c.dead = false
			rv := &Val{refs: []Addr{ad}, nl: mayNon, ls: recv.ls}
			if !isPtr(im.recv) {
				rv = c.unbox(ad, im.recv, recv.ls)
			}
			r := c.callFn(im.fn, append([]*Val{rv}, args...), append([]types.Type{im.recv}, argTy...), nil, fmt.Sprintf("%s.%d", c.tagFor("h", ad.o), i))
			if c.dead {
				continue
			}
			n++
			res = join(res, r)
			out = a.joinState(out, c.st)
		}
		if n == 0 {
			c.dead = true
			return bottom, true
		}
		c.dead = false
		c.st = out
		return res, true
	}
	a.opaque[c.how]++
	var ls LS
	for _, x := range args {
		ls = ls.union(c.contentLS(x))
	}
	return c.resultOpaque(c.tagFor("inv", ad.o), c.sig, ls.union(recv.ls)), true
}

// ---------------------------------------------------------------- goroutines

func (c *callCtx) doGo(g *ssa.Go) { c.spawn(g, &g.Call, nil) }

// spawn starts a goroutine that executes cc and then then.
func (c *callCtx) spawn(g ssa.Instruction, cc *ssa.CallCommon, then func()) {
	a := c.a
	if a.once {
		c.doCall(cc, nil)
		if then != nil && !c.dead {
			then()
		}
		return
	}
	k := allocKey{c.ctx, g, "region"}
	r, ok := a.regionOf[k]
	if !ok {
		r = &Region{id: len(a.regions), parent: a.cur, instr: g, ctx: c.ctx, writes: map[uint32]bool{}}
		a.regions = append(a.regions, r)
		a.regionOf[k] = r
		r.part = a.lt.id(Label{LPart, r.id, ""})
		r.partq = a.lt.id(Label{LPartQ, r.id, ""})
		r.partr = a.lt.id(Label{LPartR, r.id, ""})
	}
	if c.st.pending.has(r.id) {
		r.multi = true // the previous instance may still be running
	}
	fr := c.fr
	var args []*Val
	var argTy []types.Type
	own := LS{}.with(r.part)
	for i, x := range cc.Args {
		v := fr.val(x)
		if r.multi {
			own := own
			if isIntType(x.Type()) {
				own = own.union(a.spanLabel(r, span{lo: i, hi: i, hiOff: 1}))
			}
			vary := a.w.spawnVaries(c.ctx, x, g.Block())
			switch {
			case isRefType(x.Type()):
				if distinctObjs(v) && vary || a.w.spawnRef(c.ctx, x, g.Block()) {
					v = v.withLS(own)
				}
			case vary && isAgg(x.Type()):
				n := &Val{agg: map[string]*Val{}, ls: v.ls}
				for _, l := range leaves(x.Type()) {
					y := v.agg[l.path]
					if y != nil && (isRefType(l.typ) && distinctObjs(y) || !isRefType(l.typ)) {
						y = y.withLS(own)
					}
					if y != nil {
						n.agg[l.path] = y
					}
				}
				v = n
			case vary:
				v = v.withLS(own)
			}
		}
		args = append(args, v)
		argTy = append(argTy, x.Type())
	}
	st0 := c.st
	r.conc = r.conc.union(st0.pending)
	saved := a.cur
	a.cur = r.id
	nl := *c.st
	nl.locks = LS{}
	nl.held = LS{}
	nl.must = LS{}
	c.st = &nl
	var binds []*Val
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			v := fr.val(b)
			own := own
			if al, ok := b.(*ssa.Alloc); ok && isIntType(al.Type().(*types.Pointer).Elem()) {
				own = own.union(a.spanLabel(r, span{lo: len(cc.Args) + i, hi: len(cc.Args) + i, hiOff: 1}))
			}
			// a variable declared inside the loop that starts the goroutines
			// belongs to one instance
			if al, ok := b.(*ssa.Alloc); ok && r.multi && (!a.w.inLoop(g.Block()) || a.w.inner(al.Block(), g.Block())) {
				sv, sr := a.w.spawnVar(c.ctx, al, g.Block())
				for _, ad := range v.refs {
					for _, o := range []*Obj{ad.o, ad.o.canon()} {
						if o.priv == nil {
							o.priv = map[int]bool{}
						}
						o.priv[r.id] = true
					}
					t := al.Type().(*types.Pointer).Elem()
					cur := a.get(c.st, ad.o, ad.p, t)
					if isRefType(t) && (distinctObjs(cur) && sv || sr) || isIntType(t) && sv {
						c.st = a.set(c.st, ad.o, ad.p, t, cur.withLS(own))
					}
				}
			}
			binds = append(binds, v)
		}
		c.callFn(mc.Fn.(*ssa.Function), args, argTy, binds, "go")
	} else if cc.IsInvoke() {
		c.invoke(fr.val(cc.Value), cc.Method, cc.Value.Type(), args, argTy)
	} else if f := cc.StaticCallee(); f != nil {
		c.callFn(f, args, argTy, nil, "go")
	} else {
		c.callValue(fr.val(cc.Value), args, argTy, "go")
	}
	if then != nil && !c.dead {
		then()
	}
	if !c.dead {
		c.checkReleased("when its goroutine ends")
	}
	a.cur = saved
	out := c.st
	dead := c.dead
	c.dead = false
	if dead {
		out = st0
	}
	if !dead {
		r.done = out.must
	}
	j := a.joinState(&State{heap: st0.heap}, &State{heap: out.heap})
	n := *st0
	n.heap = j.heap
	if !dead {
		n.heap = c.settle(r, st0.heap, out, n.heap)
	}
	n.pending = n.pending.with(r.id)
	c.st = &n
}

// distinctObjs: a reference whose targets are one object per element or iteration.
func distinctObjs(v *Val) bool {
	for _, r := range v.refs {
		if !r.o.summary && !r.o.rep && r.o.old == nil {
			return false
		}
	}
	return len(v.refs) > 0
}

// hasRest reports whether anything is known about elements other than the first.
func (a *An) hasRest(st *State, o *Obj) bool {
	for _, l := range leaves(elemType(o.typ)) {
		if v := st.heap.get(a.cell(o, "[+]"+l.path, l.typ)); v != nil && (len(v.refs) > 0 || v.ck == 2) {
			return true
		}
	}
	return false
}

// loopedWithin: this point of region rg is reached repeatedly by one instance.
func (c *callCtx) loopedWithin(rg *Region) bool {
	for x := c.ctx; x != nil && x != rg.ctx; x = x.parent {
		if x.site != nil && x.site != rg.instr && x.site.Block() != nil && c.a.w.inLoop(x.site.Block()) {
			return true
		}
	}
	return false
}

// joinRecv: a value was received from channel ch. That orders a goroutine before
// the receiver if it is the only one and the send is its last communication.
func (c *callCtx) joinRecv(ch int) {
	c.drop(ch, func(r *Region) bool {
		return !r.multi && !r.sends[ch]
	})
}

func (c *callCtx) drop(ch int, ok func(r *Region) bool) {
	a := c.a
	snd, has1 := a.mustIDs[fmt.Sprintf("send:%d", ch)]
	cls, has2 := a.mustIDs[fmt.Sprintf("close:%d", ch)]
	var drop LS
	c.st.pending.each(func(i int) {
		r := a.regions[i]
		if (has1 && r.done.has(snd) && !r.late.has(snd) || has2 && r.done.has(cls) && !r.late.has(cls)) && ok(r) {
			drop = drop.with(i)
		}
	})
	if !drop.empty() {
		n := *c.st
		n.pending = n.pending.minus(drop)
		c.st = &n
	}
}

// leaveLoop: control leaves a loop whose iterations received from channels; all
// values the goroutines sent have been received.
//
// It reports false when the channels are not known yet, because the body of the
// loop has still to be interpreted.
func (fr *frame) leaveLoop(c *callCtx, from, to *ssa.BasicBlock) bool {
	w := fr.a.w
	loop := w.natLoop(from)
	if c.st.pending.empty() || loop == nil || loop[to] || !isHeader(from, loop) {
		return true
	}
	for b := range loop {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				continue
			}
			if len(fr.val(u.X).refs) == 0 && !fr.decided[from] {
				if fr.undecided == nil {
					fr.undecided = map[*ssa.BasicBlock]bool{}
				}
				fr.undecided[from] = true
				return false
			}
			for _, ad := range fr.val(u.X).refs {
				c.drop(ad.o.canon().id, func(r *Region) bool {
					return !w.fewerTrips(from, r.instr.Block())
				})
			}
		}
	}
	delete(fr.undecided, from)
	return true
}

// onceAround: loops are taken to run at least once, so control leaves them with the
// state their body leaves behind.
func (fr *frame) onceAround(from, to *ssa.BasicBlock, st *State) *State {
	if to.Dominates(from) { // back edge
		if fr.back == nil {
			fr.back = map[*ssa.BasicBlock]*State{}
		}
		old := fr.back[to]
		n := fr.a.joinState(old, st)
		if old == nil || !n.eq(old) {
			fr.back[to] = n
			fr.dirty[to] = true
		}
		return st
	}
	loop := fr.a.w.natLoop(from)
	if loop == nil || loop[to] || !isHeader(from, loop) {
		return st
	}
	if b := fr.back[from]; b != nil {
		return b
	}
	if fr.decided[from] {
		return st
	}
	if fr.undecided == nil {
		fr.undecided = map[*ssa.BasicBlock]bool{}
	}
	fr.undecided[from] = true
	return nil
}

// rewritten: control leaves a loop over all elements of a slice, in which each of
// them is stored to; nothing of the previous content is left.
func (fr *frame) rewritten(from, to *ssa.BasicBlock, st *State) *State {
	a := fr.a
	loop := a.w.natLoop(from)
	if loop == nil || loop[to] || !isHeader(from, loop) {
		return st
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return st
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return st
	}
	ln, ok := cond.Y.(*ssa.Call)
	if !ok {
		return st
	}
	if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return st
	}
	if !countsAll(cond.X, from) {
		return st
	}
	over := fr.val(ln.Call.Args[0])
	defer delete(fr.undecided, from)
	for b := range loop {
		every := true
		for _, p := range from.Preds {
			if loop[p] && !b.Dominates(p) {
				every = false
			}
		}
		if !every {
			continue
		}
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || ia.Index != cond.X {
				continue
			}
			if len(fr.val(ia).refs) == 0 && !fr.decided[from] { // wait for the body
				defer func() {
					if fr.undecided == nil {
						fr.undecided = map[*ssa.BasicBlock]bool{}
					}
					fr.undecided[from] = true
				}()
				return nil
			}
			if !sameAddrs(fr.val(ia.X), over) {
				continue
			}
			v := fr.val(s.Val)
			for _, ad := range fr.val(ia).refs {
				own, ok := a.lt.ids[Label{LInit, 0, ad.o.root + ad.o.path + ad.p}]
				if ad.o.kind != OSym || !ok || v.ls.has(own) {
					continue
				}
				t := s.Val.Type()
				if old := a.get(st, ad.o, ad.p, t); old.ls.has(own) && !isRefType(t) {
					st = a.set(st, ad.o, ad.p, t, old.setLS(old.ls.minus(LS{}.with(own))))
				}
			}
		}
	}
	return st
}

// countsAll: v counts 0, 1, 2 and so on as the loop goes round its header.
func countsAll(v ssa.Value, header *ssa.BasicBlock) bool {
	isK := func(v ssa.Value, k int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == k
	}
	switch x := v.(type) {
	case *ssa.Phi: // i := 0; i < n; i++
		if x.Block() != header || len(x.Edges) != 2 {
			return false
		}
		for i, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == v && isK(b.Y, 1) && isK(x.Edges[1-i], 0) {
				return true
			}
		}
	case *ssa.BinOp: // range
		ph, ok := x.X.(*ssa.Phi)
		if !ok || x.Op != token.ADD || !isK(x.Y, 1) || ph.Block() != header || x.Block() != header || len(ph.Edges) != 2 {
			return false
		}
		for i, e := range ph.Edges {
			if e == v && isK(ph.Edges[1-i], -1) {
				return true
			}
		}
	}
	return false
}

// initLabels are the labels of content found under a root.
func (a *An) initLabels(root string) LS {
	var out LS
	a.lt.kindMask[LInit].each(func(i int) {
		if n := a.lt.list[i].name; strings.HasPrefix(n, root) && strings.Contains(n, "[") {
			out = out.with(i)
		}
	})
	return out
}

func disjoint(x, y *Val) bool {
	for _, r := range x.refs {
		for _, s := range y.refs {
			if r.o.canon() == s.o.canon() {
				return false
			}
		}
	}
	return len(x.refs) > 0 && len(y.refs) > 0
}

func sameAddrs(x, y *Val) bool {
	if len(x.refs) != len(y.refs) {
		return false
	}
	for i := range x.refs {
		if x.refs[i] != y.refs[i] {
			return false
		}
	}
	return len(x.refs) > 0
}

// joinOn clears the pending regions whose instances all end with event ev.
func (c *callCtx) joinOn(ev string) {
	id, ok := c.a.mustIDs[ev]
	if !ok {
		return
	}
	var drop LS
	c.st.pending.each(func(i int) {
		if r := c.a.regions[i]; r.done.has(id) && !r.late.has(id) && !r.loose.has(id) {
			drop = drop.with(i)
		}
	})
	if drop.empty() {
		return
	}
	n := *c.st
	n.pending = n.pending.minus(drop)
	c.st = &n
}

// hiddenFunc is the initial value of an unexported field of function type. Only
// its package can set such a field, so it holds one of the functions stored there;
// a method value is bound to the structure the field belongs to.
func (a *An) hiddenFunc(o *Obj, p string, t types.Type) *Val {
	i := strings.LastIndexByte(p, '.')
	if i < 0 || o.typ == nil || token.IsExported(p[i+1:]) {
		return nil
	}
	owner, _ := typeAt(o.typ, p[:i]).(*types.Named)
	if owner == nil || owner.Obj().Pkg() == nil || !a.w.isRepo[owner.Obj().Pkg()] {
		return nil
	}
	var out *Val = bottom
	for _, f := range a.w.fieldFuncs(owner, p[i+1:]) {
		if len(f.FreeVars) == 0 {
			out = join(out, ref(Addr{a.funcObj(f), ""}))
			continue
		}
		pt, _ := f.FreeVars[0].Type().Underlying().(*types.Pointer)
		if pt == nil {
			return nil
		}
		found := false
		for q := p[:i]; ; {
			if tt := typeAt(o.typ, q); tt != nil && types.Identical(tt, pt.Elem()) {
				k := allocKey{nil, nil, fmt.Sprintf("hidden %d %s %s", o.id, q, f.RelString(nil))}
				co, ok := a.allocs[k]
				if !ok {
					co = a.newObj(OClosure, f.Signature, "method value "+f.RelString(nil))
					co.region = o.region
					co.fn = &closureInfo{fn: f, nbind: 1, recv: ref(Addr{o, q})}
					a.allocs[k] = co
				}
				out = join(out, ref(Addr{co, ""}))
				found = true
				break
			}
			j := strings.LastIndexByte(q, '.')
			if j < 0 {
				break
			}
			q = q[:j]
		}
		if !found {
			return nil
		}
	}
	if len(out.refs) == 0 {
		return nil
	}
	cp := *out
	out = &cp
	out.nl = mayNil | mayNon
	if a.funcSet {
		out.nl = mayNon
	}
	return out
}
