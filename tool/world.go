package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pa-m/sklearn"

// World is the type-checked program in SSA form.
type World struct {
	repo  string
	prog  *ssa.Program
	pkgs  []*packages.Package
	spkgs []*ssa.Package
	fset  *token.FileSet

	mu        sync.Mutex
	rpoCache  map[*ssa.Function][]int
	loopCache map[*ssa.Function][]int
	natCache  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	allLoops  map[*ssa.Function][]map[*ssa.BasicBlock]bool
	implCache map[string][]impl
	modelTab  map[string]model
	factCache map[*ssa.Function]map[*ssa.BasicBlock][]fact
	named     []*types.Named // named types of the repository
	isRepo    map[*types.Package]bool
	fnsOnce   sync.Once
	fns       []*ssa.Function
	ffCache   map[string][]*ssa.Function
}

// fieldFuncs lists the functions stored in a field of function type: plain
// functions and method values. It is empty if something else is stored there.
func (w *World) fieldFuncs(owner *types.Named, field string) []*ssa.Function {
	w.repoFns()
	key := owner.String() + "." + field
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.ffCache[key]; ok {
		return r
	}
	isField := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		pt := fa.X.Type().Underlying().(*types.Pointer)
		return types.Identical(pt.Elem(), owner) && pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name() == field
	}
	var out []*ssa.Function
	open := false
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isField(st.Addr) {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Function:
					out = append(out, v)
				case *ssa.MakeClosure:
					g := v.Fn.(*ssa.Function)
					if !strings.HasPrefix(g.Synthetic, "bound method wrapper") {
						open = true
					}
					out = append(out, g)
				case *ssa.Const:
				case *ssa.UnOp:
					if !isField(v.X) {
						open = true
					}
				default:
					open = true
				}
			}
		}
	}
	if open {
		out = nil
	}
	if w.ffCache == nil {
		w.ffCache = map[string][]*ssa.Function{}
	}
	w.ffCache[key] = out
	return out
}

// repoFns lists the functions of the repository, closures included.
func (w *World) repoFns() []*ssa.Function {
	w.fnsOnce.Do(func() {
		for f := range ssautil.AllFunctions(w.prog) {
			if f.Pkg != nil && w.isRepo[f.Pkg.Pkg] && len(f.Blocks) > 0 && f.Synthetic == "" {
				w.fns = append(w.fns, f)
			}
		}
		sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].Pos() < w.fns[j].Pos() })
	})
	return w.fns
}

type impl struct {
	recv types.Type
	fn   *ssa.Function
}

func loadWorld(repo string) (*World, error) {
	cfg := &packages.Config{Dir: repo, Mode: packages.LoadAllSyntax,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repo)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w := &World{repo: repo, prog: prog, pkgs: pkgs, spkgs: spkgs, fset: prog.Fset, rpoCache: map[*ssa.Function][]int{},
		loopCache: map[*ssa.Function][]int{}, allLoops: map[*ssa.Function][]map[*ssa.BasicBlock]bool{}, natCache: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, implCache: map[string][]impl{}, factCache: map[*ssa.Function]map[*ssa.BasicBlock][]fact{}, isRepo: map[*types.Package]bool{}}
	for _, p := range spkgs {
		p.Build()
		w.isRepo[p.Pkg] = true
	}
	for _, p := range spkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					w.named = append(w.named, nt)
				}
			}
		}
	}
	w.modelTab = models()
	return w, nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
func (w *World) posOf(in ssa.Instruction) string { return w.pos(instrPos(in)) }

func (w *World) rpo(fn *ssa.Function) []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.rpoCache[fn]; ok {
		return r
	}
	n := len(fn.Blocks)
	order := make([]int, n)
	seen := make([]bool, n)
	c := n
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		c--
		order[b.Index] = c
	}
	dfs(fn.Blocks[0])
	for i := range order {
		if !seen[i] {
			order[i] = n + i
		}
	}
	w.rpoCache[fn] = order
	return order
}

// loopID gives the strongly connected component of each block (-1: not in a loop).
func (w *World) loops(fn *ssa.Function) []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.loopCache[fn]; ok {
		return r
	}
	n := len(fn.Blocks)
	comp := make([]int, n)
	for i := range comp {
		comp[i] = -1
	}
	idx := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	for i := range idx {
		idx[i] = -1
	}
	var st []int
	cnt, nc := 0, 0
	var sc func(v int)
	sc = func(v int) {
		idx[v], low[v] = cnt, cnt
		cnt++
		st = append(st, v)
		on[v] = true
		self := false
		for _, s := range fn.Blocks[v].Succs {
			if s.Index == v {
				self = true
			}
			if idx[s.Index] < 0 {
				sc(s.Index)
				if low[s.Index] < low[v] {
					low[v] = low[s.Index]
				}
			} else if on[s.Index] && idx[s.Index] < low[v] {
				low[v] = idx[s.Index]
			}
		}
		if low[v] == idx[v] {
			var m []int
			for {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				on[x] = false
				m = append(m, x)
				if x == v {
					break
				}
			}
			if len(m) > 1 || self {
				for _, x := range m {
					comp[x] = nc
				}
				nc++
			}
		}
	}
	for i := range fn.Blocks {
		if idx[i] < 0 {
			sc(i)
		}
	}
	w.loopCache[fn] = comp
	return comp
}

func (w *World) inLoop(b *ssa.BasicBlock) bool { return w.loops(b.Parent())[b.Index] >= 0 }
func (w *World) sameLoop(a, b *ssa.BasicBlock) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	l := w.loops(a.Parent())
	return l[a.Index] >= 0 && l[a.Index] == l[b.Index]
}

// natLoop is the innermost natural loop around b: its header and its blocks.
func (w *World) natLoop(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	fn := b.Parent()
	inner, ok := w.natCache[fn]
	if !ok {
		inner = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		body := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, t := range fn.Blocks {
			for _, h := range t.Succs {
				if !h.Dominates(t) {
					continue
				}
				if body[h] == nil {
					body[h] = map[*ssa.BasicBlock]bool{h: true}
				}
				work := []*ssa.BasicBlock{t}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if !body[h][x] {
						body[h][x] = true
						work = append(work, x.Preds...)
					}
				}
			}
		}
		for _, h := range fn.Blocks {
			for x := range body[h] {
				if inner[x] == nil || len(body[h]) < len(inner[x]) {
					inner[x] = body[h]
				}
			}
		}
		w.natCache[fn] = inner
		for _, l := range body {
			w.allLoops[fn] = append(w.allLoops[fn], l)
		}
	}
	return inner[b]
}

// isHeader: control enters the loop at h.
func isHeader(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	for _, p := range h.Preds {
		if !loop[p] {
			return true
		}
	}
	return false
}

func (w *World) inner(x, b *ssa.BasicBlock) bool {
	return x != nil && b != nil && x.Parent() == b.Parent() && w.natLoop(b)[x]
}

// variesInLoop reports whether v takes a different value in each iteration of the
// innermost loop that contains b.
func (w *World) variesInLoop(v ssa.Value, b *ssa.BasicBlock) bool {
	return w.varies(v, b, map[ssa.Value]bool{})
}

func (w *World) varies(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || in.Block() == nil || !w.inner(in.Block(), b) {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if isHeader(x.Block(), w.natLoop(b)) {
			return true
		}
	case *ssa.Next, *ssa.Alloc:
		return true
	case *ssa.BinOp:
		if m, ok := x.X.(*ssa.BinOp); ok && x.Op == token.QUO && m.Op == token.MUL {
			return w.varies(m, b, seen) // bounds of the parts of a range, as in i*n/parts
		}
		switch x.Op {
		case token.QUO, token.REM, token.AND, token.SHR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return false
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return true
		}
		if x.Op == token.MUL {
			// a variable assigned in the loop
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && w.inner(s.Block(), b) {
						if !w.inner(al.Block(), b) || w.varies(s.Val, b, seen) {
							return true
						}
					}
				}
				return false
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && w.varies(*op, b, seen) {
			return true
		}
	}
	return false
}

// variesRef reports whether a reference denotes different storage because of an
// index for which vary holds; leaf decides references that come from elsewhere.
func variesRef(v ssa.Value, vary, leaf func(ssa.Value) bool) bool {
	return variesRef1(v, vary, leaf, map[ssa.Value]bool{})
}

func variesRef1(v ssa.Value, vary, leaf func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Low != nil && vary(x.Low) || variesRef1(x.X, vary, leaf, seen)
	case *ssa.IndexAddr:
		return vary(x.Index) || variesRef1(x.X, vary, leaf, seen)
	case *ssa.FieldAddr:
		return variesRef1(x.X, vary, leaf, seen)
	case *ssa.TypeAssert:
		return variesRef1(x.X, vary, leaf, seen)
	case *ssa.ChangeInterface:
		return variesRef1(x.X, vary, leaf, seen)
	case *ssa.MakeInterface:
		return variesRef1(x.X, vary, leaf, seen)
	case *ssa.ChangeType:
		return variesRef1(x.X, vary, leaf, seen)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if isIntType(a.Type()) && vary(a) {
				return true
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al && variesRef1(s.Val, vary, leaf, seen) {
					return true
				}
			}
		}
	case *ssa.Parameter:
		return leaf(x)
	}
	return false
}

// counter: x is stepped by a constant in every iteration of a loop that is not
// nested in another.
func (w *World) counter(x *ssa.Phi) bool {
	if !isIntType(x.Type()) {
		return false
	}
	b := x.Block()
	loop := w.natLoop(b)
	if loop == nil || !isHeader(b, loop) || !w.outermost(b) {
		return false
	}
	ok := false
	for i, e := range x.Edges {
		if !loop[b.Preds[i]] {
			continue
		}
		bo, is := e.(*ssa.BinOp)
		if !is || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != x || !isConst(bo.Y) {
			return false
		}
		ok = true
	}
	return ok
}

func (w *World) outermost(b *ssa.BasicBlock) bool {
	n := 0
	for _, x := range b.Parent().Blocks {
		if w.sameLoop(x, b) {
			n++
		}
	}
	return n == len(w.natLoop(b))
}

// varCounter is counter for a variable that lives in memory: *p = *p + c.
func (w *World) varCounter(x *ssa.BinOp) bool {
	ld, ok := x.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || !isConst(x.Y) || !w.inLoop(x.Block()) || !w.outermost(x.Block()) {
		return false
	}
	if _, ok := ld.X.(*ssa.Alloc); !ok {
		return false
	}
	for _, r := range *x.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ld.X {
			return true
		}
	}
	return false
}

// fewerTrips: the loop with header h provably runs fewer iterations than the loop
// around b: the same bound, another start.
func (w *World) fewerTrips(h, b *ssa.BasicBlock) bool {
	if h.Parent() != b.Parent() {
		return false
	}
	loop := w.natLoop(b)
	if loop == nil || loop[h] {
		return false
	}
	for x := range loop {
		if isHeader(x, loop) {
			i1, n1, ok1 := tripBound(h)
			i2, n2, ok2 := tripBound(x)
			return ok1 && ok2 && n1 == n2 && i1 > i2
		}
	}
	return false
}

func tripBound(h *ssa.BasicBlock) (int64, string, bool) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, "", false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return 0, "", false
	}
	phi, ok := bo.X.(*ssa.Phi)
	if !ok {
		return 0, "", false
	}
	for _, e := range phi.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil {
			n := bo.Y.Name()
			if ld, ok := bo.Y.(*ssa.UnOp); ok && ld.Op == token.MUL {
				n = "*" + ld.X.Name()
			}
			return k.Int64(), n, true
		}
	}
	return 0, "", false
}

// siteArg is what call passes for parameter p of the function it calls.
func siteArg(site ssa.Instruction, p *ssa.Parameter) ssa.Value {
	ci, ok := site.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		if cc.IsInvoke() {
			if i == 0 {
				return cc.Value
			}
			i--
		}
		if len(cc.Args) == len(p.Parent().Params)-b2i(cc.IsInvoke()) && i < len(cc.Args) {
			return cc.Args[i]
		}
	}
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// paramsOf lists the parameters v is computed from.
func paramsOf(v ssa.Value, seen map[ssa.Value]bool, out *[]*ssa.Parameter) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		*out = append(*out, x)
		return
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					paramsOf(s.Val, seen, out)
				}
			}
			return
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.AND, token.SHR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil {
				paramsOf(*op, seen, out)
			}
		}
	}
}

// spawnVaries reports whether v, computed at block b of the activation ctx, takes a
// different value each time the code is reached: because of the innermost loop around
// b or else of the loop around the call.
func (w *World) spawnVaries(ctx *Ctx, v ssa.Value, b *ssa.BasicBlock) bool {
	if w.inLoop(b) {
		return w.variesInLoop(v, b)
	}
	if ctx == nil || ctx.site == nil || ctx.site.Block() == nil {
		return false
	}
	var ps []*ssa.Parameter
	paramsOf(v, map[ssa.Value]bool{}, &ps)
	for _, p := range ps {
		if a := siteArg(ctx.site, p); a != nil && w.spawnVaries(ctx.parent, a, ctx.site.Block()) {
			return true
		}
	}
	return false
}

// spawnRef is spawnVaries for the storage a reference denotes.
func (w *World) spawnRef(ctx *Ctx, v ssa.Value, b *ssa.BasicBlock) bool {
	return variesRef(v, func(x ssa.Value) bool { return w.spawnVaries(ctx, x, b) }, func(x ssa.Value) bool {
		if w.inLoop(b) || ctx == nil || ctx.site == nil || ctx.site.Block() == nil {
			return false
		}
		a := siteArg(ctx.site, x.(*ssa.Parameter))
		return a != nil && w.spawnRef(ctx.parent, a, ctx.site.Block())
	})
}

// spawnVar is the above for the values assigned to a variable.
func (w *World) spawnVar(ctx *Ctx, al *ssa.Alloc, b *ssa.BasicBlock) (val, ref bool) {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if w.inLoop(b) && !w.inner(s.Block(), b) {
				continue
			}
			val = val || w.spawnVaries(ctx, s.Val, b)
			ref = ref || isRefType(s.Val.Type()) && w.spawnRef(ctx, s.Val, b)
		}
	}
	return
}

func (w *World) repoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return w.isRepo[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return w.isRepo[o.Pkg()]
	}
	return false
}

// interpretable: repository functions and the synthetic wrappers around methods.
func (w *World) interpretable(f *ssa.Function) bool {
	if w.repoFn(f) {
		return true
	}
	return f.Synthetic != "" && len(f.Blocks) > 0
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// implementations returns the repository's implementations of an interface method.
func (w *World) implementations(it types.Type, m *types.Func) []impl {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := types.TypeString(it, nil) + "." + m.Name()
	w.mu.Lock()
	r, ok := w.implCache[key]
	w.mu.Unlock()
	if ok {
		return r
	}
	var out []impl
	for _, n := range w.named {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		var t types.Type = n
		if !types.Implements(t, iface) {
			t = types.NewPointer(n)
			if !types.Implements(t, iface) {
				continue
			}
		}
		if f := w.lookupMethod(t, m); f != nil {
			out = append(out, impl{t, f})
		}
	}
	w.mu.Lock()
	w.implCache[key] = out
	w.mu.Unlock()
	return out
}

type fact struct {
	cond ssa.Value
	val  bool
}

// facts gives, for conditions tested more than once in fn, the outcomes that
// are known in each block.
func (w *World) facts(fn *ssa.Function) map[*ssa.BasicBlock][]fact {
	w.mu.Lock()
	r, ok := w.factCache[fn]
	w.mu.Unlock()
	if ok {
		return r
	}
	cnt := map[ssa.Value]int{}
	for _, b := range fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cnt[i.Cond]++
		}
	}
	out := map[*ssa.BasicBlock][]fact{}
	for _, b := range fn.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || cnt[i.Cond] < 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		for k, s := range b.Succs {
			if len(s.Preds) != 1 {
				continue
			}
			for _, d := range fn.Blocks {
				if s.Dominates(d) {
					out[d] = append(out[d], fact{i.Cond, k == 0})
				}
			}
		}
	}
	w.mu.Lock()
	w.factCache[fn] = out
	w.mu.Unlock()
	return out
}

// reaches: control can flow from block a to block b.
func (w *World) reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}
