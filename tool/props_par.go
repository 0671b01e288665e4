package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parAcc is one access made while goroutines are running.
type parAcc struct {
	write   bool
	als     LS
	locks   LS
	pending LS
	region  int
	instr   ssa.Instruction
	ctx     *Ctx
	how     string
	sole    map[int]string // regions of which one instance only gets here
}

type parKey struct {
	cell  uint32
	instr ssa.Instruction
	ctx   *Ctx
	write bool
	how   string
}

// parRec collects the accesses of one scenario. Labels grow while the fixpoint
// is computed, so the last evaluation of an instruction counts.
type parRec struct {
	accs map[parKey]*parAcc
}

func watchParallel(a *An) *parRec {
	pr := &parRec{accs: map[parKey]*parAcc{}}
	rec := func(x *Access, write bool) {
		if a.cur == 0 && x.st.pending.empty() {
			return
		}
		pr.accs[parKey{x.cell, x.instr, x.ctx, write, x.how}] = &parAcc{sole: a.soleInstance(x.ctx, x.instr, x.region), write: write, als: x.als, locks: x.st.locks, pending: x.st.pending, region: x.region, instr: x.instr, ctx: x.ctx, how: x.how}
	}
	a.onRead = append(a.onRead, func(x *Access) { rec(x, false) })
	a.onWrite = append(a.onWrite, func(x *Access) { rec(x, true) })
	return pr
}

func (a *An) within(reg, r int) bool {
	for ; reg != 0; reg = a.regions[reg].parent {
		if reg == r {
			return true
		}
	}
	return r == 0
}

// instanceOwn: the address depends on which instance of region r computes it.
func (a *An) instanceOwn(als LS, r *Region, p string) bool {
	if strings.Contains(p, "[k]") || strings.Contains(p, "[v]") {
		return false // maps do not tolerate concurrent writes to different keys
	}
	return als.has(r.part) || als.has(r.partq) && als.has(r.partr)
}

// runsWith: y's region may be running while x executes.
func (a *An) runsWith(x, y *parAcc) bool {
	hit := false
	x.pending.each(func(p int) {
		if a.within(y.region, p) && !a.within(x.region, p) {
			hit = true
		}
	})
	return hit
}

var posRE = regexp.MustCompile(`\s*[\w./-]+\.go:\d+`)

func cellName(o *Obj, p string) string {
	return posRE.ReplaceAllString(o.name(), "") + p
}

// races reports the pairs of conflicting accesses.
func (pr *parRec) races(w *World, a *An, r *Result, entry string) {
	pr.report(w, a, r, entry, func(ci cellInfo, x, y *parAcc) string { return pr.conflict(a, ci.o, ci.p, x, y) })
}

func (pr *parRec) report(w *World, a *An, r *Result, entry string, conflict func(ci cellInfo, x, y *parAcc) string) {
	byCell := map[uint32][]*parAcc{}
	for k, x := range pr.accs {
		byCell[k.cell] = append(byCell[k.cell], x)
	}
	cells := make([]uint32, 0, len(byCell))
	for c := range byCell {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i] < cells[j] })
	for _, c := range cells {
		ci := a.cinfo[c]
		accs := byCell[c]
		wr := false
		for _, x := range accs {
			wr = wr || x.write
		}
		r.unit("locations used by goroutines", 1)
		if !wr {
			continue
		}
		sort.Slice(accs, func(i, j int) bool {
			p, q := instrPos(accs[i].instr), instrPos(accs[j].instr)
			if p != q {
				return p < q
			}
			return accs[i].write && !accs[j].write
		})
		r.unit("locations written while goroutines run", 1)
		for _, x := range accs {
			if !x.write {
				continue
			}
			for _, y := range accs {
				if y.write && instrPos(y.instr) < instrPos(x.instr) {
					continue
				}
				why := conflict(ci, x, y)
				if why == "" {
					continue
				}
				px, fx := w.repoSite(x.ctx, x.instr)
				py, fy := w.repoSite(y.ctx, y.instr)
				kind := "read"
				if y.write {
					kind = "write"
				}
				r.add(&Finding{Rule: "no-race", Key: fnKey(fx) + ":" + cellName(ci.o, ci.p), Pos: w.posOf(px),
					Msg:  fmt.Sprintf("%s%s is written without ordering against the %s at %s (%s, %s; entry %s)", ci.o.name(), ci.p, kind, w.posOf(py), fnKey(fy), why, entry),
					Path: append(append(w.path(x.ctx, x.instr), "  conflicting "+kind+":"), w.path(y.ctx, y.instr)...)})
			}
		}
	}
}

// repoSite is the innermost construct of the repository that led to in.
func (w *World) repoSite(ctx *Ctx, in ssa.Instruction) (ssa.Instruction, *ssa.Function) {
	for {
		f := in.Parent()
		if f.Synthetic == "" && w.repoFn(f) || ctx == nil || ctx.site == nil {
			return in, f
		}
		in, ctx = ctx.site, ctx.parent
	}
}

func fnKey(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	if i := strings.IndexByte(s, '$'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (pr *parRec) conflict(a *An, o *Obj, p string, x, y *parAcc) string {
	// two instances of one region
	for _, rg := range a.regions[1:] {
		if !rg.multi || !a.within(x.region, rg.id) || !a.within(y.region, rg.id) || !a.shared(o, rg.id) {
			continue
		}
		if k := x.sole[rg.id]; k != "" && k == y.sole[rg.id] {
			continue
		}
		if a.excludes(x.locks, y.locks, rg.id) {
			continue
		}
		if !(a.instanceOwn(x.als, rg, p) && a.instanceOwn(y.als, rg, p)) {
			return "two instances of one goroutine"
		}
		if a.spansMeet(rg, x.als, y.als) {
			return "the parts of two instances of one goroutine overlap"
		}
	}
	// a region and what runs beside it
	if x.region != y.region || x != y {
		for _, q := range [][2]*parAcc{{x, y}, {y, x}} {
			if a.runsWith(q[0], q[1]) && !a.excludes(x.locks, y.locks, 0) && !a.handedOver(o, q[1].region) && !a.finishedPart(q[0], q[1], p) {
				return "the goroutine is still running"
			}
		}
	}
	return ""
}

// finishedPart: x works on the part of an instance of y's region that has sent it
// the result.
func (a *An) finishedPart(x, y *parAcc, p string) bool {
	for r := y.region; r != 0 && !a.within(x.region, r); r = a.regions[r].parent {
		rg := a.regions[r]
		if a.instanceOwn(x.als, rg, p) && a.instanceOwn(y.als, rg, p) {
			return true
		}
	}
	return false
}

// soleInstance finds the regions of which only one instance reaches in: the access
// is guarded by a test for one value of what tells the instances apart.
func (a *An) soleInstance(ctx *Ctx, in ssa.Instruction, reg int) map[int]string {
	var out map[int]string
	if reg == 0 {
		return nil
	}
	for in != nil && ctx != nil && ctx.rec != nil {
		b := in.Block()
		for d := b; d != nil; d = d.Idom() {
			p := d.Idom()
			if p == nil || len(d.Preds) != 1 || d.Preds[0] != p {
				continue
			}
			f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := f.Cond.(*ssa.BinOp)
			if !ok || !(bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d) {
				continue
			}
			v, k := bo.X, bo.Y
			if !isConst(k) {
				v, k = k, v
			}
			if !isConst(k) {
				continue
			}
			vl := ctx.rec.val(v)
			for r := reg; r != 0; r = a.regions[r].parent {
				if vl.ls.has(a.regions[r].part) {
					if out == nil {
						out = map[int]string{}
					}
					out[r] = fmt.Sprintf("%s/%s/%s", b.Parent().Name(), v.Name(), k)
				}
			}
		}
		in, ctx = ctx.site, ctx.parent
	}
	return out
}

// handedOver: one object per iteration, born in the region and passed on.
func (a *An) handedOver(o *Obj, reg int) bool {
	for r := reg; r != 0; r = a.regions[r].parent {
		if o.priv[r] {
			return true
		}
		if o.region == r && (o.summary || o.old != nil) {
			return true
		}
	}
	return false
}

func propRaces(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{"no-race: two accesses to one location, one of them a write, made by goroutines that may run at the same time, are made under a common lock or at an address that differs between the instances"}
	parallel(w.entries(), func(e *Entry) {
		r.caseSplit(e.configRoots(), func(r *Result, mode map[string]*Val) {
			s := newScen(w)
			s.assumptions()
			s.srcAssume()
			s.inMode(mode)
			s.inits()
			pr := watchParallel(s.a)
			s.run("e", e.fn, s.args(e))
			r.absorb(s.a, e.name)
			if len(s.a.regions) > 1 {
				r.unit("entry points with goroutines", 1)
				r.unit("goroutine regions", len(s.a.regions)-1)
				r.ob(len(s.a.regions) - 1)
				r.unit("accesses examined", len(pr.accs))
				pr.races(w, s.a, r, e.name)
			}
		})
	})
	guardedTypes(w, r)
	return r
}

// guardedTypes: the methods of a type that carries its own lock may be called by
// several goroutines at once.
func guardedTypes(w *World, r *Result) {
	by := map[string][]*Entry{}
	for _, e := range w.entries() {
		if e.recv == nil {
			continue
		}
		t := e.recv
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if hasMutex(t) {
			by[e.typeName()] = append(by[e.typeName()], e)
		}
	}
	for _, n := range sortedKeys(by) {
		s := newScen(w)
		s.assumptions()
		s.srcAssume()
		s.inits()
		st0 := s.st
		pr := &parRec{accs: map[parKey]*parAcc{}}
		rec := func(x *Access, write bool) {
			if x.o.kind == OSym && x.o.root == "recv" {
				pr.accs[parKey{x.cell, x.instr, x.ctx, write, x.how}] = &parAcc{write: write, locks: x.st.locks, instr: x.instr, ctx: x.ctx, how: x.how}
			}
		}
		s.a.onRead = append(s.a.onRead, func(x *Access) { rec(x, false) })
		s.a.onWrite = append(s.a.onWrite, func(x *Access) { rec(x, true) })
		recv, _ := s.receiver(by[n][0].recv)
		for _, e := range by[n] {
			s.st = st0
			args := s.args(e)
			args[0] = recv
			s.run("m:"+e.meth, e.fn, args)
		}
		r.absorb(s.a, n)
		r.unit("types with a lock of their own", 1)
		r.unit("accesses examined", len(pr.accs))
		r.ob(len(by[n]))
		pr.report(w, s.a, r, n, func(ci cellInfo, x, y *parAcc) string {
			if s.a.excludes(x.locks, y.locks, 0) {
				return ""
			}
			return "two goroutines calling methods of " + n
		})
	}
}

func hasMutex(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		s := st.Field(i).Type().String()
		if s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- discipline

func propSync(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"joined: when an exported operation returns, every goroutine it started has finished, except one that feeds the channel it returns and closes it on every path",
		"wait-balance: at every Wait the Done calls of the goroutines started match the Add calls made before them, on every path",
		"lock-released, unlock-held, no-self-deadlock, lock-order: every lock taken is released on every path, only held locks are released, no lock is taken again or in conflicting orders, and nobody waits for goroutines while holding what they need",
		"close-once, send-open, closed-when-done, send-received: channels are closed at most once and never sent to afterwards, a channel received from until it is closed is closed on every path, and what is sent can be received",
	}
	parallel(w.entries(), func(e *Entry) {
		r.caseSplit(e.configRoots(), func(r *Result, mode map[string]*Val) {
			s := newScen(w)
			s.assumptions()
			s.srcAssume()
			s.inMode(mode)
			s.inits()
			a := s.a
			n := 0
			add := func(rule, msg string, ctx *Ctx, in ssa.Instruction) {
				p, f := w.repoSite(ctx, in)
				r.add(&Finding{Rule: rule, Key: fnKey(f) + ":" + posRE.ReplaceAllString(strings.SplitN(msg, " ", 3)[0], ""), Pos: w.posOf(p), Msg: msg + " (entry " + e.name + ")", Path: w.path(ctx, in)})
			}
			a.onSync = append(a.onSync, func(kind, msg string, c *callCtx) { add(kind, msg, c.ctx, c.instr) })
			a.onCall = append(a.onCall, func(x *CallEvent) {
				if x.name == "lock" || x.name == "rlock" {
					n++
				}
			})
			v, ok := s.run("e", e.fn, s.args(e))
			r.absorb(a, e.name)
			if ok {
				end := &callCtx{a: a, st: s.st, ctx: s.top}
				end.st.held.each(func(i int) {
					if li := a.lockInfos[i]; li != nil {
						r.add(&Finding{Rule: "lock-released", Key: e.name + ":" + cellName(li.o, ""), Pos: w.pos(e.fn.Pos()), Msg: fmt.Sprintf("%s may still be locked when %s returns", li.o.name(), e.name)})
					}
				})
				res := map[int]bool{}
				for _, ad := range v.allRefs() {
					res[ad.o.canon().id] = true
				}
				s.st.pending.each(func(i int) {
					rg := a.regions[i]
					for ch := range rg.sends {
						if cls, has := a.mustIDs[fmt.Sprintf("close:%d", ch)]; res[ch] && has && rg.done.has(cls) {
							return
						}
					}
					add("joined", "the goroutine started here may still be running when "+e.name+" returns", rg.ctx, rg.instr)
				})
			}
			if len(a.regions) > 1 || n > 0 {
				r.unit("entry points with goroutines or locks", 1)
				r.unit("goroutine regions", len(a.regions)-1)
				r.unit("lock operations", n)
				r.ob(len(a.regions) - 1 + n)
			}
		})
	})
	return r
}
