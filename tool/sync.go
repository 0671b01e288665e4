package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the interpreter knows of wait groups, locks and channels.

func (c *callCtx) sync(kind, msg string) {
	if c.a.noEvents {
		return
	}
	for _, f := range c.a.onSync {
		f(kind, msg, c)
	}
}

// ---------------------------------------------------------------- wait groups

// wgCell is the location that stands for the counter of a wait group. Instances
// made by the same site share it: each is done with before the next is made.
func (a *An) wgCell(ad Addr) uint32 {
	return a.cell(ad.o.canon(), ad.p+"$n", types.Typ[types.Int])
}

// wgCount is the number of Done calls still owed: a constant part and, as labels,
// symbolic amounts.
func (c *callCtx) wgCount(h *PMap, ad Addr) *Val {
	v := h.get(c.a.wgCell(ad))
	if v == nil {
		v = &Val{ck: 1, cv: constant.MakeInt64(0)}
	}
	return v
}

func (c *callCtx) wgSet(ad Addr, v *Val) {
	n := *c.st
	n.heap = n.heap.set(c.a.wgCell(ad), v)
	c.st = &n
}

// wgInit: a new wait group owes nothing.
func (c *callCtx) wgInit(o *Obj, p string, t types.Type) {
	if t.String() == "sync.WaitGroup" {
		c.wgSet(Addr{o, p}, &Val{ck: 1, cv: constant.MakeInt64(0)})
		return
	}
	if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !c.a.w.isRepo[n.Obj().Pkg()]) {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			c.wgInit(o, p+"."+st.Field(i).Name(), st.Field(i).Type())
		}
	}
}

func shift(v *Val, d int64) *Val {
	if v.ck != 1 || v.cv == nil || v.cv.Kind() != constant.Int {
		return v
	}
	return &Val{ck: 1, cv: constant.BinaryOp(v.cv, token.ADD, constant.MakeInt64(d)), ls: v.ls}
}

func (c *callCtx) wgAdd(wg, n *Val, at ssa.Instruction) {
	for _, ad := range wg.refs {
		cur := c.wgCount(c.st.heap, ad)
		if n.ck == 1 && n.cv != nil {
			k, _ := constant.Int64Val(constant.ToInt(n.cv))
			cur = shift(cur, k)
		} else {
			e := "?"
			if ci, ok := at.(ssa.CallInstruction); ok && len(ci.Common().Args) == 2 {
				e = c.expr(ci.Common().Args[1])
			}
			cur = cur.withLS(c.a.mark("wg+" + e))
		}
		c.wgSet(ad, cur)
		c.must(fmt.Sprintf("add:%d%s", ad.o.canon().id, ad.p))
	}
}

func (c *callCtx) wgDone(wg *Val) {
	for _, ad := range wg.refs {
		c.wgSet(ad, shift(c.wgCount(c.st.heap, ad), -1))
		c.must(fmt.Sprintf("done:%d%s", ad.o.canon().id, ad.p))
	}
}

func (c *callCtx) wgWait(wg *Val) {
	a := c.a
	for _, ad := range wg.refs {
		v := c.wgCount(c.st.heap, ad)
		ok := v.ck == 1 && v.cv != nil && constant.Sign(v.cv) == 0
		want, have := map[string]bool{}, map[string]bool{}
		v.ls.each(func(i int) {
			n := a.lt.list[i].name
			if strings.HasPrefix(n, "wg+") {
				want[n[3:]] = true
			}
			if strings.HasPrefix(n, "wg-") {
				have[n[3:]] = true
			}
		})
		for n := range want {
			ok = ok && have[n]
		}
		if !ok && len(wg.refs) == 1 {
			c.sync("wait-balance", fmt.Sprintf("the number of Done calls does not match the Add calls of %s%s on every path", ad.o.name(), ad.p))
		}
		c.blocks("Wait")
		ev := fmt.Sprintf("done:%d%s", ad.o.canon().id, ad.p)
		if id, has := a.mustIDs[ev]; has {
			// an instance that cannot deliver what it sends never finishes
			c.st.pending.each(func(i int) {
				r := a.regions[i]
				if !r.done.has(id) {
					return
				}
				for ch := range r.sends {
					if o := a.objs[ch-1]; c.unbuffered(o) && !c.received(ch, i) {
						c.sync("send-received", fmt.Sprintf("Wait cannot return: the goroutine is blocked sending to %s, which nobody receives from", o.name()))
					}
				}
			})
		}
		c.joinOn(ev)
		if ok || len(wg.refs) == 1 {
			c.wgSet(ad, &Val{ck: 1, cv: constant.MakeInt64(0)})
		}
	}
}

// settle accounts for the wait groups a goroutine signals as if it had finished.
func (c *callCtx) settle(r *Region, before *PMap, out *State, h *PMap) *PMap {
	a := c.a
	out.must.each(func(i int) {
		n := a.mustNames[i]
		if !strings.HasPrefix(n, "done:") {
			return
		}
		for _, o := range a.objs {
			pre := fmt.Sprintf("done:%d", o.id)
			if o.canon() != o || !strings.HasPrefix(n, pre) {
				continue
			}
			p := n[len(pre):]
			if p != "" && p[0] >= '0' && p[0] <= '9' {
				continue
			}
			ad := Addr{o, p}
			cell := a.wgCell(ad)
			if before.get(cell) == nil && out.heap.get(cell) == nil {
				continue
			}
			x, y := c.wgCount(before, ad), c.wgCount(out.heap, ad)
			if x.ck == 1 && y.ck == 1 && x.cv != nil && y.cv != nil && sameConst(shift(x, -1).cv, y.cv) {
				if e, ok := c.everyTrip(r.instr); ok && a.lt.kindMask[LMark].inter(x.ls).has(a.lt.id(Label{LMark, 0, "wg+" + e})) {
					h = h.set(cell, x.withLS(a.mark("wg-"+e)))
				} else {
					h = h.set(cell, &Val{ck: 1, cv: y.cv, ls: x.ls})
				}
				continue
			}
			if x.ck == 1 {
				r.loose = r.loose.with(i)
				c.sync("wait-balance", fmt.Sprintf("the goroutine started here does not call Done of %s%s exactly once", o.name(), p))
			}
			h = h.set(cell, x)
		}
	})
	return h
}

// everyTrip: in is executed exactly once in every iteration of its loop, and the
// loop runs a number of times given by the expression returned.
func (c *callCtx) everyTrip(in ssa.Instruction) (string, bool) {
	w := c.a.w
	b := in.Block()
	loop := w.natLoop(b)
	if loop == nil {
		return "", false
	}
	var head *ssa.BasicBlock
	for x := range loop {
		if isHeader(x, loop) {
			head = x
		}
	}
	if head == nil {
		return "", false
	}
	for x := range loop {
		for _, s := range x.Succs {
			if !loop[s] && x != head && !panics(s) {
				return "", false // another way out
			}
			if s == head && !b.Dominates(x) {
				return "", false // an iteration without the goroutine
			}
		}
	}
	return c.trips(head)
}

func panics(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// trips gives the number of iterations of a counting loop.
func (c *callCtx) trips(h *ssa.BasicBlock) (string, bool) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return "", false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return "", false
	}
	x, first := bo.X, int64(0)
	if inc, ok := x.(*ssa.BinOp); ok && inc.Op == token.ADD {
		if k, ok := inc.Y.(*ssa.Const); ok && k.Int64() == 1 {
			x, first = inc.X, -1
		}
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return "", false
	}
	for i, e := range phi.Edges {
		if h.Dominates(h.Preds[i]) { // back edge
			if inc, ok := e.(*ssa.BinOp); ok && inc.Op == token.ADD && inc.X == ssa.Value(phi) {
				if k, ok := inc.Y.(*ssa.Const); ok && k.Int64() == 1 {
					continue
				}
			}
			return "", false
		}
		if k, ok := e.(*ssa.Const); !ok || k.Value == nil || k.Int64() != first {
			return "", false
		}
	}
	return c.expr(bo.Y), true
}

// expr names the value of v for comparison within one calling context.
func (c *callCtx) expr(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.String()
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + c.expr(x.X)
		}
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", c.expr(x.X), x.Field)
	case *ssa.BinOp:
		return "(" + c.expr(x.X) + x.Op.String() + c.expr(x.Y) + ")"
	case *ssa.Convert:
		return c.expr(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + c.expr(x.Call.Args[0]) + ")"
		}
	case *ssa.Parameter:
		if c.ctx != nil {
			if a := siteArg(c.ctx.site, x); a != nil && c.ctx.fn == x.Parent() && c.ctx.parent != nil {
				d := *c
				d.ctx = c.ctx.parent
				return d.expr(a)
			}
		}
	}
	if v.Parent() != nil {
		return v.Parent().Name() + ":" + v.Name()
	}
	return v.Name()
}

// ---------------------------------------------------------------- locks

type lockEdge struct {
	from, to int
	instr    ssa.Instruction
	ctx      *Ctx
}

// ordered records what is held while lock id is taken.
func (c *callCtx) ordered(id int) {
	a := c.a
	li := a.lockInfos[id]
	for r := a.cur; r != 0; r = a.regions[r].parent {
		a.regions[r].acq = a.regions[r].acq.with(id).with(li.pair)
	}
	if li.elem || li.o.summary {
		return
	}
	if c.st.held.has(id) && li.kind == "lock" || c.st.held.has(li.pair) {
		c.sync("no-self-deadlock", fmt.Sprintf("%s may be locked again while this goroutine holds it", li.o.name()))
	}
	if a.lockOrder == nil {
		a.lockOrder = map[[2]int]*lockEdge{}
	}
	c.st.held.each(func(h int) {
		hi := a.lockInfos[h]
		if hi == nil || hi.elem || hi.o.summary || hi.o.canon() == li.o.canon() && h == id {
			return
		}
		norm := func(i int) int {
			if a.lockInfos[i] != nil && a.lockInfos[i].kind == "rlock" {
				return a.lockInfos[i].pair
			}
			return i
		}
		k := [2]int{norm(h), norm(id)}
		if k[0] != k[1] && a.lockOrder[k] == nil {
			a.lockOrder[k] = &lockEdge{k[0], k[1], c.instr, c.ctx}
		}
		if c.lockCycle(k[1], k[0], map[int]bool{}) {
			c.sync("lock-order", fmt.Sprintf("%s is taken while %s is held, and elsewhere the other way round", li.o.name(), hi.o.name()))
		}
	})
}

func (c *callCtx) lockCycle(from, to int, seen map[int]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for k := range c.a.lockOrder {
		if k[0] == from && c.lockCycle(k[1], to, seen) {
			return true
		}
	}
	return false
}

// blocks: the goroutine waits for others here, so it must not hold what they need.
func (c *callCtx) blocks(what string) {
	a := c.a
	if c.st.held.empty() {
		return
	}
	c.st.pending.each(func(i int) {
		c.st.held.inter(a.regions[i].acq).each(func(l int) {
			if li := a.lockInfos[l]; li != nil && !li.elem {
				c.sync("no-self-deadlock", fmt.Sprintf("%s while holding %s, which the goroutines waited for need", what, li.o.name()))
			}
		})
	})
}

// checkReleased: no lock is held at the end.
func (c *callCtx) checkReleased(when string) {
	c.st.held.each(func(i int) {
		if li := c.a.lockInfos[i]; li != nil {
			c.sync("lock-released", fmt.Sprintf("%s may still be locked %s", li.o.name(), when))
		}
	})
}

// ---------------------------------------------------------------- channels

func (c *callCtx) own(o *Obj) bool { return o.kind == OAlloc }

func (c *callCtx) unbuffered(o *Obj) bool {
	if !c.own(o) {
		return false
	}
	v := c.st.heap.get(c.a.cell(o, "$cap", types.Typ[types.Int]))
	return v != nil && v.ck == 1 && v.cv != nil && constant.Sign(v.cv) == 0
}

// received: a running goroutine other than not receives from ch.
func (c *callCtx) received(ch, not int) bool {
	hit := false
	c.st.pending.each(func(i int) {
		if i != not && c.a.regions[i].recvs[ch] {
			hit = true
		}
	})
	return hit
}

func (c *callCtx) mayBeClosed(o *Obj) bool {
	v := c.st.heap.get(c.a.cell(o, "$closed", types.Typ[types.Bool]))
	if v == nil || o.summary {
		return false
	}
	b, ok := v.constBool()
	return !ok || b
}

func (c *callCtx) sendTo(o *Obj) {
	if !c.own(o) {
		return
	}
	if c.mayBeClosed(o) {
		c.sync("send-open", fmt.Sprintf("%s may be closed when this is sent", o.name()))
	}
	if c.a.cur == 0 && c.unbuffered(o) && !c.received(o.canon().id, 0) {
		c.sync("send-received", fmt.Sprintf("nobody receives from %s when this is sent", o.name()))
	}
	c.blocks("sending")
}

func (c *callCtx) recvFrom(o *Obj, x *ssa.UnOp) {
	a := c.a
	id := o.canon().id
	for r := a.cur; r != 0; r = a.regions[r].parent {
		if a.regions[r].recvs == nil {
			a.regions[r].recvs = map[int]bool{}
		}
		a.regions[r].recvs[id] = true
	}
	c.blocks("receiving")
	if !c.own(o) || !x.CommaOk || !a.w.inLoop(x.Block()) {
		return
	}
	// the loop ends only when the channel is closed
	cls, has := a.mustIDs[fmt.Sprintf("close:%d", id)]
	sent, closed := false, has && c.st.must.has(cls)
	for _, r := range a.regions[1:] {
		if _, ok := r.sends[id]; ok {
			sent = true
		}
		if has && r.done.has(cls) {
			closed = true
		}
	}
	if sent && !closed {
		c.sync("closed-when-done", fmt.Sprintf("receiving from %s until it is closed, but its goroutine does not close it on every path", o.name()))
	}
}

func (c *callCtx) closeChan(o *Obj, sole bool) {
	a := c.a
	if !c.own(o) || !sole {
		return
	}
	if c.mayBeClosed(o) {
		c.sync("close-once", fmt.Sprintf("%s may already be closed", o.name()))
	}
	for r := a.cur; r != 0; r = a.regions[r].parent {
		if a.regions[r].multi && a.shared(o, r) && a.soleInstance(c.ctx, c.instr, a.cur)[r] == "" {
			c.sync("close-once", fmt.Sprintf("every instance of the goroutine closes %s", o.name()))
		}
	}
	c.st = a.set(c.st, o, "$closed", types.Typ[types.Bool], boolVal(true))
}
