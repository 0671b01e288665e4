package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// span says which indices an instance of a region uses: those from the lo-th
// varying argument (or captured variable) of the go statement to the hi-th, each
// plus an offset. Multiples of such an index name rows, so that what is added to
// them moves inside the row. A mirrored span counts backwards.
type span struct {
	lo, hi       int
	loOff, hiOff int64
	scaled, back bool
}

func (s span) String() string {
	return fmt.Sprintf("%d %d %d %d %t %t", s.lo, s.hi, s.loOff, s.hiOff, s.scaled, s.back)
}

func parseSpan(t string) (s span) {
	fmt.Sscanf(t, "%d %d %d %d %t %t", &s.lo, &s.hi, &s.loOff, &s.hiOff, &s.scaled, &s.back)
	return
}

func (a *An) spanLabel(r *Region, s span) LS { return a.label(LRange, r.id, s.String()) }

func (a *An) mapSpans(ls LS, f func(s span) (span, bool)) LS {
	var out LS
	ls.inter(a.lt.kindMask[LRange]).each(func(i int) {
		l := a.lt.list[i]
		if s, ok := f(parseSpan(l.name)); ok {
			out = out.union(a.label(LRange, l.id, s.String()))
		}
	})
	return out
}

// movedSpan gives the spans of the result of an operation.
func (a *An) movedSpan(x *ssa.BinOp, l, r *Val) LS {
	if !isIntType(x.Type()) {
		return LS{}
	}
	hl, hr := a.lsHasKind(l.ls, LRange), a.lsHasKind(r.ls, LRange)
	if hl && hr {
		return LS{}
	}
	all := l.ls.union(r.ls)
	k, kc := int64(0), false
	o := r
	if hr {
		o = l
	}
	if o.ck == 1 && o.cv != nil && o.cv.Kind() == constant.Int {
		k, kc = constant.Int64Val(o.cv)
	}
	switch x.Op {
	case token.ADD, token.SUB:
		if hr && x.Op == token.SUB {
			return a.mapSpans(all, func(s span) (span, bool) { s.back = !s.back; return s, true })
		}
		if x.Op == token.SUB {
			k = -k
		}
		if accumulates(x) {
			return l.ls.union(r.ls).inter(a.lt.kindMask[LRange])
		}
		return a.mapSpans(all, func(s span) (span, bool) {
			if s.scaled {
				return s, true
			}
			if !kc || s.back {
				return s, false
			}
			s.loOff += k
			s.hiOff += k
			return s, s.loOff > -16 && s.loOff < 16 && s.hiOff > -16 && s.hiOff < 16
		})
	case token.MUL:
		return a.mapSpans(all, func(s span) (span, bool) { s.scaled = true; return s, !kc })
	}
	return LS{}
}

// loopSpan gives the spans of a loop counter: from where it starts to the bound it
// is compared with.
func (fr *frame) loopSpan(x *ssa.Phi, ls LS) LS {
	a := fr.a
	rest := ls.minus(a.lt.kindMask[LRange])
	b := x.Block()
	if len(x.Edges) != 2 {
		return rest
	}
	var init ssa.Value
	for i, e := range x.Edges {
		if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(x) && isOne(bo.Y) {
			init = x.Edges[1-i]
		}
	}
	if init == nil {
		if a.w.natLoop(b) != nil && a.w.natLoop(b)[b] && isLoopHead(b) {
			return rest
		}
		return ls // a merge of two values
	}
	iv := fr.val(init)
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return rest
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.X != ssa.Value(x) || bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.NEQ {
		return rest
	}
	bv := fr.val(bo.Y)
	add := int64(0)
	if bo.Op == token.LEQ {
		add = 1
	}
	var out LS
	iv.ls.inter(a.lt.kindMask[LRange]).each(func(i int) {
		li := a.lt.list[i]
		s := parseSpan(li.name)
		if s.scaled || s.back || s.lo != s.hi {
			return
		}
		bv.ls.inter(a.lt.kindMask[LRange]).each(func(j int) {
			lj := a.lt.list[j]
			t := parseSpan(lj.name)
			if lj.id != li.id || t.scaled || t.back || t.lo != t.hi {
				return
			}
			out = out.union(a.label(LRange, li.id, span{lo: s.lo, loOff: s.loOff, hi: t.hi, hiOff: t.loOff + add}.String()))
		})
	})
	return rest.union(out)
}

// counted: a variable, perhaps captured by a function literal, that is changed by
// adding to it.
func counted(v ssa.Value) bool {
	for d := 0; d < 4; d++ {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			break
		}
		fn := fv.Parent()
		if fn.Referrers() == nil {
			return true
		}
		var b ssa.Value
		for _, u := range *fn.Referrers() {
			if mc, ok := u.(*ssa.MakeClosure); ok {
				for i, f := range fn.FreeVars {
					if f == fv {
						b = mc.Bindings[i]
					}
				}
			}
		}
		if b == nil {
			return true
		}
		v = b
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			if bo, ok := s.Val.(*ssa.BinOp); ok {
				if ld, ok := bo.X.(*ssa.UnOp); ok && ld.X == ssa.Value(al) {
					return true
				}
			}
		}
	}
	return false
}

func isOne(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 1
}

// isLoopHead reports whether a back edge leads to b.
func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- polynomials

// poly is a polynomial over values that are the same for all instances ("v...")
// and the counter of the loop that starts them ("#").
type poly map[string]int64

func (p poly) add(q poly, k int64) poly {
	r := poly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		if r[m] += k * c; r[m] == 0 {
			delete(r, m)
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			f := append(strings.Fields(m), strings.Fields(n)...)
			sort.Strings(f)
			k := strings.Join(f, " ")
			if r[k] += c * d; r[k] == 0 {
				delete(r, k)
			}
		}
	}
	return r
}

// next is p for the next value of the counter.
func (p poly) next(step int64) poly {
	r := poly{}
	for m, c := range p {
		q := poly{"": c}
		for _, f := range strings.Fields(m) {
			if f == "#" {
				q = q.mul(poly{"#": 1, "": step})
			} else {
				q = q.mul(poly{f: 1})
			}
		}
		r = r.add(q, 1)
	}
	return r
}

// positive: certainly more than 0, if the values in it are at least 1 and the
// counter starts from 0 or more.
func (p poly) positive() bool {
	pos := false
	for m, c := range p {
		if c < 0 {
			return false
		}
		pos = pos || !strings.Contains(" "+m+" ", " # ")
	}
	return pos
}

// spawnPolys gives what a value varying between the instances of a region may be.
func (w *World) spawnPolys(r *Region, k int) (alts []poly, step int64) {
	g, ok := r.instr.(*ssa.Go)
	if !ok || !w.inLoop(g.Block()) {
		return nil, 0
	}
	loop := w.natLoop(g.Block())
	var v ssa.Value
	n := len(g.Call.Args)
	if k < n {
		v = g.Call.Args[k]
	} else if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && k-n < len(mc.Bindings) {
		v = mc.Bindings[k-n]
	}
	if v == nil || loop == nil {
		return nil, 0
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) []poly
	stored := func(al *ssa.Alloc) []poly {
		var out []poly
		for _, u := range *al.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) && loop[s.Block()] {
				p := rec(s.Val)
				if p == nil {
					return nil
				}
				out = append(out, p...)
			}
		}
		return out
	}
	rec = func(v ssa.Value) (out []poly) {
		if seen[v] {
			return nil
		}
		seen[v] = true
		defer func() {
			delete(seen, v)
			if len(out) > 6 {
				out = nil
			}
		}()
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil || c.Value.Kind() != constant.Int {
				return nil
			}
			if c.Int64() == 0 {
				return []poly{{}}
			}
			return []poly{{"": c.Int64()}}
		}
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || !loop[in.Block()] {
			if al, ok := v.(*ssa.Alloc); ok {
				return stored(al)
			}
			return []poly{{fmt.Sprintf("v%s@%p", v.Name(), v): 1}}
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			return stored(x)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && loop[al.Block()] {
				return stored(al)
			}
		case *ssa.Phi:
			if isLoopHead(x.Block()) && len(x.Edges) == 2 {
				for i, e := range x.Edges {
					from, isC := x.Edges[1-i].(*ssa.Const)
					if !isC || from.Value == nil || from.Value.Kind() != constant.Int || from.Int64() < 0 {
						continue
					}
					if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(x) {
						if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && (step == 0 || step == c.Int64()) {
							step = c.Int64()
							return []poly{{"#": 1}}
						}
					}
				}
				return nil
			}
			for _, e := range x.Edges {
				p := rec(e)
				if p == nil {
					return nil
				}
				out = append(out, p...)
			}
			return out
		case *ssa.BinOp:
			l, r := rec(x.X), rec(x.Y)
			for _, p := range l {
				for _, q := range r {
					switch x.Op {
					case token.ADD:
						out = append(out, p.add(q, 1))
					case token.SUB:
						out = append(out, p.add(q, -1))
					case token.MUL:
						out = append(out, p.mul(q))
					default:
						return nil
					}
				}
			}
			return out
		}
		return nil
	}
	return rec(v), step
}

// spansMeet: the indices two instances use certainly overlap.
func (a *An) spansMeet(rg *Region, x, y LS) bool {
	one := func(ls LS) (s span, ok bool) {
		n := 0
		ls.inter(a.lt.kindMask[LRange]).each(func(i int) {
			if l := a.lt.list[i]; l.id == rg.id {
				s = parseSpan(l.name)
				n++
			}
		})
		return s, n == 1
	}
	s, ok1 := one(x)
	t, ok2 := one(y)
	if !ok1 || !ok2 || s.scaled != t.scaled {
		return false
	}
	if s.back != t.back {
		return true
	}
	if s.back {
		return false
	}
	meet := func(s, t span) bool { // s of one instance and t of the next
		hi, st1 := a.w.spawnPolys(rg, s.hi)
		lo, st2 := a.w.spawnPolys(rg, t.lo)
		if st1 == 0 {
			st1 = st2
		}
		if st1 <= 0 || st2 != 0 && st1 != st2 || len(lo) != 1 {
			return false // a start of several forms may be kept below the end
		}
		for _, h := range hi {
			for _, l := range lo {
				if h.add(poly{"": s.hiOff}, 1).add(l.next(st1).add(poly{"": t.loOff}, 1), -1).clean().positive() {
					return true
				}
			}
		}
		return false
	}
	// the number of a worker is among the items of another as soon as it has several
	number := func(s span) bool {
		p, _ := a.w.spawnPolys(rg, s.lo)
		return s.lo == s.hi && len(p) == 1 && len(p[0]) == 1 && p[0]["#"] == 1
	}
	items := func(s span) bool {
		p, _ := a.w.spawnPolys(rg, s.lo)
		if s.lo == s.hi || len(p) != 1 || len(p[0]) != 1 {
			return false
		}
		for m, c := range p[0] {
			return c > 0 && len(strings.Fields(m)) == 2 && strings.Contains(" "+m+" ", " # ")
		}
		return false
	}
	if number(s) && items(t) || number(t) && items(s) {
		return true
	}
	return meet(s, t) || meet(t, s)
}

func (p poly) clean() poly {
	for m, c := range p {
		if c == 0 {
			delete(p, m)
		}
	}
	return p
}
