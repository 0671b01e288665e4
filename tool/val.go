package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- labels

// LS is an immutable set of labels.
type LS struct{ w []uint64 }

type LabelKind uint8

const (
	LInit    LabelKind = iota // derived from the initial value of a symbolic cell
	LPart                     // distinguishes concurrent instances of a region
	LPartQ                    // quotient of such a value
	LPartR                    // remainder of such a value
	LStride                   // row stride of the matrix stored in obj
	LInc                      // increment of the vector stored in obj
	LCols                     // column count of the matrix stored in obj
	LMulCols                  // a product with a column count
	LLen                      // length of the storage of obj
	LRng                      // drawn from the random source obj
	LGlobRng                  // drawn from a process-global random source
	LTime                     // derived from the clock
	LMapOrd                   // order of iteration of a map
	LMark                     // a named mark (TRAIN, TEST, ...)
	LShift                    // a slice that does not start at the first element of its storage
	LTrunc                    // a slice cut short: appending to it overwrites elements of its storage
	LEmpty                    // a slice emptied for reuse
	LCtr                      // a counter: another value each time it is evaluated
	LDup                      // storage whose elements may repeat
	LRows                     // a row count or an index of rows
	LAll                      // an index over the whole storage obj
	LRange                    // which part of a region's instance it is (see span)
)

type Label struct {
	kind LabelKind
	id   int    // object or region id
	name string // LInit: root.path ; LMark: name
}

func (l Label) String() string {
	switch l.kind {
	case LInit:
		return "init(" + l.name + ")"
	case LPart:
		return fmt.Sprintf("part%d", l.id)
	case LPartQ:
		return fmt.Sprintf("partq%d", l.id)
	case LPartR:
		return fmt.Sprintf("partr%d", l.id)
	case LStride:
		return fmt.Sprintf("stride(#%d)", l.id)
	case LInc:
		return fmt.Sprintf("inc(#%d)", l.id)
	case LCols:
		return fmt.Sprintf("cols(#%d)", l.id)
	case LMulCols:
		return fmt.Sprintf("mulcols(#%d)", l.id)
	case LLen:
		return fmt.Sprintf("len(#%d)", l.id)
	case LRows:
		return "rows"
	case LAll:
		return fmt.Sprintf("all(#%d)", l.id)
	case LCtr:
		return "ctr"
	case LDup:
		return "dup"
	case LRng:
		return fmt.Sprintf("rng(#%d)", l.id)
	case LGlobRng:
		return "globalrand"
	case LTime:
		return "clock"
	case LMapOrd:
		return "maporder"
	case LMark:
		return l.name
	}
	return "?"
}

type labelTab struct {
	ids  map[Label]int
	list []Label
	// kindMask[k] is the set of all labels of kind k
	kindMask map[LabelKind]LS
}

func newLabelTab() *labelTab {
	return &labelTab{ids: map[Label]int{}, kindMask: map[LabelKind]LS{}}
}
func (t *labelTab) id(l Label) int {
	if i, ok := t.ids[l]; ok {
		return i
	}
	i := len(t.list)
	t.ids[l] = i
	t.list = append(t.list, l)
	t.kindMask[l.kind] = t.kindMask[l.kind].with(i)
	return i
}

func (s LS) has(i int) bool { return i>>6 < len(s.w) && s.w[i>>6]&(1<<(uint(i)&63)) != 0 }
func (s LS) with(i int) LS {
	if s.has(i) {
		return s
	}
	n := len(s.w)
	if i>>6 >= n {
		n = i>>6 + 1
	}
	w := make([]uint64, n)
	copy(w, s.w)
	w[i>>6] |= 1 << (uint(i) & 63)
	return LS{w}
}
func (s LS) union(o LS) LS {
	if len(o.w) == 0 || s.eq(o) {
		return s
	}
	if len(s.w) == 0 {
		return o
	}
	if s.contains(o) {
		return s
	}
	n := len(s.w)
	if len(o.w) > n {
		n = len(o.w)
	}
	w := make([]uint64, n)
	copy(w, s.w)
	for i, x := range o.w {
		w[i] |= x
	}
	return LS{w}
}
func (s LS) contains(o LS) bool {
	for i, x := range o.w {
		if x == 0 {
			continue
		}
		if i >= len(s.w) || s.w[i]&x != x {
			return false
		}
	}
	return true
}
func (s LS) minus(o LS) LS {
	if len(s.w) == 0 || len(o.w) == 0 {
		return s
	}
	ch := false
	for i, x := range o.w {
		if i < len(s.w) && s.w[i]&x != 0 {
			ch = true
		}
	}
	if !ch {
		return s
	}
	w := make([]uint64, len(s.w))
	copy(w, s.w)
	for i, x := range o.w {
		if i < len(w) {
			w[i] &^= x
		}
	}
	return LS{w}
}
func (s LS) inter(o LS) LS {
	n := len(s.w)
	if len(o.w) < n {
		n = len(o.w)
	}
	w := make([]uint64, n)
	for i := range w {
		w[i] = s.w[i] & o.w[i]
	}
	return LS{w}
}
func (s LS) empty() bool {
	for _, x := range s.w {
		if x != 0 {
			return false
		}
	}
	return true
}
func (s LS) eq(o LS) bool { return s.contains(o) && o.contains(s) }
func (s LS) each(f func(i int)) {
	for i, x := range s.w {
		for b := 0; x != 0; b++ {
			if x&1 != 0 {
				f(i*64 + b)
			}
			x >>= 1
		}
	}
}

// ---------------------------------------------------------------- objects

type ObjKind uint8

const (
	OSym     ObjKind = iota // memory that existed before the entry point ran
	OAlloc                  // allocated while the entry point runs
	OGlobal                 // package variable
	OBox                    // interface box around a non-pointer value
	OClosure                // function value
)

// Obj is an abstract memory object.
type Obj struct {
	id      int
	kind    ObjKind
	typ     types.Type // type of the content (may be nil: unknown dynamic type)
	root    string     // OSym: root parameter
	path    string     // OSym: access path from the root
	depth   int
	summary bool
	escaped bool
	site    string // human readable allocation site
	region  int    // region in which it was born (0: main)
	fn      *closureInfo
	priv    map[int]bool // regions for which this object is private
	up      *Obj         // OSym: the object this one is reached from
	upPath  string
	ctx     *Ctx // birth context
	old     *Obj // multi: stands for the earlier instances of an allocation made repeatedly
	cells   []uint32
	rep     bool // allocated repeatedly
	pubCell uint32
	instr   ssa.Instruction
}

// canon is the object under which accesses are recorded: the most recent
// instance of a repeated allocation and the earlier ones are one.
func (o *Obj) canon() *Obj {
	if o.old != nil {
		return o.old
	}
	return o
}

func (o *Obj) name() string {
	switch o.kind {
	case OSym:
		return o.root + o.path
	case OGlobal:
		return "global " + o.site
	default:
		return o.site
	}
}

// Addr is a location: an object and a field path inside it.
type Addr struct {
	o *Obj
	p string
}

func (a Addr) less(b Addr) bool {
	if a.o.id != b.o.id {
		return a.o.id < b.o.id
	}
	return a.p < b.p
}

const (
	mayNil = 1
	mayNon = 2
)

// Val is an immutable abstract value.
type Val struct {
	refs []Addr
	ls   LS
	ck   uint8 // 0 bottom, 1 constant, 2 top
	cv   constant.Value
	nl   uint8
	lo   uint8  // integers: 0 unknown, n+2 means >= n (n from -1 to 4)
	ml   uint8  // slices: known minimal length (up to 4)
	id   uint32 // not 0: exactly the initial content of a cell (label + 1)
	agg  map[string]*Val
	tup  []*Val
}

var bottom = &Val{}
var topScalar = &Val{ck: 2}
var nilVal = &Val{nl: mayNil}

func (v *Val) eq(o *Val) bool {
	if v == o {
		return true
	}
	if v == nil || o == nil {
		return false
	}
	if v.ck != o.ck || v.id != o.id || v.nl != o.nl || v.lo != o.lo || v.ml != o.ml || len(v.refs) != len(o.refs) || len(v.agg) != len(o.agg) || len(v.tup) != len(o.tup) {
		return false
	}
	for i := range v.refs {
		if v.refs[i] != o.refs[i] {
			return false
		}
	}
	if v.ck == 1 && !sameConst(v.cv, o.cv) {
		return false
	}
	if !v.ls.eq(o.ls) {
		return false
	}
	for k, x := range v.agg {
		if y, ok := o.agg[k]; !ok || !x.eq(y) {
			return false
		}
	}
	for i := range v.tup {
		if !v.tup[i].eq(o.tup[i]) {
			return false
		}
	}
	return true
}

func sameConst(a, b constant.Value) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Kind() == b.Kind() && a.ExactString() == b.ExactString()
}

func mergeRefs(a, b []Addr) []Addr {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := make([]Addr, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].less(b[j]):
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	return out
}

func join(a, b *Val) *Val {
	if a == b || b == nil || b == bottom {
		return a
	}
	if a == nil || a == bottom {
		return b
	}
	if a.eq(b) {
		return a
	}
	r := &Val{refs: mergeRefs(a.refs, b.refs), ls: a.ls.union(b.ls), nl: a.nl | b.nl, ml: min(a.ml, b.ml)}
	if a.id == b.id {
		r.id = a.id
	}
	switch {
	case a.ck == 0:
		r.ck, r.cv, r.lo = b.ck, b.cv, b.lo
	case b.ck == 0:
		r.ck, r.cv, r.lo = a.ck, a.cv, a.lo
	case a.ck == 1 && b.ck == 1 && sameConst(a.cv, b.cv):
		r.ck, r.cv = 1, a.cv
	default:
		r.ck = 2
		r.lo = a.lower()
		if l := b.lower(); l < r.lo {
			r.lo = l
		}
	}
	if a.agg != nil || b.agg != nil {
		r.agg = map[string]*Val{}
		for k, x := range a.agg {
			r.agg[k] = join(x, b.agg[k])
		}
		for k, y := range b.agg {
			if _, ok := a.agg[k]; !ok {
				r.agg[k] = y
			}
		}
	}
	if a.tup != nil || b.tup != nil {
		n := len(a.tup)
		if len(b.tup) > n {
			n = len(b.tup)
		}
		r.tup = make([]*Val, n)
		for i := range r.tup {
			var x, y *Val = bottom, bottom
			if i < len(a.tup) {
				x = a.tup[i]
			}
			if i < len(b.tup) {
				y = b.tup[i]
			}
			r.tup[i] = join(x, y)
		}
	}
	return r
}

// lower gives the known lower bound of an integer.
func (v *Val) lower() uint8 {
	if v.ck == 1 && v.cv != nil && v.cv.Kind() == constant.Int {
		n, ok := constant.Int64Val(v.cv)
		switch {
		case !ok || n < -1:
			return 0
		case n > 4:
			return 6
		}
		return uint8(n + 2)
	}
	return v.lo
}

func (v *Val) withLo(l uint8) *Val {
	if v.ck != 2 || v.lo == l {
		return v
	}
	c := *v
	c.lo = l
	return &c
}

func (v *Val) withLS(ls LS) *Val {
	if v.ls.contains(ls) {
		return v
	}
	c := *v
	c.ls = v.ls.union(ls)
	if len(c.agg) > 0 {
		c.agg = map[string]*Val{}
		for k, x := range v.agg {
			c.agg[k] = x.withLS(ls)
		}
	}
	return &c
}

func (v *Val) setLS(ls LS) *Val {
	if v.ls.eq(ls) {
		return v
	}
	c := *v
	c.ls = ls
	return &c
}

// allLS is the union of the labels of v and of its components.
func (v *Val) allLS() LS {
	ls := v.ls
	for _, x := range v.agg {
		ls = ls.union(x.allLS())
	}
	for _, x := range v.tup {
		ls = ls.union(x.allLS())
	}
	return ls
}

func (v *Val) allRefs() []Addr {
	r := v.refs
	for _, x := range v.agg {
		r = mergeRefs(r, x.allRefs())
	}
	for _, x := range v.tup {
		r = mergeRefs(r, x.allRefs())
	}
	return r
}

func scalar(ls LS) *Val { return &Val{ck: 2, ls: ls} }
func ref(a ...Addr) *Val {
	sort.Slice(a, func(i, j int) bool { return a[i].less(a[j]) })
	return &Val{refs: a, nl: mayNon}
}
func boolVal(b bool) *Val { return &Val{ck: 1, cv: constant.MakeBool(b)} }

func (v *Val) constBool() (val, ok bool) {
	if v.ck == 1 && v.cv != nil && v.cv.Kind() == constant.Bool {
		return constant.BoolVal(v.cv), true
	}
	return false, false
}

func (v *Val) String() string {
	var sb strings.Builder
	sb.WriteString("{")
	for _, r := range v.refs {
		fmt.Fprintf(&sb, "%s%s#%d ", r.o.name(), r.p, r.o.id)
	}
	if v.ck == 1 {
		sb.WriteString("const " + v.cv.String())
	}
	fmt.Fprintf(&sb, " nl%d", v.nl)
	for k, x := range v.agg {
		fmt.Fprintf(&sb, " %s:%s", k, x)
	}
	sb.WriteString("}")
	return sb.String()
}

// ---------------------------------------------------------------- types

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type leaf struct {
	path string
	typ  types.Type
}

var leafCache sync.Map // types.Type -> []leaf

// leaves flattens struct and array types to their non-aggregate parts.
func leaves(t types.Type) []leaf {
	if l, ok := leafCache.Load(t); ok {
		return l.([]leaf)
	}
	var out []leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.path, l.typ})
			}
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, l.typ})
		}
	default:
		out = []leaf{{"", t}}
	}
	leafCache.Store(t, out)
	return out
}

// splitElems: storage whose elements hold references keeps its first element
// apart from the others ("[0]" and "[+]").
func splitElems(o *Obj, p string) bool {
	if o.kind == OSym || o.typ == nil || !strings.HasPrefix(p, "[]") {
		return false
	}
	return refElem(o.typ)
}

func refElem(t types.Type) bool {
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	default:
		return false
	}
	for _, l := range leaves(et) {
		if isRefType(l.typ) {
			return true
		}
	}
	return false
}

func isRefType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func zeroVal(t types.Type) *Val {
	if isAgg(t) {
		v := &Val{agg: map[string]*Val{}}
		for _, l := range leaves(t) {
			v.agg[l.path] = zeroVal(l.typ)
		}
		return v
	}
	if isRefType(t) {
		return nilVal
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolVal(false)
		case b.Info()&types.IsString != 0:
			return &Val{ck: 1, cv: constant.MakeString("")}
		case b.Info()&types.IsInteger != 0:
			return &Val{ck: 1, cv: constant.MakeInt64(0)}
		case b.Info()&types.IsFloat != 0:
			return &Val{ck: 1, cv: constant.MakeFloat64(0)}
		}
	}
	return topScalar
}

// typeAt returns the type found at a path inside t (nil if unknown).
func typeAt(t types.Type, p string) types.Type {
	for p != "" && t != nil {
		switch {
		case strings.HasPrefix(p, "[]"), strings.HasPrefix(p, "[0]"), strings.HasPrefix(p, "[+]"):
			p = p[strings.IndexByte(p, ']')+1:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return t // element storage objects carry the element type
			}
		case p[0] == '.':
			e := 1
			for e < len(p) && p[e] != '.' && p[e] != '[' {
				e++
			}
			n := p[1:e]
			p = p[e:]
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			t = nil
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					t = st.Field(i).Type()
				}
			}
		default:
			return nil
		}
	}
	return t
}
