package main

// PMap is a persistent big-endian Patricia trie from uint32 to *Val. All
// operations share structure, so equality and joins of nearly identical abstract
// heaps are cheap.
type PMap struct {
	// leaf: left==nil
	key         uint32
	val         *Val
	prefix, bit uint32
	left, right *PMap
}

func (t *PMap) isLeaf() bool { return t.left == nil }

func (t *PMap) get(k uint32) *Val {
	for t != nil {
		if t.isLeaf() {
			if t.key == k {
				return t.val
			}
			return nil
		}
		if mask(k, t.bit) != t.prefix {
			return nil
		}
		if k&t.bit == 0 {
			t = t.left
		} else {
			t = t.right
		}
	}
	return nil
}

func mask(k, bit uint32) uint32 { return k &^ (bit | (bit - 1)) }

func highBit(x uint32) uint32 {
	b := uint32(1) << 31
	for x&b == 0 {
		b >>= 1
	}
	return b
}

func pjoin(p0 uint32, t0 *PMap, p1 uint32, t1 *PMap) *PMap {
	b := highBit(p0 ^ p1)
	if p0&b == 0 {
		return &PMap{prefix: mask(p0, b), bit: b, left: t0, right: t1}
	}
	return &PMap{prefix: mask(p0, b), bit: b, left: t1, right: t0}
}

func (t *PMap) pfx() uint32 {
	if t.isLeaf() {
		return t.key
	}
	return t.prefix
}

func (t *PMap) set(k uint32, v *Val) *PMap {
	if t == nil {
		return &PMap{key: k, val: v}
	}
	if t.isLeaf() {
		if t.key == k {
			if t.val == v || t.val.eq(v) {
				return t
			}
			return &PMap{key: k, val: v}
		}
		return pjoin(k, &PMap{key: k, val: v}, t.key, t)
	}
	if mask(k, t.bit) != t.prefix {
		return pjoin(k, &PMap{key: k, val: v}, t.prefix, t)
	}
	if k&t.bit == 0 {
		l := t.left.set(k, v)
		if l == t.left {
			return t
		}
		return &PMap{prefix: t.prefix, bit: t.bit, left: l, right: t.right}
	}
	r := t.right.set(k, v)
	if r == t.right {
		return t
	}
	return &PMap{prefix: t.prefix, bit: t.bit, left: t.left, right: r}
}

func (t *PMap) del(k uint32) *PMap {
	if t == nil {
		return nil
	}
	if t.isLeaf() {
		if t.key == k {
			return nil
		}
		return t
	}
	if mask(k, t.bit) != t.prefix {
		return t
	}
	if k&t.bit == 0 {
		l := t.left.del(k)
		switch l {
		case t.left:
			return t
		case nil:
			return t.right
		}
		return &PMap{prefix: t.prefix, bit: t.bit, left: l, right: t.right}
	}
	r := t.right.del(k)
	switch r {
	case t.right:
		return t
	case nil:
		return t.left
	}
	return &PMap{prefix: t.prefix, bit: t.bit, left: t.left, right: r}
}

func (t *PMap) each(f func(k uint32, v *Val)) {
	if t == nil {
		return
	}
	if t.isLeaf() {
		f(t.key, t.val)
		return
	}
	t.left.each(f)
	t.right.each(f)
}

// mapOnly rewrites every leaf with f (used for the cells present on one side of
// a join only); f may return the same value.
func (t *PMap) mapOnly(f func(k uint32, v *Val) *Val) *PMap {
	if t == nil {
		return nil
	}
	if t.isLeaf() {
		v := f(t.key, t.val)
		if v == t.val || v.eq(t.val) {
			return t
		}
		return &PMap{key: t.key, val: v}
	}
	l, r := t.left.mapOnly(f), t.right.mapOnly(f)
	if l == t.left && r == t.right {
		return t
	}
	return &PMap{prefix: t.prefix, bit: t.bit, left: l, right: r}
}

// pmerge joins two maps. both combines values present in both; only treats a
// value present on one side only.
func pmerge(a, b *PMap, both func(k uint32, x, y *Val) *Val, only func(k uint32, v *Val) *Val) *PMap {
	if a == b {
		return a
	}
	if a == nil {
		return b.mapOnly(only)
	}
	if b == nil {
		return a.mapOnly(only)
	}
	if a.isLeaf() && b.isLeaf() {
		if a.key == b.key {
			v := both(a.key, a.val, b.val)
			if v == a.val || v.eq(a.val) {
				return a
			}
			if v == b.val || v.eq(b.val) {
				return b
			}
			return &PMap{key: a.key, val: v}
		}
		return pjoin(a.key, a.mapOnly(only), b.key, b.mapOnly(only))
	}
	if a.isLeaf() {
		return pmergeLeaf(b, a, func(k uint32, x, y *Val) *Val { return both(k, y, x) }, only)
	}
	if b.isLeaf() {
		return pmergeLeaf(a, b, both, only)
	}
	switch {
	case a.bit == b.bit && a.prefix == b.prefix:
		l := pmerge(a.left, b.left, both, only)
		r := pmerge(a.right, b.right, both, only)
		if l == a.left && r == a.right {
			return a
		}
		if l == b.left && r == b.right {
			return b
		}
		return &PMap{prefix: a.prefix, bit: a.bit, left: l, right: r}
	case a.bit > b.bit && mask(b.prefix, a.bit) == a.prefix:
		if b.prefix&a.bit == 0 {
			l := pmerge(a.left, b, both, only)
			r := a.right.mapOnly(only)
			if l == a.left && r == a.right {
				return a
			}
			return &PMap{prefix: a.prefix, bit: a.bit, left: l, right: r}
		}
		l := a.left.mapOnly(only)
		r := pmerge(a.right, b, both, only)
		if l == a.left && r == a.right {
			return a
		}
		return &PMap{prefix: a.prefix, bit: a.bit, left: l, right: r}
	case b.bit > a.bit && mask(a.prefix, b.bit) == b.prefix:
		if a.prefix&b.bit == 0 {
			return &PMap{prefix: b.prefix, bit: b.bit, left: pmerge(a, b.left, both, only), right: b.right.mapOnly(only)}
		}
		return &PMap{prefix: b.prefix, bit: b.bit, left: b.left.mapOnly(only), right: pmerge(a, b.right, both, only)}
	default:
		return pjoin(a.prefix, a.mapOnly(only), b.prefix, b.mapOnly(only))
	}
}

// t is a branch, l a leaf. both receives (t's value, l's value).
func pmergeLeaf(t, l *PMap, both func(k uint32, x, y *Val) *Val, only func(k uint32, v *Val) *Val) *PMap {
	if t.isLeaf() {
		return pmerge(t, l, both, only)
	}
	if mask(l.key, t.bit) != t.prefix {
		return pjoin(l.key, l.mapOnly(only), t.prefix, t.mapOnly(only))
	}
	var a, b *PMap
	if l.key&t.bit == 0 {
		if t.left.isLeaf() {
			a = pmerge(t.left, l, both, only)
		} else {
			a = pmergeLeaf(t.left, l, both, only)
		}
		b = t.right.mapOnly(only)
	} else {
		a = t.left.mapOnly(only)
		if t.right.isLeaf() {
			b = pmerge(t.right, l, both, only)
		} else {
			b = pmergeLeaf(t.right, l, both, only)
		}
	}
	if a == t.left && b == t.right {
		return t
	}
	return &PMap{prefix: t.prefix, bit: t.bit, left: a, right: b}
}

func peq(a, b *PMap) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.isLeaf() != b.isLeaf() {
		return false
	}
	if a.isLeaf() {
		return a.key == b.key && a.val.eq(b.val)
	}
	return a.bit == b.bit && a.prefix == b.prefix && peq(a.left, b.left) && peq(a.right, b.right)
}
