package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violation of a rule at a construct.
type Finding struct {
	Rule string   `json:"rule"`
	Key  string   `json:"key"` // stable identity: what, not where
	Pos  string   `json:"pos"`
	Msg  string   `json:"msg"`
	Path []string `json:"path,omitempty"`
}

// Result is what a property's analysis produced.
type Result struct {
	mu          sync.Mutex
	Findings    map[string]*Finding
	Obligations int            // rule instances examined
	Units       map[string]int // what was analysed
	Rules       []string
	Notes       []string
	Broken      []string // reasons the analysis cannot vouch for its result
	Funcs       map[string]bool
}

func newResult() *Result {
	return &Result{Findings: map[string]*Finding{}, Units: map[string]int{}, Funcs: map[string]bool{}}
}

func (r *Result) add(f *Finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if old, ok := r.Findings[f.Rule+"|"+f.Key]; ok && old.Pos <= f.Pos {
		return
	}
	r.Findings[f.Rule+"|"+f.Key] = f
}
func (r *Result) ob(n int) {
	r.mu.Lock()
	r.Obligations += n
	r.mu.Unlock()
}
func (r *Result) unit(k string, n int) {
	r.mu.Lock()
	r.Units[k] += n
	r.mu.Unlock()
}
func (r *Result) broken(s string) {
	r.mu.Lock()
	r.Broken = append(r.Broken, s)
	r.mu.Unlock()
}

// absorb records what a finished scenario visited.
func (r *Result) absorb(a *An, name string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for f := range a.visited {
		r.Funcs[f.RelString(nil)] = true
	}
	r.Units["abstract steps"] += a.steps
	if a.exceeded {
		r.Broken = append(r.Broken, "analysis budget exceeded in "+name)
	}
}

var (
	panicMu   sync.Mutex
	jobPanics []string
)

func label(x any) string {
	switch v := x.(type) {
	case *Entry:
		return v.name
	case cloneCase:
		return v.name
	case fitCase:
		return v.name
	}
	return fmt.Sprintf("%T", x)
}

// parallel runs jobs on all cores.
func parallel[T any](items []T, f func(T)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, it := range items {
		it := it
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() {
				if x := recover(); x != nil {
					panicMu.Lock()
					jobPanics = append(jobPanics, fmt.Sprintf("analysis of %s failed: %v\n%s", label(it), x, debug.Stack()))
					panicMu.Unlock()
				}
				<-sem
				wg.Done()
			}()
			f(it)
		}()
	}
	wg.Wait()
}

// path renders the call chain of a context, outermost first.
func (w *World) path(c *Ctx, in ssa.Instruction) []string {
	var out []string
	if in != nil {
		out = append(out, fmt.Sprintf("%s (%s)", w.posOf(in), in.Parent().RelString(nil)))
	}
	for ; c != nil; c = c.parent {
		if c.site != nil {
			out = append(out, fmt.Sprintf("called at %s", w.posOf(c.site)))
		}
	}
	return out
}

// isMatrixIface: an interface through which a matrix can be read but not written.
func isMatrixIface(t types.Type) (matrix, mutable bool) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false, false
	}
	at, set := false, false
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "At", "AtVec":
			at = true
		case "Set", "SetVec":
			set = true
		}
	}
	return at, at && set
}

func isDensePtr(t types.Type) bool {
	s := shortType(t)
	return s == "*mat.Dense" || s == "*mat.VecDense" || s == "*mat.SymDense"
}

// std assumptions of all runs.
func (s *Scen) assumptions() {
	a := s.a
	a.assume = func(o *Obj, p string, t types.Type) *Val {
		f := lastField(o.path + p)
		switch f {
		case "NLayers":
			if isIntType(t) {
				return scalar(a.label(LInit, 0, o.root+o.path+p)).withLo(4)
			}
		case "WarmStart":
			if s.cold {
				return boolVal(false)
			}
		}
		return nil
	}
}

func lastField(p string) string {
	if i := strings.LastIndexByte(p, '.'); i >= 0 {
		return p[i+1:]
	}
	return p
}

func sortedFindings(m map[string]*Finding) []*Finding {
	var out []*Finding
	for _, f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Key != out[j].Key {
			return out[i].Key < out[j].Key
		}
		return out[i].Rule < out[j].Rule
	})
	return out
}

// topField is the first field below a root, e.g. ".Coef" of ".Coef.mat.Data[]".
func topField(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '.' {
		return ""
	}
	e := 1
	for e < len(p) && p[e] != '.' && p[e] != '[' && p[e] != '$' {
		e++
	}
	return p[1:e]
}

// ---------------------------------------------------------------- inputs

// inputParam decides whether a parameter is read-only input data.
func (w *World) inputParam(e *Entry, v *types.Var) bool {
	t := v.Type()
	if m, mut := isMatrixIface(t); m {
		return !mut
	}
	if isDensePtr(t) {
		switch e.meth {
		case "InverseTransform", "Transform", "Fit", "FitTransform", "PartialFit", "Score":
			return true
		}
	}
	obj := e.fn.Object()
	if obj == nil || !w.isRepo[obj.Pkg()] {
		return false
	}
	name := strings.ToLower(v.Name())
	switch shortType(t) {
	case "[]float64", "[]float32", "[]int", "*[]float64", "*[]float32", "*[]int":
		// a slice is data to read unless its name says that it receives results
		for _, p := range []string{"dst", "out", "res", "buf", "work", "tmp", "grad"} {
			if strings.HasPrefix(name, p) {
				return false
			}
		}
		return true
	}
	if isDensePtr(t) {
		switch pkgShort(obj.Pkg()) {
		case "metrics", "model_selection":
			return true
		}
		if e.fn.Signature.Results().Len() == 0 {
			return false // works in place
		}
		switch name {
		case "x", "sampleweight", "ytrue", "theta", "lastmean", "lastvariance":
			return true
		case "y":
			return !strings.HasPrefix(e.meth, "Predict")
		}
	}
	if shortType(t) == "*mat.VecDense" && name == "sampleweight" {
		return true
	}
	return false
}

func propInputs(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{"no-write-to-input: on no path does an exported function store into memory reachable from a read-only matrix argument"}
	parallel(w.entries(), func(e *Entry) {
		sig := e.fn.Signature
		roots := map[string]bool{}
		for i := 0; i < sig.Params().Len(); i++ {
			if w.inputParam(e, sig.Params().At(i)) {
				roots[paramName(sig.Params().At(i), i)] = true
			}
		}
		// of settings given in a structure, the arrays and matrices they hold are inputs
		held := map[string]bool{}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if q, ok := t.Underlying().(*types.Pointer); ok {
				t = q.Elem()
			}
			if n, ok := t.(*types.Named); ok && w.isRepo[n.Obj().Pkg()] && (strings.HasSuffix(n.Obj().Name(), "Config") || strings.HasSuffix(n.Obj().Name(), "Options")) {
				held[paramName(sig.Params().At(i), i)] = true
			}
		}
		if len(roots)+len(held) == 0 {
			return
		}
		r.ob(len(roots) + len(held))
		r.unit("entry points", 1)
		r.unit("input parameters", len(roots)+len(held))
		r.caseSplit(e.configRoots(), func(r *Result, mode map[string]*Val) {
			s := newScen(w)
			s.assumptions()
			s.inMode(mode)
			s.inits()
			s.a.onWrite = append(s.a.onWrite, func(x *Access) {
				r.unit("stores examined", 1)
				if x.o.kind == OSym && (roots[x.o.root] || held[x.o.root] && x.o.name() != x.o.root && !strings.HasSuffix(x.p, "$state")) {
					op := x.how
					if op == "" {
						op = "store"
					}
					r.add(&Finding{Rule: "no-write-to-input", Key: e.name + ":" + x.o.root, Pos: w.posOf(x.instr),
						Msg: fmt.Sprintf("%s may modify its input %s (%s%s written by %s)", e.name, x.o.root, x.o.name(), x.p, op), Path: w.path(x.ctx, x.instr)})
				}
			})
			s.runAll(e)
			r.absorb(s.a, e.name)
		})
	})
	return r
}

// runAll runs an operation, and then what it returns if that is a function.
// later is called in between.
func (s *Scen) runAll(e *Entry, later ...func()) {
	v, ok := s.run("e", e.fn, s.args(e))
	res := e.fn.Signature.Results()
	for i := 0; ok && i < res.Len(); i++ {
		t := res.At(i).Type()
		if _, fn := t.Underlying().(*types.Signature); !fn {
			continue
		}
		f := v
		if res.Len() > 1 {
			f = v.tup[i]
		}
		for _, l := range later {
			l()
		}
		c := &callCtx{a: s.a, st: s.st, ctx: s.top}
		c.callClosure(f, t, fmt.Sprintf("later%d", i), LS{}, nil)
		s.st = c.st
	}
}

// caseSplit runs an analysis once for all configurations of the receiver and of
// the structs passed by pointer. If it finds something, it decides again for
// every combination of their settings and keeps what remains; together the cases
// cover everything.
func (r *Result) caseSplit(roots map[string]types.Type, run func(*Result, map[string]*Val)) {
	first := newResult()
	run(first, nil)
	parts := []*Result{first}
	if len(first.Findings) > 0 && len(roots) > 0 {
		if cs := configCases(roots); len(cs) > 1 {
			first.Findings = map[string]*Finding{}
			for _, m := range cs {
				p := newResult()
				run(p, m)
				parts = append(parts, p)
			}
			r.unit("configuration cases", len(cs))
		}
	}
	for _, p := range parts {
		for _, f := range p.Findings {
			r.add(f)
		}
		r.mu.Lock()
		for f := range p.Funcs {
			r.Funcs[f] = true
		}
		for k, n := range p.Units {
			r.Units[k] += n
		}
		r.Broken = append(r.Broken, p.Broken...)
		r.Obligations += p.Obligations
		r.mu.Unlock()
	}
}

// configRoots are the structs that configure an entry point.
func (e *Entry) configRoots() map[string]types.Type {
	out := map[string]types.Type{}
	if e.recv != nil {
		out["recv"] = e.recv
	}
	sig := e.fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if q, ok := p.Type().Underlying().(*types.Pointer); ok {
			if n, ok := q.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				out[paramName(p, i)] = p.Type()
			}
		}
	}
	return out
}

var (
	isSet   = &Val{nl: mayNon}
	isUnset = &Val{nl: mayNil}
)

// configCases enumerates the settings that select between behaviours: every
// combination of boolean fields, whether a random source is set and, for the
// perceptrons, the solver.
func configCases(roots map[string]types.Type) []map[string]*Val {
	out := []map[string]*Val{{}}
	for _, root := range sortedKeys(roots) {
		t := roots[root]
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			continue
		}
		base := out
		if root != "recv" {
			out = crossModes(out, root, isSet)
		}
		if n, ok := t.(*types.Named); ok {
			for f, vs := range modeFields(n) {
				out = crossModes(out, root+f, vs...)
			}
		}
		nb := 0
		for _, l := range leaves(t) {
			k, f := root+l.path, lastField(l.path)
			if _, ok := out[0][k]; ok {
				continue
			}
			if b, ok := l.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && f != "WarmStart" && f != "Verbose" && nb < 6 {
				nb++
				out = crossModes(out, k, boolVal(false), boolVal(true))
			}
			if types.IsInterface(l.typ) && f == "RandomState" {
				out = crossModes(out, k, isUnset, isSet)
			}
		}
		if root != "recv" {
			out = append(out, crossModes(base, root, isUnset)...)
		}
	}
	return out
}

func crossModes(in []map[string]*Val, k string, vs ...*Val) []map[string]*Val {
	var out []map[string]*Val
	for _, m := range in {
		for _, v := range vs {
			n := map[string]*Val{k: v}
			for a, b := range m {
				n[a] = b
			}
			out = append(out, n)
		}
	}
	return out
}

// fieldKey names the field of a model a path leads to, looking through embedded structs.
func fieldKey(recv types.Type, p string) string {
	t := recv
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	for {
		f := topField(p)
		st, ok := t.Underlying().(*types.Struct)
		if f == "" || !ok {
			return f
		}
		next := types.Type(nil)
		for i := 0; i < st.NumFields(); i++ {
			if x := st.Field(i); x.Name() == f && x.Embedded() {
				if _, ok := x.Type().Underlying().(*types.Struct); ok {
					next = x.Type()
				}
			}
		}
		rest := p[1+len(f):]
		if next == nil || len(rest) < 2 || rest[0] != '.' {
			return f
		}
		t, p = next, rest
	}
}

// ---------------------------------------------------------------- inference

var inferMethods = map[string]bool{"Predict": true, "PredictProba": true, "PredictProbas": true, "PredictLogProbas": true, "Predict2": true, "PredictEx": true,
	"DecisionFunction": true, "Score": true, "Transform": true, "InverseTransform": true, "KNeighbors": true, "KNeighborsGraph": true, "RadiusNeighbors": true,
	"Query": true, "Eval": true, "Diag": true, "GetNOutputs": true, "IsClassifier": true, "GetNSplits": true, "String": true, "At": true, "Dims": true, "T": true,
	"Len": true, "Less": true, "IsLeaf": true, "Distance": true, "AtVec": true, "Theta": true, "Bounds": true, "IsStationary": true, "ScoreVec": true, "Complexity": true,
	"PredicterClone": true, "TransformerClone": true, "SplitterClone": true, "SourceClone": true, "CloneWithTheta": true, "Marshal": true, "MarshalJSON": true, "GetParams": true,
	"LogMarginalLikelihood": true, "MinDistanceRectangle": true, "MinDistancePoint": true, "MaxDistanceRectangle": true, "MaxDistancePoint": true, "Volume": true,
	"RawRowView": true, "RawMatrix": true, "RowSlice": true, "Slice": true, "Std": true, "Var": true, "Strides": true, "Shape": true, "Dtype": true,
	"IsAnisotropic": true, "GetXY": true, "GetTimeStep": true, "GetTheta": true, "Transform2": true, "Func": true}

func propInference(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{"no-write-to-model: on no path does an inference, scoring, cloning or accessor method store into memory reachable from its receiver or into package state"}
	parallel(w.entries(), func(e *Entry) {
		if e.recv == nil && !w.plain(e) || e.recv != nil && !inferMethods[e.meth] {
			return
		}
		r.ob(1)
		r.unit("entry points", 1)
		r.caseSplit(e.configRoots(), func(r *Result, mode map[string]*Val) {
			s := newScen(w)
			s.assumptions()
			s.inMode(mode)
			s.inits()
			made := 0
			s.a.onWrite = append(s.a.onWrite, func(x *Access) {
				r.unit("stores examined", 1)
				if x.o.kind == OGlobal || x.o.kind == OSym && strings.HasPrefix(x.o.root, "global:") {
					r.add(&Finding{Rule: "no-write-to-model", Key: e.name + ":" + x.o.name(), Pos: w.posOf(x.instr),
						Msg: fmt.Sprintf("%s modifies package state %s%s", e.name, x.o.name(), x.p), Path: w.path(x.ctx, x.instr)})
					return
				}
				if x.o.kind != OSym && x.o.id <= made {
					r.add(&Finding{Rule: "no-write-to-model", Key: e.name + ":" + x.o.name(), Pos: w.posOf(x.instr),
						Msg: fmt.Sprintf("the function returned by %s modifies %s%s, which it keeps", e.name, x.o.name(), x.p), Path: w.path(x.ctx, x.instr)})
				}
				if x.o.kind != OSym || x.o.root != "recv" {
					return
				}
				f := topField(x.o.path + x.p)
				r.add(&Finding{Rule: "no-write-to-model", Key: e.name + ":" + f, Pos: w.posOf(x.instr),
					Msg: fmt.Sprintf("%s may modify its receiver (%s%s)", e.name, x.o.name(), x.p), Path: w.path(x.ctx, x.instr)})
			})
			s.runAll(e, func() { made = len(s.a.objs) })
			r.absorb(s.a, e.name)
		})
	})
	return r
}

// plain: an exported function that computes something from its arguments.
func (w *World) plain(e *Entry) bool {
	if e.fn.Object() == nil || e.fn.Signature.Results().Len() == 0 || strings.HasPrefix(e.meth, "New") {
		return false
	}
	return pkgShort(e.fn.Object().Pkg()) != "datasets"
}
