package main

import (
	"fmt"
	"go/types"
	"strings"
)

// outParam: a parameter in which an inference method delivers its result.
func outParam(e *Entry, p *types.Var) (out, iface bool) {
	n := strings.ToLower(p.Name())
	if !strings.HasPrefix(n, "y") {
		return false, false
	}
	if _, mut := isMatrixIface(p.Type()); mut {
		return true, true
	}
	return shortType(p.Type()) == "*mat.Dense", false
}

var inferenceOut = map[string]bool{"Predict": true, "PredictProba": true, "PredictProbas": true, "PredictLogProba": true, "PredictLogProbas": true,
	"PredictEx": true, "Predict2": true, "DecisionFunction": true}

// propOutput: inference delivers its result in the caller's matrix.
func propOutput(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"delivered: on every returning path all that the caller's matrix held before has been replaced by results",
		"own-result: nothing delivered or returned is computed from what the caller's matrix held before",
		"same-result: the returned matrix is the caller's, or is not changed after it was copied there",
		"made: without a matrix of the caller's, or with an empty one, the result is in a new one (the empty one is filled)",
	}
	dense := w.extType("gonum.org/v1/gonum/mat", "Dense")
	parallel(w.entries(), func(e *Entry) {
		if e.recv == nil || !inferenceOut[e.meth] {
			return
		}
		sig := e.fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			out, iface := outParam(e, sig.Params().At(i))
			if !out {
				continue
			}
			kinds := []string{"sized"}
			if iface {
				kinds = []string{"sized", "other"}
				if sig.Results().Len() > 0 && shortType(sig.Results().At(0).Type()) == "*mat.Dense" {
					kinds = []string{"sized", "other", "empty", "nil"}
				}
				if !types.Implements(types.NewPointer(dense), sig.Params().At(i).Type().Underlying().(*types.Interface)) {
					kinds = []string{"other"}
				}
			}
			for _, k := range kinds {
				r.ob(1)
				r.unit("output scenarios", 1)
				r.output(w, e, i, k, dense)
			}
		}
	})
	return r
}

func (r *Result) output(w *World, e *Entry, out int, kind string, dense types.Type) {
	s := newScen(w)
	a := s.a
	a.once, a.outRoot = true, "out_"
	s.assumptions()
	s.inits()
	var args []*Val
	rv, _ := s.receiver(e.recv)
	args = append(args, rv)
	sig := e.fn.Signature
	var yo *Obj
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if i != out {
			v := s.param("in_"+paramName(p, i), p.Type())
			if isRefType(p.Type()) {
				n := *v
				n.nl = mayNon
				v = &n
			}
			args = append(args, v)
			continue
		}
		switch kind {
		case "nil":
			args = append(args, zeroVal(p.Type()))
		case "other":
			yo = a.sym("out_Y", nil)
			a.outObj = yo
			args = append(args, ref(Addr{yo, ""}))
		default:
			yo = a.sym("out_Y", dense)
			a.outObj = yo
			args = append(args, ref(Addr{yo, ""}))
		}
	}
	a.assumeOK = func(o *Obj, t types.Type) int {
		if o == yo {
			if it, ok := t.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					if strings.HasPrefix(it.Method(i).Name(), "Raw") {
						return 2
					}
				}
				return 1
			}
			return 2
		}
		return 0
	}
	a.emptyMat = func(o *Obj) int {
		if o == yo && kind != "empty" {
			return 2
		}
		return 0
	}
	if kind == "empty" {
		prev := a.assume
		a.assume = func(o *Obj, p string, t types.Type) *Val {
			if o == yo {
				return zeroVal(t)
			}
			return prev(o, p, t)
		}
	}
	res, ok := s.run("e", e.fn, args)
	r.absorb(a, e.name)
	key := e.name + ":" + kind
	add := func(rule, f string, x ...any) {
		r.add(&Finding{Rule: rule, Key: key, Pos: w.pos(e.fn.Pos()), Msg: fmt.Sprintf(f, x...)})
	}
	what := map[string]string{"sized": "dense output matrix", "other": "output matrix that is not dense", "empty": "empty output matrix", "nil": "nil output matrix"}[kind]
	if !ok {
		if kind == "nil" || kind == "empty" {
			add("made", "%s never returns for a %s", e.name, what)
		}
		return // with a matrix to fill it panics by design
	}
	if a.undecided {
		r.unit("scenarios left to a type that sets the function called", 1)
		return
	}
	a.noEvents = true
	c := &callCtx{a: a, st: s.st, ctx: s.top}
	old := a.initLabels("out_")
	content := func(v *Val) (ls LS) {
		for _, x := range v.refs {
			ls = ls.union(a.get(s.st, x.o, x.p+"[]", f64()).ls)
		}
		return
	}
	var data *Val = bottom
	if yo != nil {
		data = c.dataAt(Addr{yo, ""})
		if !content(data).inter(old).empty() {
			add("delivered", "for a %s, %s may leave (part of) what it held before", what, e.name)
		}
		if kind == "empty" && (data.nl&mayNil != 0 || len(data.refs) == 0) {
			add("made", "%s may leave an %s empty", e.name, what)
		}
	}
	if sig.Results().Len() > 0 && shortType(sig.Results().At(0).Type()) == "*mat.Dense" {
		rv := res
		if len(res.tup) > 0 {
			rv = res.tup[0]
		}
		if rv.nl&mayNil != 0 {
			add("made", "for a %s, %s may return nil", what, e.name)
		}
		d := c.dataOf(rv)
		if !content(d).inter(old).empty() {
			add("own-result", "for a %s, what %s returns may depend on what the matrix held before", what, e.name)
		}
		if yo != nil {
			since := a.get2(s.st, yo, "$since", sliceF64)
			for _, x := range d.refs {
				if !sharesRef(&Val{refs: []Addr{x}}, data) && sharesRef(&Val{refs: []Addr{{x.o, ""}}}, since) {
					add("same-result", "for a %s, what %s returns (%s) may be changed after the caller's matrix is filled", what, e.name, x.o.name())
				}
			}
		}
	}
}
