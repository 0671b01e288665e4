package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// propEval: scores compare a model's own predictions with the targets, and the
// targets and the held-out rows reach nothing but that comparison.
func propEval(w *World, tier string) *Result {
	r := newResult()
	r.Rules = []string{
		"own-predictions: Score predicts from the X it is given, with the model it is called on; the targets reach neither the data predicted from nor the predictions",
		"order: whatever compares true and predicted targets gets the true ones as true and the predicted ones as predicted",
		"no-leak: the X a transformation returns does not depend on the Y passed along with it",
		"steps: a model that delegates hands its steps X as data and Y as targets",
		"folds: in cross-validation models are fitted on rows of X and Y picked by training indices only, and judged on rows of X and Y picked by test indices only",
		"own-clone: cross-validation fits clones, never the estimator it was given (whose settings it leaves alone), and judges what it fitted",
	}
	parallel(w.entries(), func(e *Entry) {
		sig := e.fn.Signature
		switch {
		case e.recv != nil && e.meth == "Score" && matParams(sig) == 2:
			r.score(w, e)
		case e.recv != nil && e.meth == "Transform" && matParams(sig) == 2 && sig.Results().Len() == 2:
			r.leak(w, e)
		case e.recv != nil && (e.meth == "Fit" || e.meth == "PartialFit" || e.meth == "FitTransform") && matParams(sig) == 2:
			r.steps(w, e)
			if e.meth == "FitTransform" && sig.Results().Len() == 2 {
				r.leak(w, e)
			}
		case e.recv != nil && predicting[e.meth] && matParams(sig) >= 1:
			s, args := evalScen(w, e)
			done := r.chained(w, s.a, e)
			s.run("e", e.fn, args)
			r.absorb(s.a, e.name)
			done()
		}
		if matParams(sig) >= 2 && (e.recv == nil || e.meth == "Fit") && w.splits(e) {
			r.folds(w, e)
		}
	})
	return r
}

// matParams: the number of leading matrix parameters (data, then targets), wherever
// the first of them is.
func matParams(sig *types.Signature) int {
	n := 0
	for i := 0; i < sig.Params().Len(); i++ {
		if isMatParam(sig.Params().At(i).Type()) {
			n++
		}
	}
	return n
}

func isMatParam(t types.Type) bool {
	_, m := isMatrixIface(t)
	s := shortType(t)
	return m || s == "mat.Matrix" || s == "*mat.Dense"
}

// splits: the operation takes or holds a splitter.
func (w *World) splits(e *Entry) bool {
	is := func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "Split" {
				return true
			}
		}
		return false
	}
	for i := 0; i < e.fn.Signature.Params().Len(); i++ {
		if is(e.fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	if e.recv != nil {
		t := e.recv
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if is(st.Field(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// elems keeps the labels that stand for elements of an argument.
func (a *An) elems(ls LS, root string) LS {
	var out LS
	ls.inter(a.lt.kindMask[LInit]).each(func(i int) {
		n := a.lt.list[i].name
		if strings.HasPrefix(n, root) && !header(n) && strings.Contains(n, "[") {
			out = out.with(i)
		}
	})
	return out
}

// evalScen builds a scenario in which the first matrix is in_X and the second in_Y.
func evalScen(w *World, e *Entry) (*Scen, []*Val) {
	s := newScen(w)
	a := s.a
	a.windows, a.outRoot = true, "in_Y"
	s.assumptions()
	s.inits()
	var args []*Val
	if e.recv != nil {
		rv, _ := s.receiver(e.recv)
		args = append(args, rv)
	}
	ps := e.fn.Signature.Params()
	n := 0
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		name := "par_" + paramName(ps.At(i), i)
		if isMatParam(t) && n < 2 {
			name = []string{"in_X", "in_Y"}[n]
			n++
		}
		v := s.param(name, t)
		if isRefType(t) {
			x := *v
			x.nl = mayNon
			v = &x
		}
		args = append(args, v)
	}
	return s, args
}

// held: what the storage of a matrix argument holds.
func (a *An) held(st *State, ctx *Ctx, v *Val) LS {
	sv := a.noEvents
	a.noEvents = true
	c := &callCtx{a: a, st: st, ctx: ctx}
	ls := c.contentLS(v)
	for _, q := range c.dataOf(v).refs {
		ls = ls.union(a.get(st, q.o, q.p+"[]", f64()).ls)
	}
	a.noEvents = sv
	return ls
}

// roles judges the two matrices a step is given.
func (r *Result) roles(w *World, a *An, e *Entry, rule string, x *CallEvent) {
	if len(x.args) < 2 {
		return
	}
	r.unit("steps' arguments judged", 2)
	X, Y := a.held(x.st, x.ctx, x.args[0]), a.held(x.st, x.ctx, x.args[1])
	what := strings.TrimPrefix(x.name, "invoke ")
	add := func(f string, v ...any) {
		r.add(&Finding{Rule: rule, Key: e.name + ":" + what, Pos: w.posOf(x.instr), Msg: fmt.Sprintf(f, v...), Path: w.path(x.ctx, x.instr)})
	}
	if !a.elems(X, "in_Y").empty() {
		add("the data handed to %s here depends on the targets given to %s", what, e.name)
	}
	if !a.elems(Y, "in_X").empty() && a.elems(Y, "in_Y").empty() {
		add("%s is handed the data of %s as its targets", what, e.name)
	}
}

// chained: in an operation that has steps transform data, what they return reaches
// the steps that are fitted, predict or score.
func (r *Result) chained(w *World, a *An, e *Entry) (check func()) {
	var from *CallEvent
	used, got := map[string]*CallEvent{}, map[string]bool{}
	a.onCall = append(a.onCall, func(x *CallEvent) {
		n := strings.TrimPrefix(x.name, "invoke ")
		switch {
		case n == x.name || len(x.args) == 0:
		case (n == "Transform" || n == "FitTransform") && len(x.args) == 2:
			from = x
		case n == "Fit" || n == "Score" || predicting[n]:
			used[n] = x
			if !a.held(x.st, x.ctx, x.args[0]).inter(a.mark("TRANSFORMED")).empty() {
				got[n] = true
			}
		}
	})
	return func() {
		if from == nil {
			return
		}
		for _, n := range sortedKeys(used) {
			r.unit("chains of steps", 1)
			if x := used[n]; !got[n] {
				r.add(&Finding{Rule: "steps", Key: e.name + ":chain:" + n, Pos: w.posOf(x.instr), Msg: fmt.Sprintf("in %s what the steps' Transform returns never reaches the data handed to %s", e.name, n), Path: w.path(x.ctx, x.instr)})
			}
		}
	}
}

func (r *Result) steps(w *World, e *Entry) {
	s, args := evalScen(w, e)
	a := s.a
	n := 0
	defer r.chained(w, a, e)()
	a.onCall = append(a.onCall, func(x *CallEvent) {
		switch x.name {
		case "invoke Fit", "invoke PartialFit", "invoke FitTransform", "invoke Transform":
			n++
			r.roles(w, a, e, "steps", x)
		}
	})
	s.run("e", e.fn, args)
	r.absorb(a, e.name)
	if n > 0 {
		r.ob(1)
		r.unit("delegating operations", 1)
	}
}

func (r *Result) leak(w *World, e *Entry) {
	r.ob(1)
	r.unit("transformations", 1)
	s, args := evalScen(w, e)
	a := s.a
	user := false // it is the user's own function that sees the targets
	a.onCall = append(a.onCall, func(x *CallEvent) {
		if x.name == "opaque-func" {
			for _, v := range x.args {
				user = user || !a.elems(a.held(x.st, x.ctx, v), "in_Y").empty()
			}
		}
	})
	s.cold = true
	if f := w.findMethod(e.recv, "Fit"); f != nil && f.Signature.Params().Len() == 2 {
		if _, ok := s.run("f", f, args); !ok {
			return
		}
	}
	res, ok := s.run("e", e.fn, args)
	r.absorb(a, e.name)
	if !ok || user || len(res.tup) != 2 {
		return
	}
	X := a.held(s.st, s.top, res.tup[0])
	if !a.elems(X, "in_Y").empty() {
		r.add(&Finding{Rule: "no-leak", Key: e.name, Pos: w.pos(e.fn.Pos()), Msg: fmt.Sprintf("the X that %s returns depends on the Y passed along (to it or to Fit)", e.name)})
	}
}

var predicting = map[string]bool{"Predict": true, "PredictProba": true, "PredictProbas": true, "PredictLogProbas": true, "PredictEx": true, "DecisionFunction": true, "predict": true}

func (r *Result) score(w *World, e *Entry) {
	r.ob(1)
	r.unit("scores", 1)
	s, args := evalScen(w, e)
	a := s.a
	predicted, compared := false, false
	defer r.chained(w, a, e)()
	at := func(c *callCtx, rule, key, f string, v ...any) {
		r.add(&Finding{Rule: rule, Key: e.name + ":" + key, Pos: w.posOf(c.instr), Msg: fmt.Sprintf(f, v...), Path: w.path(c.ctx, c.instr)})
	}
	a.onCall = append(a.onCall, func(x *CallEvent) {
		n := strings.TrimPrefix(x.name, "invoke ")
		if n == x.name {
			return
		}
		if n == "Score" || n == "Transform" {
			r.roles(w, a, e, "steps", x)
			if n == "Score" && len(x.args) == 2 {
				predicted = predicted || !a.elems(a.held(x.st, x.ctx, x.args[0]), "in_X").empty()
				compared = compared || !a.elems(a.held(x.st, x.ctx, x.args[1]), "in_Y").empty()
			}
		}
		if predicting[n] && len(x.args) > 0 {
			X := a.held(x.st, x.ctx, x.args[0])
			predicted = predicted || !a.elems(X, "in_X").empty()
		}
	})
	a.onFn = func(c *callCtx, f *ssa.Function, args []*Val) {
		ps := f.Signature.Params()
		off := 0
		if f.Signature.Recv() != nil {
			off = 1
		}
		if off+ps.Len() != len(args) {
			return
		}
		if predicting[f.Name()] && off == 1 && ps.Len() > 0 {
			X := a.held(c.st, c.ctx, args[1])
			if !a.elems(X, "in_Y").empty() {
				at(c, "own-predictions", "targets", "%s predicts from the targets it is given", e.name)
			}
			for _, q := range args[0].refs {
				if q.o.kind == OSym && q.o.root == "recv" {
					predicted = predicted || !a.elems(X, "in_X").empty()
				}
			}
		}
		var lss []LS
		n := 0
		for i := 0; i < ps.Len() && n < 2; i++ {
			if t := ps.At(i).Type(); isRefType(t) || isAgg(t) {
				lss = append(lss, a.held(c.st, c.ctx, args[off+i]))
				n++
			}
		}
		// a comparison: one argument holds the targets, another what does not come from them
		for i := 0; i < ps.Len(); i++ {
			n := strings.ToLower(ps.At(i).Name())
			if n != "ytrue" && n != "ypred" {
				continue
			}
			r.unit("arguments of metrics judged", 1)
			ls := a.held(c.st, c.ctx, args[off+i])
			y := !a.elems(ls, "in_Y").empty()
			if n == "ypred" && y {
				at(c, "order", "ypred", "%s hands %s the targets (or predictions made from them) as the predictions", e.name, f.Name())
			}
			if n == "ytrue" && !y {
				at(c, "order", "ytrue", "what %s hands %s as the true targets does not come from the targets it is given", e.name, f.Name())
			}
			if n == "ytrue" && !a.elems(ls, "in_X").empty() {
				at(c, "order", "ytrue", "what %s hands %s as the true targets depends on the data", e.name, f.Name())
			}
		}
		if len(lss) == 2 && !predicting[f.Name()] {
			y0, y1 := !a.elems(lss[0], "in_Y").empty(), !a.elems(lss[1], "in_Y").empty()
			compared = compared || y0 != y1
		}
	}
	res, ok := s.run("e", e.fn, args)
	r.absorb(a, e.name)
	if !ok {
		r.broken(e.name + " never returns")
		return
	}
	if strings.HasPrefix(e.name, "cluster.") {
		return // clusterers have no targets to compare with
	}
	if !predicted && a.elems(res.ls, "in_X").empty() {
		r.add(&Finding{Rule: "own-predictions", Key: e.name + ":data", Pos: w.pos(e.fn.Pos()), Msg: fmt.Sprintf("%s does not predict from the data it is given", e.name)})
	}
	if !compared && a.elems(res.ls, "in_Y").empty() {
		r.add(&Finding{Rule: "own-predictions", Key: e.name + ":compare", Pos: w.pos(e.fn.Pos()), Msg: fmt.Sprintf("%s compares nothing with the targets it is given", e.name)})
	}
}

func (r *Result) folds(w *World, e *Entry) {
	r.ob(1)
	r.unit("cross-validations", 1)
	s, args := evalScen(w, e)
	a := s.a
	fitted := map[*Obj]bool{}
	type use struct {
		x   *CallEvent
		who *Val
	}
	var judged []use
	train, test, pred := a.mark("TRAIN"), a.mark("TEST"), a.mark("PRED")
	isEst := func(o *Obj) bool { return o.kind == OSym && !strings.HasPrefix(o.root, "fresh:") }
	a.onCall = append(a.onCall, func(x *CallEvent) {
		add := func(rule, key, f string, v ...any) {
			r.add(&Finding{Rule: rule, Key: e.name + ":" + key, Pos: w.posOf(x.instr), Msg: fmt.Sprintf(f, v...), Path: w.path(x.ctx, x.instr)})
		}
		// picked judges one matrix: which rows it consists of
		picked := func(what string, v *Val, root, other string, want, not LS, wantName, notName string) {
			r.unit("matrices judged", 1)
			ls := a.held(x.st, x.ctx, v)
			if a.elems(ls, root).empty() {
				if !a.elems(ls, other).empty() {
					add("folds", what, "%s is given %s instead of %s", what, map[string]string{"in_X": "data", "in_Y": "targets"}[other], map[string]string{"in_X": "data", "in_Y": "targets"}[root])
				}
				return // not made from the arguments at all: not judged
			}
			hasW, hasN := !ls.inter(want).empty(), !ls.inter(not).empty()
			switch {
			case hasN:
				if hasW && a.partly(x, v, want, not) {
					return
				}
				add("folds", what, "%s is given rows picked by the %s indices", what, notName)
			case !hasW && e.recv == nil:
				add("folds", what, "%s is given rows that are not picked by the %s indices", what, wantName)
			}
		}
		switch n := strings.TrimPrefix(x.name, "invoke "); n {
		case "Fit", "PartialFit":
			for _, q := range x.recv.refs {
				fitted[q.o] = true
				if isEst(q.o) {
					add("own-clone", "estimator", "%s fits the estimator it was given, not a clone", e.name)
				}
			}
			if len(x.args) == 2 {
				picked(n+" of the data", x.args[0], "in_X", "in_Y", train, test, "training", "test")
				picked(n+" of the targets", x.args[1], "in_Y", "in_X", train, test, "training", "test")
			}
		case "Predict", "PredictProba", "PredictProbas":
			judged = append(judged, use{x, x.recv})
			if len(x.args) > 0 {
				picked(n, x.args[0], "in_X", "in_Y", test, train, "test", "training")
			}
		case "Score":
			judged = append(judged, use{x, x.recv})
			if len(x.args) == 2 {
				picked(n+" of the data", x.args[0], "in_X", "in_Y", test, train, "test", "training")
				picked(n+" of the targets", x.args[1], "in_Y", "in_X", test, train, "test", "training")
			}
		case "opaque-func":
			if len(x.args) != 2 || !isScorer(x) {
				return
			}
			t, p := a.held(x.st, x.ctx, x.args[0]), a.held(x.st, x.ctx, x.args[1])
			if !t.inter(pred).empty() {
				add("order", "scorer", "the scorer is given predictions as the true targets")
				return
			}
			if p.inter(pred).empty() {
				add("order", "scorer", "the scorer is given something else than predictions as the predictions")
			}
			picked("the scorer", x.args[0], "in_Y", "in_X", test, train, "test", "training")
		}
	})
	a.onWrite = append(a.onWrite, func(x *Access) {
		if strings.HasSuffix(x.p, "$reflect") && isEst(x.o) {
			r.add(&Finding{Rule: "own-clone", Key: e.name + ":settings", Pos: w.posOf(x.instr), Msg: fmt.Sprintf("%s changes settings of the estimator it was given, not of a clone", e.name), Path: w.path(x.ctx, x.instr)})
		}
	})
	_, ok := s.run("e", e.fn, args)
	r.absorb(a, e.name)
	if !ok {
		r.broken(e.name + " never returns")
		return
	}
	for _, u := range judged {
		some := false
		for _, q := range u.who.refs {
			some = some || fitted[q.o]
		}
		if !some {
			r.add(&Finding{Rule: "own-clone", Key: e.name + ":judged", Pos: w.posOf(u.x.instr), Msg: fmt.Sprintf("%s judges a model it did not fit", e.name), Path: w.path(u.x.ctx, u.x.instr)})
		}
	}
}

// partly: the matrix is one of several that are made in a loop and not told apart.
func (a *An) partly(x *CallEvent, v *Val, want, not LS) bool {
	sv := a.noEvents
	a.noEvents = true
	defer func() { a.noEvents = sv }()
	c := &callCtx{a: a, st: x.st, ctx: x.ctx}
	for _, q := range c.dataOf(v).refs {
		ls := a.get(x.st, q.o, q.p+"[]", f64()).ls
		if !ls.inter(not).empty() && (ls.inter(want).empty() || !q.o.summary) {
			return false
		}
	}
	return true
}

// isScorer: the function called compares two matrices and returns a number.
func isScorer(x *CallEvent) bool {
	call, ok := x.instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	sig := call.Common().Signature()
	return matParams(sig) == 2 && sig.Results().Len() == 1
}
