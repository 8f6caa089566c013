package main

// Property tells how one property is decided.
type Property struct {
	laws     bool
	nLaws    int // number of laws in the probe file: fewer means the check lost some
	analyses []func(w *World, st *Stats, fs *[]Finding)
	how      string
	extra    []string // assumptions besides the common ones
	walk     bool     // laws over histories use the walkers
	probe    string   // probe file when not the one named after the property
}

// deep asks for the longer list shapes of the thorough tier.
var deep bool

func (p *Property) files(id string) []string {
	if p.probe != "" {
		return []string{p.probe}
	}
	if p.laws && p.walk {
		return []string{"walk", id}
	}
	if p.laws {
		return []string{id}
	}
	return []string{"entries"}
}

const lawHow = "Each law is client code of the library that is type-checked together with the current source of /repo and never run. " +
	"Its SSA form is abstractly interpreted over a value-graph domain: arguments are unknowns, control-flow joins merge states into shared decision graphs " +
	"(no path enumeration, no solver), calls inside the package are interpreted in place, calls leaving it become uninterpreted applications except for modelled " +
	"functions of strings, strconv, fmt, errors and reflect. The obligation is discharged when the graph of the law's result is the constant true and no panic is " +
	"reachable under a satisfiable condition. One obligation is one law for one combination of list lengths (lists not given a length are followed up to three elements)."

const effHow = "Every exported function and method of the package is interpreted over a domain of memory regions (per allocation site and calling context, per argument, " +
	"per package variable), flow- and context-sensitively, all branches taken and loops iterated to a fixpoint, so the result holds for all inputs and all list lengths. "

func (p *Property) assume() []string {
	var out []string
	if p.laws {
		out = append(out,
			"conditions, valuers and value providers written by users are deterministic and do not modify what they are given",
			"lists are analysed for the lengths stated with each law",
			"models of strings, strconv, fmt, errors, reflect and slices functions follow their documentation")
	}
	if len(p.analyses) > 0 {
		out = append(out, "functions of the standard library classified as pure do not modify their arguments", "no use of unsafe or linkname")
	}
	return append(out, p.extra...)
}

type an = []func(w *World, st *Stats, fs *[]Finding)

var properties = map[string]*Property{
	"P01": {analyses: an{analyseWrites}, how: effHow + "One obligation is one entry point: no store, append into spare capacity, copy or map update may reach memory that existed before the call."},
	"P02": {analyses: an{analyseSharing}, how: effHow + "One obligation is one entry point: slices, maps and pointers it returns refer to memory made by the call, and nothing reachable from its results is a slice or map it was given."},
	"P03": {analyses: an{analysePurity}, how: effHow + "One obligation is one entry point: no write to package variables, no read of package variables that change, no impure call out of the package, no concurrency, no dependence on map order; rendering methods write nothing."},
	"P04": {laws: true, nLaws: 13, how: lawHow},
	"P05": {laws: true, nLaws: 15, analyses: an{analyseClauseCounting}, how: lawHow + " In addition no number without a bound is kept in 8 or 16 bits on its way."},
	"P06": {laws: true, walk: true, nLaws: 17, analyses: an{analyseCounting}, how: lawHow + " In addition no number without a bound is kept in 8 or 16 bits on its way."},
	"P07": {laws: true, walk: true, nLaws: 16, how: lawHow},
	"P08": {laws: true, walk: true, nLaws: 11, how: lawHow},
	"P09": {laws: true, nLaws: 8, how: lawHow},
	"P10": {laws: true, walk: true, nLaws: 13, how: lawHow},
	"P11": {laws: true, walk: true, nLaws: 16, how: lawHow},
	"P12": {laws: true, walk: true, nLaws: 11, how: lawHow},
	"P13": {laws: true, walk: true, nLaws: 20, how: lawHow},
	"P14": {laws: true, nLaws: 8, how: lawHow},
	"P15": {laws: true, nLaws: 10, how: lawHow},
	"P16": {laws: true, nLaws: 21, how: lawHow},
	"P17": {laws: true, nLaws: 12, how: lawHow},
	"P18": {laws: true, nLaws: 10, analyses: an{analyseConstraints}, how: lawHow + " In addition the type set of every type parameter of exported functions is compared with the types the laws exercise."},
	"P19": {laws: true, nLaws: 10, how: lawHow},
	"P20": {laws: true, nLaws: 12, analyses: an{analyseJoinTypes}, how: lawHow + " In addition the static result type of every join starter is checked to offer no rendering or building method, so that a program rendering an unfinished join does not compile."},
	"P21": {laws: true, nLaws: 9, how: lawHow},
	"P22": {laws: true, nLaws: 7, analyses: an{analyseEnums}, how: lawHow + " In addition String of every exported constant of every enumerated type is interpreted and must be a fixed text of its own."},
	"P23": {laws: true, nLaws: 5, how: lawHow},
	"P24": {laws: true, nLaws: 18, how: lawHow},
	"P25": {laws: true, nLaws: 18, how: lawHow},
	"P26": {laws: true, nLaws: 4, how: lawHow},
	"P27": {laws: true, nLaws: 17, how: lawHow},
	"P28": {laws: true, nLaws: 16, how: lawHow},
	"P29": {laws: true, nLaws: 11, how: lawHow},
	"P30": {laws: true, nLaws: 5, how: lawHow},
}
