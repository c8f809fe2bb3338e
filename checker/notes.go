package main

// note is the standing part of a property's evidence: how it was decided, by
// which rules, and on which assumptions.
type note struct {
	text    string
	rules   []string
	assumes []string
}

const aiText = "Every constructor of a differentiable function is interpreted abstractly on the SSA form of the current source, through construct, Operands, Forward and Backward and through all the matrix code these call: shapes and indices are integer polynomials over symbolic dimensions, element data carries a unit of measure and its sources, storage carries its owner. Loops are summarised by one generic iteration, element-dependent branches are joined, all other branches split the path. Each rule is judged on each path; the counts below are per rule and distinct construct."

const matText = "Every method of the Matrix interface that the dense matrix implements, in both element types and for arguments of the same and of the other type, is interpreted abstractly with symbolic shapes and arguments (SSA form of the current source); the rules are judged on every path."

var aiAssume = []string{
	"operand lists longer than the enumerated lengths behave like those of length 2 and 3",
	"operands have at least one row and one column",
	"vector kernels obey the contracts that C16 and C17 check in their Go bodies; what the assembly bodies compute is trusted",
}

var concAssume = []string{
	"sync, sync/atomic and channels behave as the Go memory model says",
	"user-defined differentiable functions terminate and do not call back into the operator that runs them",
}

const compText = "Each function is run abstractly on the SSA form of the current source with operands of symbolic shapes, everything below it (operators, forward passes of the differentiable functions, matrix operations, loops, calls of vector kernels) included; goroutines of asynchronous operators run when started. Elements carry terms over the elements of operands and parameters in normal form; arrays written in pieces carry their affine index maps, decisions on references that are not known end the judgement."

var compAssume = []string{"the formulas in complist*.go are the documented definitions", "arithmetic is that of the real numbers", "vector kernels compute what their contract says"}

var notes = map[string]note{
	"C01": {aiText, []string{"one gradient per use: on every path that ends normally the number of AccGrad calls per operand that requires gradients equals the number of its uses", "backward completes: no feasible path of the backward pass panics or returns an error"}, aiAssume},
	"C02": {aiText, []string{"every AccGrad call lies on a path on which RequiresGrad of the same operand was true"}, aiAssume},
	"C03": {aiText, []string{"every input the elements or the shape of the result depend on is in the list that Operands returns", "every tensor that receives a gradient is in that list, as often as it receives one"}, aiAssume},
	"C04": {aiText, []string{"rows and columns of each delivered gradient equal those of the operand, as polynomials under the path's facts; a difference needs a small concrete shape that satisfies the path's facts before it is reported"}, aiAssume},
	"C05": {aiText, []string{"no store reaches elements or shape of an operand, of the incoming gradient or of the published result", "the result reaches no storage of an operand"}, aiAssume},
	"C20": {aiText, []string{"the unit of each delivered gradient equals unit(gy)·unit(y)/unit(x), after solving the linear system of unit equations the forward pass imposes", "the backward pass imposes no equation between units that the forward pass did not"}, append([]string{"constants other than zero are dimensionless"}, aiAssume...)},
	"C18": {aiText + " For this property every element carries its term over the elements of the operands (polynomials over exp, log, powers, comparisons, sums and matrix products, in normal form); the derivative of the result's term is computed symbolically.", []string{"the term of the gradient delivered to an operand equals, case by case of the comparisons, the incoming gradient times the derivative of the result's term with respect to that operand; all deliveries to one operand are added up", "a difference is reported only if the two closed terms also evaluate differently at some small shape that satisfies the path's facts"}, append([]string{"arithmetic is that of the real numbers", "points where the function is not differentiable do not matter", "Dense.T and TransposeInPlace transpose"}, aiAssume...)},
	"C19": {matText + " Elements carry terms over the elements of receiver and arguments; arrays written by loops and copies are kept as ordered patches: affine maps from index boxes with symbolic strides to positions, each with the term stored.", []string{"the term at every symbolic position of the result equals the term of the definition, case by case of the comparisons and of the equalities", "a difference is reported only if the two closed terms also evaluate differently at some small shape that satisfies the path's facts"}, []string{"the table of definitions in matvals.go is the definition", "arithmetic is that of the real numbers; which branch a comparison of equal numbers takes does not matter unless the code tests for equality", "vector kernels compute what their contract says"}},
	"C15": {"Constructor and Forward of every differentiable function are interpreted abstractly on the SSA form of the current source, matrix operations inlined down to element loops and vector kernels; elements carry terms over the elements and numbers of the operands (normal form), arrays written in pieces their affine index maps.", []string{"the term at every symbolic position of the result equals the formula of the function, case by case of the comparisons", "a position that a loop looked for is resolved by the invariant that the value kept with it is the element there", "a difference is reported only if the two closed terms also evaluate differently at some small example that satisfies the path's facts"}, []string{"the formulas in opvals.go are the documented functions", "arithmetic is that of the real numbers", "vector kernels compute what their contract says"}},
	"C21": {compText, []string{"the shape of the result is that of the definition", "the term at every position of the result equals the formula", "a difference is reported only if the two closed terms also evaluate differently at some small example that satisfies the path's facts"}, compAssume},
	"C22": {compText + " Parameters are named after the fields that hold them and have arbitrary values. The parts of gMLP and MLP-Mixer are not looked into: what each is given is compared, and what it gives is a new name.", []string{"as many results as defined, each in its place, with the shape of the definition", "the term at every position of a result equals the formula of the model", "elements of all parameters and buffers are afterwards what they were, or what the definition says (batch normalization in training)", "constants kept in buffers are those of the definition", "a difference is reported only if the two closed terms also evaluate differently at some small example that satisfies the path's facts"}, compAssume},
	"C11": {"OptimizeParams of every strategy (and each decay function and clipper) is interpreted abstractly on the SSA form of the current source; elements of parameter, gradient and memory carry terms over the hyperparameters (polynomials over powers, square roots, sums and comparisons, in normal form). Step 1 and step 2 start from the state the code itself builds; for an arbitrary later step the memory is generalised to a symbol that is tied to the rule's memory, and the step must preserve that tie.", []string{"the term of the parameter after each step equals that of the published rule, case by case", "the memory after each step is that of the rule (induction)", "a step writes to nothing but its parameter, the parameter's state and its gradient, and the gradient is gone afterwards", "a foreign state leads to an error before anything is written", "decay and clipping terms equal their documentation, and clipping writes to gradients only", "a difference is reported only if the closed terms also evaluate differently at some small example"}, []string{"arithmetic is that of the real numbers", "the rules in optdrive.go and optrest.go (optSpecs, decaySpecs) are the published ones"}},
	"C14": {"Optimize is interpreted abstractly on the SSA form of the current source for three parameters, all subsets of them having a gradient, and a strategy whose steps fail or not as the path decides; channels, contexts and goroutines are modelled, each goroutine running when started.", []string{"every parameter with a gradient is stepped once, others never, unless a step failed", "an error is returned if and only if a step failed"}, []string{"other orders of the goroutines lead to the same steps (C09 decides that they share nothing and are waited for)", "three parameters stand for any number"}},
	"C06": {"All feasible paths of the functions that start, run and read operators are enumerated on the SSA form, callees included, and each is run through a typestate automaton of the value, its announcement and the semaphore slot; readers are all the accesses of the value field in the package.", []string{"stored once, before the announcement", "announced exactly once if and only if asynchronous", "every read of the value by others is dominated by the wait", "every slot taken is released exactly once, after the work it stands for, and as many slots exist as the channel's capacity"}, concAssume},
	"C07": {"Paths of the gradient accumulation and of the gradient readers, callees included, are enumerated on the SSA form and run through a typestate automaton of gradient, counter and announcement; all accesses of counter and state are classified atomic or not.", []string{"accumulate before counting", "count down by exactly one, in one atomic step, only inside a backward pass", "announce if and only if this step reached zero", "readers wait unless idle or nothing is pending", "counter and state are accessed atomically where goroutines may run"}, concAssume},
	"C08": {"The phases of the backward pass are located by what they do (count, settle, start), their order is checked on all paths, and the traversals are checked to be total: every loop over outputs and operands reaches its action for every element that is an operator, whatever the other elements are.", []string{"count before settle before start, each for all outputs", "an error is returned before any state changes", "each operator is marked once and started once", "a propagation waits for its gradient, propagates once, resets the state, and signals its end on every path"}, concAssume},
	"C09": {"Every go statement of the library is analysed with the function that starts it: the paths of the goroutine (signal exactly once), the paths of the starter (announce before start, wait before return or use), and the effects on captured variables, fields and elements.", []string{"each goroutine signals its end exactly once on every path", "announced before started, waited for on every path", "nothing the goroutine writes is touched by the starter before the wait or by a sibling", "channels are closed once, after all senders; producers can be cancelled"}, concAssume},
	"C10": {"Lock sets are computed flow-sensitively on the SSA form for every function that reaches a guarded field; entry lock sets come from all call sites.", []string{"guarded field only under its lock, exclusively for writes", "a decision on a guarded value and the action on it lie in one critical section", "released on every path, never taken twice, nothing blocking while held", "one nesting order"}, concAssume},
	"C12": {matText, []string{"operations not documented as in-place store only into fresh storage", "in-place operations store only into their receiver", "results of operations that are not views reach no storage of receiver or arguments"}, []string{"element access through interfaces of other packages does not occur", "vector kernels write only the output their contract names (checked by C16)"}},
	"C13": {matText, []string{"shape of every result equals the shape of the operation's definition (table of shapes), number of elements equals rows·columns", "operands that do not fit are rejected: each path that returns normally implies the fit conditions of the definition (table of conditions)"}, []string{"the tables of shapes and conditions in matops.go are the definition"}},
	"C16": {matText + " Kernels: callers are checked against the length contract of each kernel, and the Go bodies of the kernels are interpreted under that contract, in the assembly build and in the pure Go build.", []string{"each index into element data is within the slice", "slices of element data never reach behind the length", "operands of each kernel call are as long as its contract says", "kernel bodies stay within operands that obey the contract"}, []string{"the assembly bodies obey the contract of the Go function they implement"}},
	"C17": {"All accesses to element data of the kernels' Go bodies are recorded as index intervals whose bounds are polynomials in length and loop counters; the union is compared with the whole index range. Feature requirements are read from the instructions of the assembly sources and compared with the CPU feature tests that dominate each use.", []string{"the intervals computed cover every element, the intervals used cover every element", "corrections after the vector code cover all the elements it computed", "result and operand indices are aligned", "each use of an assembly function is dominated by tests of all the CPU features its instructions need"}, []string{"each assembly body treats the whole block its contract names"}},
	"C23": {"Constructors of all models are interpreted on the SSA form; then the traversal functions of nn are interpreted on the resulting abstract heap, reflection modelled (kinds, fields, elements, map entries), with callbacks that record what they are given. A synthetic model in an overlay holds parameters and parts in every supported way, frozen and nil ones among them.", []string{"every parameter visited once (ForEachParam, Parameters)", "own parameters visited once (ForEachParamStrict)", "every part visited once, the model first (Apply)", "gradients zeroed (ZeroGrad)", "visits return"}, []string{"reflect, sync.Map and sort.Ints as documented"}},
	"C24": {"The abstract heap of each constructed model is reduced to what encoding/gob transmits, then Forward is interpreted on it and its result compared with the formula of the model. Types registered with gob are collected from the initializers; types stored in Param.State from all stores to that field.", []string{"can be saved: types behind interfaces are registered, no nil in lists, no struct without exported fields", "result as defined, for the loaded model", "loaded model works", "registered with gob: models given by constructors, optimizer states", "state kept: no unexported fields in optimizer states"}, []string{"gob as documented; matrices are encoded faithfully", "fields that share a pointer do not rely on it"}},
	"C25": {"Initializers, distributions, samplers, dropout and Init of models are interpreted with every draw of the random generator as a new name in its range; what they leave is compared, element by element, with the documented formula over draws, no draw used twice.", []string{"result as defined, over draws of its own for each element", "a result where one is defined: no path panics"}, []string{"the generator gives independent numbers in its documented range", "arithmetic of the real numbers", "shapes are small and given"}},
	"C26": {"Each operator is constructed over named operands, run forward, and run backward with a named gradient; what AccGrad left in each operand is compared, for every symbolic position, with the gradient of the elements of the result that the element went to.", []string{"result as defined: result and gradient of every operand, at every position", "operands that need no gradient get none", "a result where one is defined: no path panics"}, []string{"arithmetic of the real numbers", "ties among maxima are not decided"}},
}

func (r *Report) standing() {
	n, ok := notes[r.Prop]
	if !ok {
		return
	}
	r.Notes = append([]string{n.text}, r.Notes...)
	r.Rules = append(r.Rules, n.rules...)
	r.Assumptions = append(r.Assumptions, n.assumes...)
}
