GF = "mat/gradfn/"
AI = "abstract interpretation of the SSA form of every differentiable function and of the matrix code it calls (symbolic shapes, ownership, gradient events), rules judged on every abstract path"

prop("C01", "Each use of an operand that requires gradients gets exactly one gradient",
 "For every differentiable function and all non-empty operand shapes its forward pass accepts, the backward pass, given a gradient of the result's shape, completes without panic or error and delivers exactly one gradient per use of each operand that requires gradients. A missing delivery leaves whoever waits for that gradient blocked forever; a surplus one releases the waiters before all the contributions are in. Rejections that depend on element values, such as the logarithm of a negative number, are excepted.",
 ["inputs", "configurations"], "all operand shapes (dimensions at least 1) accepted by forward, all subsets of operands requiring gradients, all integer parameters, operand lists of any length, both element types",
 "The tests run each function on one or two shapes, mostly with every operand requiring a gradient; the deadlock shows only when the backward scheduler waits for a gradient that a particular shape or subset of operands does not produce.",
 [GF, "mat/dense.go", "ag/operator.go"],
 [("Backward methods of the differentiable functions", GF), ("pending gradient counter", "ag/operator.go AccGrad, Grad"), ("argument checks of the matrix operations", "mat/dense.go")],
 AI, "Decides delivery counts and completion on every abstract path for symbolic shapes; operand lists are enumerated up to length 3 (4 in the thorough tier); paths whose rejection depends on element values are listed as undecided.",
 state=[("pending gradients", "number of gradients an operator still expects", "ag/operator.go")])

prop("C02", "A frozen operand never receives a gradient",
 "During the backward pass of any differentiable function, no gradient is accumulated into an operand that does not require gradients, whatever the shapes and whichever other operands require them. Frozen parameters and constants therefore stay untouched by training.",
 ["inputs", "configurations"], "all operand shapes accepted by forward, all subsets of operands requiring gradients",
 "The tests almost always mark every operand as requiring gradients, so a missing guard goes unnoticed.",
 [GF], [("RequiresGrad guards before AccGrad", GF)], AI,
 "Every accumulation event of every abstract path is matched with the outcome of a requires-gradient test of the same operand on that path.")

prop("C03", "Differentiable functions declare all the inputs their result depends on",
 "The operands a differentiable function declares include every input tensor its result depends on and every tensor its backward pass delivers a gradient to, for any number of inputs. The dependency graph built from the declarations is therefore complete: no gradient path is cut and no tensor gets gradients that nobody counted.",
 ["inputs", "configurations"], "all differentiable functions, operand lists of any length, all shapes accepted by forward",
 "Tests compare the declared list for one example; an operand dropped from a variadic or optional list only shows as a silently missing gradient.",
 [GF, "ag/operator.go", "ag/backward.go"], [("Operands methods", GF), ("operand traversal of the backward scheduler", "ag/backward.go")], AI,
 "Data dependence of the result on each input is tracked by the abstract interpreter and compared with the list that the operand declaration returns.")

prop("C04", "Every gradient has the shape of the operand it belongs to",
 "Every gradient that a backward pass delivers to an operand has exactly the operand's number of rows and columns, for all shapes the forward pass accepts. Optimizers, gradient clipping and further backward passes combine the two element by element and rely on it.",
 ["inputs", "configurations"], "all operand shapes (dimensions at least 1) accepted by forward, operand lists of any length",
 "Accumulation accepts vectors of either orientation and any first gradient, so a wrong shape surfaces only later, for particular non-square or row-vector operands which the tests do not use.",
 [GF, "mat/dense.go"], [("construction of the gradient matrices in Backward", GF), ("AccGrad", "mat/dense.go")], AI,
 "The symbolic shape of each delivered gradient is proved equal to the operand's symbolic shape; a difference is reported with a small shape that exhibits it.")

prop("C05", "Forward and backward passes modify no operand, gradient or published result",
 "Computing the forward or backward pass of a differentiable function never modifies the value or the shape of an operand, the incoming gradient, or a result already handed out, and the result shares neither elements nor shape storage with an operand. Operators of one graph run concurrently and read each other's values without synchronization, so any such write is a data race that corrupts other computations.",
 ["inputs", "schedules"], "all differentiable functions, all shapes accepted by forward, all interleavings of the operators of a graph",
 "The corruption shows only if another operator reads the operand afterwards or concurrently; unit tests run functions in isolation and look at the result.",
 [GF, "mat/dense.go", "mat/dense_new.go"], [("in-place operations applied only to fresh matrices", GF), ("allocation of results", "mat/dense.go")], AI,
 "Every store of every abstract path is attributed to the owner of the storage (operand, incoming gradient, published result, fresh); stores to anything but fresh storage are violations.")

prop("C20", "Gradients obey the physical dimensions the chain rule prescribes",
 "If every input of a differentiable function is given an arbitrary unit of measure consistent with its forward computation, each gradient delivered has the unit of incoming gradient times result divided by operand, and the backward pass never adds or compares quantities of different units. A factor that is missing, duplicated, inverted or taken from the wrong operand violates this for all inputs at once.",
 ["inputs"], "all values and shapes of the operands of all differentiable functions",
 "Numerical gradient checks sample a few values; a wrong factor that is close to one at the sampled points, or used on a branch not taken, passes.",
 [GF, "mat/dense.go"], [("derivative formulas", GF)],
 "dimensional analysis (unit inference by linear algebra over the rationals) inside the abstract interpretation of forward and backward passes",
 "Decides the dimensional clause only: wrong numeric constants, signs, and factors without dimension are outside it.")

prop("C18", "Backward computes the derivative of what forward computes",
 "For every element-wise function, activation, scalar or matrix product, sum and transposition, the gradient delivered to each operand equals the incoming gradient times the derivative of the forward result with respect to that operand, at all element values where it is differentiable and for all shapes the forward pass accepts. Training with any other gradient minimises something else than the loss the user wrote down.",
 ["inputs"], "all element values, parameters and shapes of the operands",
 "Numerical gradient checks sample a few values, and often on one side of a threshold only; a wrong branch, sign, constant or factor passes that is right at the sampled points.",
 [GF, "mat/dense.go"], [("derivative formulas", GF)],
 "abstract interpretation of forward and backward into normal-form terms over the operands' elements, symbolic differentiation of the result's term, and comparison of normal forms",
 "Functions that select or move elements (views, slices, concatenation, maximum, pooling, dropout, sparsemax, softmax over several elements) are outside the term language and counted as undecided; GELU's rounded constants keep its proof open, a wrong formula is still refuted.")

AG = ["ag/operator.go", "ag/backward.go"]
TS = "interprocedural path-sensitive typestate analysis of the SSA form"

prop("C06", "An operator's value is computed once and never read before it is ready",
 "When an operator runs asynchronously, its value is stored exactly once, before its completion is announced exactly once, and every reader of the value waits for the announcement first; a synchronous operator has its value when Run returns. Every forward pass that takes one of the limited concurrency slots gives it back exactly once, and never more slots are in use than exist, so no interleaving yields a nil or half-made value, a double announcement, or a stall.",
 ["schedules"], "all interleavings of asynchronous forward passes and readers, any number of operators",
 "The window between announcing and storing is a few instructions; tests hit it by luck only, and a leaked slot matters only after as many operators as there are slots.",
 AG, [("Run, executeForward, Value", "ag/operator.go"), ("forward semaphore", "ag/operator.go forwardGuard")], TS,
 "Decides the order of store, announcement, waits and semaphore operations on all paths; deadlocks through cyclic graphs, which cannot be built, are outside it.",
 state=[("broadcast channel", "closed when the value is available; nil for synchronous operators", "ag/operator.go")])

prop("C07", "An operator's gradient is read only after all contributions have been added",
 "During a backward pass each gradient is added to an operator before it is counted as arrived, the count goes down by exactly one per contribution in one atomic step, and exactly the contribution that brings it to zero wakes up the waiters. Whoever reads the gradient while contributions are missing waits for that wake-up; outside a backward pass accumulating a gradient neither counts nor blocks.",
 ["schedules"], "all interleavings of the backward functions of a graph that deliver gradients to the same operator",
 "A lost or double wake-up needs two contributions to arrive within a few instructions of each other.",
 AG, [("AccGrad, Grad", "ag/operator.go")], TS,
 "Decides order and atomicity on all paths; that the count equals the number of contributions is decided by C01, C03 and C08.",
 state=[("pending gradients", "contributions an operator still expects", "ag/operator.go")])

prop("C08", "Backward visits every operator exactly once and returns after all finished",
 "A backward pass first counts, for every operator reachable from the outputs that requires gradients, one pending gradient per use, then gives every output its gradient, and only then starts one propagation per operator, each of which waits for the operator's complete gradient, propagates it once, and resets the operator to idle; it returns after all propagations ended. No output, operand or operator is left out; errors are returned before any operator's state changes, so that another backward pass can follow.",
 ["schedules", "inputs", "histories"], "all graphs (shared operands, several outputs, outputs that feed each other), all interleavings, repeated passes over one graph",
 "Tests use small graphs with a fixed structure and one pass; a wrong phase order or a state left behind shows only on shared operands, second passes, or particular schedules.",
 AG, [("Backward and its three phases", "ag/backward.go"), ("prepareBackwardPass, processBackwardPass, executeBackward", "ag/operator.go")], TS + "; loop-coverage analysis of the traversals",
 "Decides the order of the phases, the per-operator life cycle and the completeness of the traversals on all paths of the code; the graph itself is treated as arbitrary.",
 state=[("backward state", "idle, pending or ongoing", "ag/operator.go")])

prop("C09", "Every goroutine is waited for, and nothing it shares is touched meanwhile",
 "Every goroutine the library starts signals its end exactly once on every path, and a function that waits for goroutines announces each before starting it and reaches the wait on every path before it returns or uses what they produce. A variable a goroutine writes is not touched by its starter before the wait nor by another goroutine; channels are closed only after all senders ended, and a producer whose consumer stops early can be cancelled.",
 ["schedules"], "all interleavings of the goroutines of the backward pass, the optimizer, the traversal of parameters, the affine transformation and the bidirectional network",
 "The race needs the starter to overtake a goroutine, which on an idle machine with small inputs practically never happens.",
 ["ag/backward.go", "ag/operator.go", "mat/gradfn/affine.go", "nn/module.go", "nn/birnn/birnn.go", "optimizers/optimizer.go"],
 [("wait groups", "ag/backward.go, mat/gradfn/affine.go, nn/birnn/birnn.go, optimizers/optimizer.go"), ("channels of parameters", "nn/module.go")], TS + "; effect analysis of captured variables",
 "Decides start/wait/announce order and sharing through captured local variables; sharing through the heap is covered for operators (C06, C07), gradients and tables (C10).")

prop("C10", "State shared between goroutines is accessed only under its lock",
 "The gradient of a matrix, the gradients of an embedding table and the state of a locked random generator are read and written only while their lock is held, exclusively for writes; a decision based on what was read is acted on, and the list of embeddings with gradients changes together with the gradients, without releasing the lock in between. Every lock taken is released on every path, none is taken twice, nothing that may block runs while one is held, and locks nest in one order only.",
 ["schedules"], "all interleavings of goroutines that accumulate, read and clear gradients or draw random numbers",
 "A missing lock or a gap between check and update loses a gradient only when two goroutines meet in it, and the race detector sees only the schedules that the tests happen to take.",
 ["mat/dense.go", "nn/embedding/embedding.go", "mat/rand/lockedrand.go", "mat/internal/rand"],
 [("gradMu", "mat/dense.go"), ("mu", "nn/embedding"), ("lk", "mat/rand")], "lock-set and lock-order analysis (interprocedural typestate over SSA)",
 "Which lock guards which field is listed in the analyser (four locks, confirmed by reading); unguarded shared state is outside it.")

MO = ["mat/matrix.go", "mat/dense.go", "mat/dense_new.go"]
MA = "abstract interpretation of the SSA form of every method of the Matrix interface (symbolic shapes and indices, ownership of storage), rules judged on every abstract path"

prop("C12", "Matrix operations modify only their receiver, and results own their data",
 "A matrix operation that returns a new matrix modifies neither its receiver nor an argument, and its result shares no element or shape storage with them; an operation documented as in-place modifies its receiver only, and only views (SetData, View, Data, reshaping a vector or matrix in place) may share elements. A later in-place operation on a result, on an operand or on a slice the caller still holds therefore never changes another matrix.",
 ["inputs", "histories"], "all operations of the Matrix interface, both element types and operands of the other type, all shapes, lists of any length, slices with spare capacity",
 "Sharing shows only when one of the two matrices is modified afterwards, often only for particular shapes (vectors, same size, empty) that take a shortcut.",
 MO, [("results allocated by the operations", "mat/dense.go"), ("constructors from caller's slices", "mat/dense_new.go")], MA,
 "Every store and every storage identity of every abstract path is attributed to its owner. Lists are enumerated up to length 2 (4 in the thorough tier).")

prop("C13", "Matrix operations check their operands and return the defined shape",
 "For all operands a matrix operation accepts, the result has exactly the shape that the operation defines (for example r×c of the left and right factor of a product) and a number of elements equal to rows times columns. Operands whose shapes do not fit, and indices or sizes out of range, are rejected instead of producing a result.",
 ["inputs"], "all operations of the Matrix interface, both element types, all shapes (empty ones included), all indices and sizes, lists of any length",
 "Tests try a handful of shapes; a missing or wrong bound shows only for the index just behind the end, a vector of the other orientation, an empty matrix, or two shapes with the same number of elements.",
 MO, [("argument checks and result shapes", "mat/dense.go"), ("shape checks of the constructors", "mat/dense_new.go")], MA,
 "The shape and fit tables of 80 operations are part of the analyser (oracle: the doc comments of the Matrix interface); symbolic equality is decided by polynomial normalisation, a difference is reported with small shapes that exhibit it.")

prop("C16", "No access to matrix elements outside the matrix",
 "No matrix operation and no forward or backward function ever reads or writes an element outside the matrix it works on, not even into spare capacity of the underlying slice, for any operands it accepts. Every vector kernel, which does not check bounds itself, is called with operands at least as long as it processes, and stays within them.",
 ["inputs"], "all operations of the Matrix interface, all differentiable functions, all kernels written in Go in the assembly and the pure Go build; all shapes and indices that pass the argument checks",
 "An overrun by one element reads or overwrites a neighbour without a crash, and only for lengths that are not a multiple of the vector width or particular shapes.",
 MO + [GF, "mat/internal"], [("kernel calls", "mat/dense.go"), ("Go parts of the kernels", "mat/internal/matfuncs, mat/internal/f32, mat/internal/f64"), ("element indexing", "mat/dense.go")],
 MA + "; kernels by contract: callers are checked against the length contract, Go bodies interpreted under it",
 "Assembly bodies are trusted to obey their contract (elements 0..len-1 of the first operand). Indices that depend on element values are listed as undecided.")

prop("C17", "Vector code covers every element and runs only where the CPU supports it",
 "The vectorised functions (sum, difference, quotient, addition of and multiplication by a constant, exp, log, total, dot product) use every element of their operands and compute every element of the result from the operand elements of the same index, whatever the length; special values corrected after the vector code are corrected in all the elements it computed. Code that needs CPU extensions beyond the baseline is reached only after all the extensions it needs were detected.",
 ["inputs", "configurations"], "all lengths, the assembly and the pure Go build, all combinations of detected CPU features",
 "The tests run on one machine, so only one of the variants, and with few lengths; a block or remainder that is treated differently shows only for particular positions and values.",
 ["mat/internal/matfuncs", "mat/internal/f32", "mat/internal/f64"], [("dispatch by CPU feature", "mat/internal/matfuncs/*_amd64.go"), ("blocks and remainders", "mat/internal/matfuncs/exp_amd64.go, log_amd64.go"), ("assembly", "mat/internal/**/*_amd64.s")],
 "array access analysis (index intervals of all reads and writes as polynomials in loop counters) of the kernels; instruction-set query over the assembly sources with dominance of CPU feature tests",
 "Coverage of index intervals is evaluated for lengths up to 24, three times the widest block. What the assembly computes is trusted, only its instruction set is examined.")

OP = ["optimizers/sgd", "optimizers/adagrad", "optimizers/rmsprop", "optimizers/adam", "optimizers/radam", "optimizers/lamb"]

prop("C11", "Optimizers, decay and clipping apply their documented update rules",
 "One step of SGD (plain, with momentum, Nesterov), AdaGrad, RMSProp, Adam (with decoupled weight decay), RAdam or Lamb changes every element of a parameter exactly as the published rule of that method says, given the gradient, the hyperparameters and the memory that the rule builds up over all earlier steps of the same parameter, and uses up the gradient. Steps of different parameters are independent of each other, and a parameter that carries the state of another method is refused. Learning-rate decay, value clipping and norm clipping compute their documented formulas; clipping changes gradients only and leaves parameters without a gradient alone.",
 ["inputs", "histories"], "all hyperparameters, values, gradients and shapes of the parameters, both element types, any number of earlier steps",
 "Tests compare one or a few steps with recorded numbers, for one setting of the hyperparameters; a wrong bias correction, a memory that is not carried over, or a branch for an unusual setting shows only later in training, as slightly worse convergence.",
 OP + ["optimizers/decay", "optimizers/gradclipper"], [("OptimizeParams of the strategies", "optimizers/*/*.go"), ("decay functions", "optimizers/decay"), ("clippers", "optimizers/gradclipper/clipper.go")],
 "abstract interpretation of the SSA form of each strategy into normal-form terms over parameter, gradient, memory and hyperparameters, induction over the steps, comparison with the term of the published rule",
 "The first, second and an arbitrary later step are compared with the rule; the memory is tied to the rule's own by induction. Arithmetic is that of the real numbers; norm clipping by the largest element is undecided.",
 state=[("memory of a parameter", "running moments, squares or velocity", "optimizers/*/*.go"), ("time step", "examples or batches announced so far", "optimizers/adam, lamb, radam")])

prop("C14", "Optimize steps each parameter with a gradient once and reports failing steps",
 "One call of the optimizer performs exactly one step for every parameter of the model that has a gradient when it is called, and none for a parameter without one, wherever in the sequence of parameters it comes. If no step fails it returns no error; if a step fails, at any position, it returns an error.",
 ["inputs", "configurations", "schedules"], "all subsets of parameters with gradients, all subsets of failing steps",
 "Tests let every parameter have a gradient and no step fail; a parameter skipped after another one, or an error lost on the last parameter, goes unnoticed.",
 ["optimizers/optimizer.go"], [("Optimize", "optimizers/optimizer.go")],
 "abstract interpretation of the SSA form of Optimize with symbolic outcomes of the steps, rules judged on every path",
 "Decided for sequences of three parameters; the goroutines are interpreted as if each ran when started, which with C09 (all are waited for, nothing shared) covers the other orders.")

prop("C19", "Matrix operations compute their defined elements",
 "Every operation of matrices puts the number that defines it at every position of its result, whatever shapes, values, indices and element types it is given: element-wise arithmetic, powers, roots, logarithms and exponentials, maxima and minima, clipping, products of matrices, sums, norms, softmax, rows and columns, slices, ranges, splitting, padding, resizing, appending, stacking and concatenating, swapping rows, copying and setting elements. Elements equal to each other or to zero, empty operands and operands of the other element type make no exception. (Transposition, cumulative sums, ArgMax, functions given by the caller, rounding and NaN are not covered.)",
 ["inputs"], "all values and shapes, all indices accepted, both element types and operands of the other type, lists of up to three (thorough: four) matrices or sizes",
 "Tests compare a few small matrices with recorded numbers; a shortcut for a special shape, a stride that is right for square matrices only, or a comparison that goes wrong for zeros shows only on the operands they leave out.",
 MO, [("elements of results", "mat/dense.go"), ("vector kernels by contract", "mat/internal")],
 "abstract interpretation of the SSA form of every operation into normal-form terms (arrays written in pieces: affine index maps with symbolic strides), compared with a table of definitions for every symbolic position",
 "The table of definitions is part of the analyser (oracle: the doc comments of the Matrix interface and ordinary linear algebra). Vector kernels are represented by their contracts; C17 decides their Go parts.")

prop("C15", "Differentiable functions compute the function they are named after",
 "The forward pass of every differentiable function of mat/gradfn (apart from dropout, max pooling and sparsemax) puts at every position of its result the number that the function defines, for whatever operands it accepts: sums, differences, products, quotients, products of matrices, affine maps with any number of pairs, the activations with their parameters, softmax, powers, maxima and minima of elements and of lists, reductions to sum, mean and maximum, views, slices, rotations, transposition, stacking and concatenation. Values equal to each other, zero or negative parameters and operands of any shape make no exception.",
 ["inputs"], "all values and shapes, both element types, lists of up to four (thorough: six) operands, affine maps with up to four pairs",
 "Tests compare one small example with recorded numbers; a formula that agrees on it (a vector, positive parameters, two operands) can be wrong elsewhere, and the backward pass can be consistent with the wrong formula.",
 ["mat/gradfn", "ag/operators.go"], [("Forward of the functions", "mat/gradfn/*.go"), ("element functions", "mat/gradfn/misc.go"), ("matrix operations", "mat/dense.go")],
 "abstract interpretation of the SSA form of constructor and Forward of every function, matrix operations inlined, into normal-form terms; compared with a table of formulas for every symbolic position",
 "The table of formulas (opvals.go) is the oracle: doc comments and the published definitions of the activations. Arithmetic is that of the real numbers; which branch a comparison of equal numbers takes does not matter where both sides meet.")

prop("C21", "Losses and composed operators compute the function they are named after",
 "Every operator of ag, those composed of others included (LogSumExp, LogSoftmax, BiLinear, BiAffine, PositiveELU, Map, Pad, SeparateVec, SplitVec, RowViews and the like), and every loss of losses (MAE, MSE, their sequence forms with and without mean, NLL, cross-entropy, weighted cross-entropy, focal losses, perplexity, the quantization losses, SPG) gives the shape and the numbers of its definition for whatever operands it accepts. Means divide by what they sum over, targets and weights select the class they name, and lists keep their order. Operand sizes and values make no exception.",
 ["inputs"], "all values and sizes, both element types, lists of up to three, targets at any position",
 "Tests compare one small example with recorded numbers; a formula that agrees on it (mean over one element, target in the first class, order of a list of equals) can be wrong elsewhere.",
 ["losses", "ag/operators.go"], [("losses", "losses/losses.go"), ("operators and list helpers", "ag/operators.go")],
 "abstract interpretation of the SSA form of each function, operators, forward passes and matrix operations inlined, into normal-form terms; compared with a table of formulas for every symbolic position",
 "The table of formulas (complist.go) is the oracle: doc comments and published definitions. Arithmetic is that of the real numbers.")

prop("C22", "Models compute the function they define",
 "Forward of every model of nn (linear, SRN, LSTM, GRU, highway, the normalization layers and batch normalization in training, activations, dropout of nothing, 1x1, 1d and 2d convolution plain, masked and depthwise, max pooling, squared distance, flatten, bidirectional RNN with each merge, scaled dot-product, self and multi-head attention with mask, cache and cross attention, spatial gating, gMLP, MLP-Mixer, S-LSTM, and the CRF loss) gives for each input the shape and the numbers of its published definition over its parameters, in the order of the inputs. The result depends on every parameter and input as defined, whatever their values and sizes, and the labels that the CRF decodes are ones of the highest score. A forward pass leaves the parameters as they were; only batch normalization in training moves its running mean and deviation, by its momentum.",
 ["inputs"], "all values and sizes (convolutions, pooling, multi-head, CRF: small given sizes; CRF decoding: two labels and up to three steps, three labels and up to two), both element types, sequences of up to three",
 "Tests compare one small example per model with recorded numbers; a recurrence that uses the wrong gate, an index or mask that is off, a scale or an order that is wrong can agree with the example, start from zero states, or never get to a third step.",
 ["nn"], [("Forward of the models", "nn/*"), ("operators", "ag/operators.go"), ("attention", "nn/attention"), ("recurrent models", "nn/recurrent")],
 "abstract interpretation of the SSA form of constructor and Forward of each model, operators and matrix operations inlined, into normal-form terms over named parameters and inputs; compared with the model's formula for every symbolic position, large models part by part",
 "The formulas (complist2.go, complist3.go, complist4.go) are the oracle: doc comments and the published definitions. Arithmetic is that of the real numbers. Decoding is decided path by path: the labels found against all others, a comparison counting as settled if it is a sum of those the path made; labels of equal scores may be exchanged.")

prop("C23", "Every parameter and part of a model is visited exactly once",
 "ForEachParam and Parameters give every parameter a model holds, frozen ones included, exactly once: those in its exported fields, whether directly or in slices, arrays, maps (string or integer keys) and sync.Maps, and those of its sub-models, however nested and whether held by pointer, by value or behind an interface; nil fields hide nothing behind them. ForEachParamStrict gives only those not held by a sub-model, Apply gives the model itself and then each sub-model once, and after ZeroGrad no parameter has a gradient. Models that traverse their own parameters (embeddings) give exactly those that have a gradient, and every model of the library is traversed without panic.",
 ["inputs"], "all models of nn, and a model that holds parameters and sub-models in every supported way",
 "Training silently leaves alone what the traversal misses; the tests use a few small structures, and a kind of field, order of fields or frozen neighbour they do not have goes unnoticed.",
 ["nn"], [("traversal by reflection", "nn/traversal.go"), ("entry points", "nn/model.go"), ("embeddings", "nn/embedding/model.go")],
 "abstract interpretation of the traversal's SSA form, with a model of reflection, over the abstract heap of every constructed model and of a synthetic one; the visited parameters and parts are compared with those the heap holds",
 "Constructors are run with the sizes of C22's targets. Reflection, sync.Map and sort.Ints are modelled after their documentation.")

prop("C24", "A saved and loaded model computes what it computed before",
 "What gob keeps of a model (exported fields; not functions, channels or unexported fields) suffices: every model of nn, saved and loaded, computes for each input the same function as before, defined as in C22, and can be trained on (embeddings included). Every model type of nn that a constructor gives, every type a model holds behind an interface, and every optimizer state kept with a parameter is registered with gob, and the states have no unexported fields, so that saving succeeds and training resumes where it stopped.",
 ["inputs", "histories"], "all values and sizes, all models of nn, all optimizer states",
 "Round-trip tests exist for matrices and a few containers only; a value cached in an unexported field at construction works until a model is loaded.",
 ["nn", "optimizers", "mat/dense_marshaling.go"], [("gob of models", "nn/gob.go"), ("registrations", "nn/*/init"), ("optimizer states", "optimizers/*")],
 "abstract interpretation: the abstract heap of each constructed model is reduced to what gob keeps (field by field, by Go's type information), Forward is interpreted on what is left and compared with the model's formula; registrations are collected from the package initializers' SSA form",
 "The binary encoding of matrices themselves (flatbuffers) and gob's own encoding are taken to be faithful; pointers shared between two fields become separate after loading.")

prop("C25", "Random numbers end up where and as often as they should",
 "Initializers (uniform, normal, Xavier uniform and normal, Achlioptas, constant, ones, zeros, and the gain), the Bernoulli distribution, dropout, weighted choice, shuffling, unique random numbers and indices, and the initialization of models (LSTM, self and multi-head attention, gMLP's gating) make every number from a draw of its own by the documented formula, at its documented range, mean and deviation. Dropout's backward pass uses the mask and scale of its forward pass. Every outcome that should be possible is: unique numbers range over all of [0,max), shuffling over all elements, weighted choice over all weights by their share.",
 ["inputs"], "all draws and parameters, matrices of a few given small shapes, lists of up to three",
 "Tests compare with the numbers of one seed, or only look at ranges; an off-by-one range, a draw used twice, a swapped mean and deviation or a mask made anew in the backward pass looks just as random.",
 ["initializers", "mat/rand", "mat/gradfn/dropout.go", "nn"], [("initializers", "initializers/initializers.go"), ("distributions", "mat/rand/*"), ("dropout", "mat/gradfn/dropout.go"), ("samplers", "mat/rand/rand.go"), ("Init of models", "nn/*")],
 "abstract interpretation of the SSA form: each draw from the generator is a fresh name with its range, results are normal-form terms over the draws and are compared with the documented formula, element by element",
 "The generator itself is trusted to give independent numbers in its range. Arithmetic is that of the real numbers.")

prop("C26", "Operators that move or select elements give each its own gradient back",
 "At, RowView, ColView, Slice, RotateR, Concat, Stack, AppendRows, Softmax, ReduceMax, MaxPooling, ScalarMax, SparseMax and SparseMaxLoss give the numbers they define, and in the backward pass give every element of every operand that requires gradients exactly the gradient of the elements of the result it went to, wherever these lie, and zero to those that went nowhere. Operands that need no gradient get none and do not keep the others from theirs. None of them panics on operands it is meant for.",
 ["inputs"], "all values; any sizes for the moving operators (lists of up to three, thorough: four), given small shapes for the others",
 "Tests run one small example per operator, where the first row, a square shape, equal sizes or operands that all require gradients hide an index that is off.",
 ["mat/gradfn"], [("Backward of the functions", "mat/gradfn/*.go"), ("Slice, SetAt, SplitV, ExtractRow, ...", "mat/dense.go")],
 "abstract interpretation of the SSA form of constructor, Forward and Backward, matrix operations inlined, with a gradient of named elements; what AccGrad leaves in each operand is compared for every symbolic position",
 "Which of several equal maxima gets the gradient is not checked. Arithmetic is that of the real numbers.")

prop("N01", "Results are accurate to rounding and never overflow needlessly",
 "Every operation computes its result with a relative error of a few units in the last place for each arithmetic step, and intermediate results overflow or cancel only where the result itself does, for all finite inputs. Loss functions and softmax remain finite for large scores.",
 ["inputs"], "all finite float32 and float64 inputs",
 "Tests compare a handful of moderate numbers with tolerances.",
 ["mat/", "losses/"], [("vector kernels, exp, log, softmax", "mat/internal/f32, mat/internal/f64, mat/dense.go")],
 na="Rounding errors depend on the magnitudes of run-time values and on the order of additions inside hand-written assembly; a sound static bound (interval or affine error analysis) over arbitrary finite inputs is vacuous here (unbounded relative error of sums), so no useful verdict can be derived from the source.")

prop("N02", "Random numbers have the distribution they are named after",
 "The generators of mat/rand and the samplers built on them give numbers whose joint distribution is the one documented (uniform, normal, weighted choice), reproducibly for one seed.",
 ["inputs", "histories"], "all seeds and all sequences of calls",
 "A test draws a few thousand numbers from one seed.",
 ["mat/rand/", "initializers/"], [("LockedRand", "mat/rand/rand.go")],
 na="Statistical quality is a property of the numeric stream of the standard library's generator at run time; there is no construct in the source whose presence decides it.")

prop("N03", "Training converges and runs at the speed of the machine",
 "Training a model on learnable data reduces its loss to the reachable optimum, and forward, backward and optimization use the available processors without needless copies or waiting.",
 ["inputs", "schedules", "configurations"], "all data sets, models, hyperparameters and machines",
 "Tests train toy examples for a few steps and measure nothing.",
 ["nn/", "optimizers/", "ag/"], [("optimization loop", "optimizers/optimizers.go"), ("asynchronous operators", "ag/operator.go")],
 na="Convergence and performance quantify over data, hyperparameters and machines; neither is decided by any property of the source text that a sound static argument could bound.")
