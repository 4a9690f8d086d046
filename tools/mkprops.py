"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

prop("C01", "qis: integer population, and conv is true exactly when every marginal is met",
 "Whenever qis returns, the result is an array of non-negative integers whose shape is the one implied by the marginals and whose total is the reported population (the total of every marginal). The reported conv flag is true if and only if summing the result over the dimensions absent from a marginal reproduces that marginal exactly, for every marginal supplied.",
 ["inputs", "configurations"],
 "Every list of marginals qis accepts (any number of dimensions and marginals, marginals of any rank, any order of dimensions in a marginal, overlapping or not, jointly consistent or not, zero cells, dimensions of size one, populations from 0 to at least hundreds of thousands), any skips, from Python and from R.",
 "The tests check a couple of dozen converging problems, mostly disjoint 1-d marginals; conv=False is never compared with the marginals of the result.",
 ["src/QIS.cpp", "src/QIS.h", "src/Microsynthesis.h", "src/module.cpp", "src/rcpp_api.cpp"],
 [("one unit is added to the table and removed from every marginal per individual; conv cleared if a residual goes negative", "src/QIS.cpp solve_m")],
 ["return value of qis (Python and R)"],
 [("residual marginals", "what remains to be allocated", "Microsynthesis::m_marginals"), ("table", "population allocated so far", "Microsynthesis::m_array")])

prop("C02", "qis always succeeds on jointly consistent, decomposable marginals",
 "If the marginals can be listed in an order in which the dimensions each one shares with all the earlier ones are contained in a single earlier one (this includes any set of disjoint marginals), and any two marginals agree on the totals over the dimensions they share, then qis raises no error and returns conv true with every marginal reproduced exactly, provided they are supplied in such an order. This holds whatever the sizes, the zero cells, the order of dimensions within marginals, the population and the number of skips.",
 ["inputs", "configurations"],
 "All listings of disjoint or chained/tree-like overlapping marginals with equal overlaps, for all skips; dimensions up to about a dozen.",
 "Needs every residual state on every sampling path to stay consistent; tests sample only a handful of Sobol paths, mostly for 1-d marginals.",
 ["src/QIS.cpp", "src/NDArrayUtils.h", "src/Index.cpp", "src/Microsynthesis.h"],
 [("sampling without replacement from the residual marginals, conditionally on the dimensions already assigned", "src/QIS.cpp sample, recursive_sample"), ("partial sums and slices of n-d arrays", "src/NDArrayUtils.h reduce, slice")],
 ["return value of qis"])

prop("C03", "qis samples without replacement, one quasirandom point per individual",
 "The qis result is the one obtained by consuming one point of the d-dimensional Sobol sequence per individual and assigning dimensions marginal by marginal in the order listed (last to first within a marginal, skipping those already assigned), each coordinate choosing by inverse cumulative distribution from the marginal's residual counts given the dimensions already assigned, after which one unit is removed from every marginal. The points used start immediately after an initial segment whose length is the largest power of two below skips (one point when skips is 0 or 1), and nothing else influences the result.",
 ["inputs", "configurations"],
 "All accepted marginals and all skips in [0, 2^32).",
 "Tests pin only a few complete results; a different but plausible sampler still reproduces the marginals.",
 ["src/QIS.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp"],
 [("pick / recursive_sample / sample", "src/QIS.cpp"), ("Sobol::skip", "src/Sobol.cpp, src/SobolImpl.cpp")],
 ["return value of qis"])

prop("C04", "qis: expectation and pop are the true reference distribution and total",
 "The expectation returned by qis is, cell by cell, proportional to the product of the marginal values covering that cell and is scaled to sum to the population; for disjoint marginals it is therefore exactly the independent distribution and reproduces every marginal. It is computed from the marginals as supplied: it does not depend on skips or on the sample drawn, and pop is the total of each marginal.",
 ["inputs", "configurations"],
 "All accepted marginals (for which some cell has positive product, or the population is zero) and all skips.",
 "Tests never look at the expectation of qis beyond a single case, never with overlapping or higher-rank marginals.",
 ["src/QIS.cpp", "src/Microsynthesis.h"],
 [("computeStateValues and scaling in the constructor, before sampling", "src/QIS.cpp")],
 ["'expectation' and 'pop' in the statistics returned by qis"])

prop("C05", "ipf reports truthfully on the fit it returns",
 "Whenever ipf returns, maxError is the largest absolute difference between a marginal cell and the corresponding sum of the returned array, conv is true if and only if maxError is below 1e-8 (never when any value is not a number), pop is the total of the marginals rounded to the nearest integer, and iterations is between 1 and 1000 and is 1000 if not converged. The returned array has the shape of the seed, is non-negative, and is zero wherever the seed is zero.",
 ["inputs"],
 "Every seed/marginals problem accepted by ipf, feasible or not, of any rank, with or without zeros, with fractional or integer marginals, at any scale, from Python and from R.",
 "Tests check a dozen converging problems; no test has an infeasible problem and none recomputes maxError.",
 ["src/IPF.h", "src/Microsynthesis.h", "src/module.cpp", "src/rcpp_api.cpp"],
 [("computeErrors, iteration loop", "src/IPF.h"), ("rDiff", "src/Microsynthesis.h")],
 ["return value of ipf"])

prop("C06", "ipf finds the one solution that keeps the seed's interaction structure",
 "If some array equals the seed multiplied, for each marginal, by a positive factor depending only on that marginal's dimensions, and has the required marginals, then ipf converges to that array (it is unique). Consequently the odds ratios and zeros of the seed are preserved, and the answer does not depend on the scale of the seed, on how dimensions are numbered, on the order of the marginals or on the order of dimensions within a marginal.",
 ["inputs", "configurations"],
 "All positive or sparse seeds of any rank and all marginal structures (disjoint, overlapping, covering all dimensions, not covering every interaction), with well-scaled factors so that 1000 iterations suffice.",
 "The tests compare marginals and a few constant seeds; a fit that reproduces the marginals but distorts the seed's structure passes them.",
 ["src/Microsynthesis.h", "src/IPF.h", "src/NDArrayUtils.h", "src/Index.cpp"],
 [("rScale: multiplicative update per marginal", "src/Microsynthesis.h")],
 ["return value of ipf"])

prop("C07", "qisi: integer population, truthful conv, seed zeros stay empty",
 "Whenever qisi returns, the result is an array of non-negative integers of the seed's shape whose total is the reported population, conv is true if and only if every marginal is reproduced exactly, and no cell that is zero in the seed is occupied. The expectation returned is the ipf solution for the same seed and marginals.",
 ["inputs", "configurations"],
 "Every seed/marginals problem qisi accepts and completes, any rank, sparse or dense seeds, overlapping or disjoint marginals, any skips, from Python and from R.",
 "Tests use one or two small problems, all converging, and compare only marginals.",
 ["src/QISI.cpp", "src/IPF.h", "src/Microsynthesis.h"],
 [("sampling from the fitted distribution, decrementing cell and marginals; refit when a cell is exhausted", "src/QISI.cpp solve")],
 ["return value of qisi (Python and R)"])

prop("C08", "qisi samples the fitted distribution with quasirandom points and always fits",
 "qisi allocates individuals one at a time, each by inverse cumulative distribution (last dimension first, then conditionally downwards) of one Sobol point over the fitted array, which loses one unit in the chosen cell and is refitted from the seed to the remaining marginals whenever that cell becomes negative; the points used are those following the segment skipped (the largest power of two below skips, or none when skips is 0). With a strictly positive well-scaled seed and disjoint marginals it never fails: conv is true and every marginal is met exactly.",
 ["inputs", "configurations"],
 "All strictly positive seeds for the guarantee; seeds of product form for the exact law (there the fitted array is known exactly); all skips.",
 "Tests pin two results and never vary skips.",
 ["src/QISI.cpp", "src/Sobol.cpp", "src/IPF.h"],
 [("getIndex, pick", "src/QISI.cpp"), ("recomputeIPF", "src/QISI.cpp")],
 ["return value of qisi"])

prop("C09", "1-d integerisation returns the closest integer vector with the right total",
 "Given non-negative fractional values and a population (in Python, in R, or through the one-argument form for a 1-d array whose total is integral), the result is a vector of non-negative integers that sums exactly to the population and minimises the mean squared difference from the values rescaled to that population, so every entry is within one of its rescaled value and integral inputs come back unchanged. The reported rmse is the root mean square of those differences.",
 ["inputs"],
 "Every non-empty non-negative vector with positive total, every population from 0 to 2^31-1, any length.",
 "Tests use about ten short vectors; optimality is never checked against alternatives.",
 ["src/Integerise.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
 [("round down then give the remainder to the largest fractional parts", "src/Integerise.cpp integeriseMarginalDistribution")],
 ["return values of integerise (Python), integerise and prob2IntFreq (R)"])

prop("C10", "n-d integerisation keeps the 1-d marginals, exactly when it says so",
 "For an array of two or more dimensions whose 1-d totals are all integral (within 1e-4), integerise returns non-negative integers of the same shape and total, zero where the input is zero, with conv true if and only if all 1-d totals are preserved; with strictly positive input conv is always true, and an array that is already integral comes back unchanged. rmse is the root mean square difference between result and input, and an array whose totals are not integral is rejected.",
 ["inputs"],
 "Every non-negative array of rank 2 or more with integral one-dimensional totals; every array violating that for the rejection; Python and R.",
 "Tests use three arrays.",
 ["src/Integerise.cpp", "src/QISI.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
 [("1-d marginals rounded and passed to the quasirandom sampler with the array as seed", "src/Integerise.cpp Integeriser")],
 ["return value of integerise (Python and R)"])

prop("C11", "the quasirandom generator produces the published Sobol sequence",
 "In every dimension up to 1111, the n-th point produced is the n-th point of the Joe-Kuo Sobol sequence in Gray-code order (a multiple of 2^-32 strictly between 0 and 1, starting with 0.5 in every coordinate). Hence, together with the origin, every aligned block of 2^k consecutive points puts exactly one point in each interval of length 2^-k in every coordinate.",
 ["inputs", "configurations"],
 "All dimensions 1..1111, all coordinates, all positions up to 2^32-1, from Python and R.",
 "Tests compare a few dozen values in few dimensions; most of the 1110-column direction-number table and all high-order bits are never looked at.",
 ["src/SobolImpl.cpp", "src/SobolData.h", "src/Sobol.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
 [("direction numbers: table plus recurrence", "src/SobolImpl.cpp sobol_init"), ("Gray-code update", "src/SobolImpl.cpp sobol_gen")],
 ["values from SobolSequence (Python) and sobolSequence (R)"])

prop("C12", "Sobol generators: exact skips, independent streams, clean limits",
 "A generator created with skips = n > 0 begins right after the largest power of two of points below n (after one point for n = 1), and with no skips at the first point; from there each step yields exactly the next point, whatever other generators or samplers are created, advanced or destroyed in between. Each yielded array is independent of later steps, iteration stops cleanly (StopIteration) after point 2^32-1, and dimensions outside 1..1111 are refused.",
 ["histories", "inputs"],
 "All interleavings of creation, stepping and destruction of several generators mixed with qis/qisi/integerise calls; all skips in [0, 2^32); exhaustion of the sequence.",
 "Tests step one generator at a time with three or four skip values; exhaustion takes 2^32 steps.",
 ["src/Sobol.cpp", "src/SobolImpl.cpp", "src/module.cpp"],
 [("nlopt_sobol_skip", "src/SobolImpl.cpp"), ("SobolGenerator", "src/module.cpp")],
 ["__next__ of SobolSequence; sobolSequence in R"],
 [("stream position", "number of points already consumed", "SobolData::n")])

prop("C13", "flatten lists every individual exactly once, in order",
 "For an array of non-negative counts, flatten returns one column per dimension and one row per individual, such that each cell's coordinates occur exactly as many times as its count, with rows in row-major (last index fastest) order of the cells; R uses 1-based categories and the given column names. An array with a negative count is refused.",
 ["inputs"],
 "Arrays of any rank, shape and counts (including zero cells, all zero, dimensions of size one, counts in the tens of thousands).",
 "Tests check column totals of a few 2- to 5-d results.",
 ["src/NDArrayUtils.h", "src/module.cpp", "src/rcpp_api.cpp", "src/Index.cpp"],
 [("listify", "src/NDArrayUtils.h")],
 ["return value of flatten (Python and R)"])

prop("C14", "malformed problems are refused, well-formed ones are accepted, uniformly",
 "ipf, qis and qisi raise an error if the lists differ in length or have fewer than two marginals, a marginal's rank differs from its index list or repeats a dimension, dimension numbers are not exactly 0..d-1 with d at least 2, a dimension is given two sizes, totals (rounded to the nearest integer) or the one-dimensional totals of a shared dimension disagree, a total cannot be represented, any value is negative or not finite, the seed's shape or values are invalid, or skips is out of range. Otherwise the problem is accepted: no call fails for any other structural reason, and the three functions give the same verdict on the same problem.",
 ["inputs"],
 "All lists of indices and marginals over small ranks and sizes, seeds of all shapes, single and multiple faults, from Python and (1-based) R.",
 "Tests try about fifteen malformed calls, one fault each.",
 ["src/Microsynthesis.h", "src/IPF.h", "src/QISI.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
 [("constructor validation", "src/Microsynthesis.h Microsynthesis, createMappings"), ("seed validation", "src/IPF.h solve, src/QISI.cpp solve")],
 ["error or result of ipf, qis, qisi"])

prop("C15", "calls are pure: inputs untouched, results depend on arguments alone",
 "No call modifies any array or list passed to it, and the value returned (including statistics) is a function of the arguments only: repeating a call, before or after any other calls, after calls that failed, or between steps of live generators, gives an identical result. Returned arrays are never altered by later calls, nor do changes made to them affect later results.",
 ["histories", "inputs"],
 "All sequences of calls to all functions, with shared argument arrays, failing calls and mutation of earlier results in between.",
 "Each test makes isolated calls and never looks at its inputs or earlier results again.",
 ["src/module.cpp", "src/rcpp_api.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/Integerise.cpp"],
 [("arguments copied before in-place work on marginals", "src/module.cpp toNDArray"), ("results copied out", "src/module.cpp fromNDArray")],
 ["arguments and results of sequences of calls"])

prop("C16", "only the logical contents of an array argument matter",
 "Every function gives the same result for arguments with equal shape and values, whatever their memory layout (row-major, column-major, transposed, sliced with any strides, reversed, broadcast, read-only) and whatever integer or floating type or nested list holds them. This applies to seeds, marginals, index lists, populations and fractional arrays alike.",
 ["inputs"],
 "All layouts and element types that can represent the values, for each array argument of each function.",
 "All tests pass freshly built contiguous arrays of the native type.",
 ["src/module.cpp"],
 [("conversion of numpy arrays", "src/module.cpp array_t, toNDArray, asNDArray")],
 ["results of all Python functions"])

prop("C17", "R and Python give the same answers, with indices in R's convention",
 "Calling an R function gives the result of the same Python/C++ computation with the dimensions numbered in reverse (and from 1), marginals listed in reverse and arrays interpreted column-major: result, expectation, convergence, population and statistics all agree, and the logical array (element at given coordinates) is what the marginals supplied to R describe. This holds for qis, qisi, ipf, integerise, prob2IntFreq, flatten and sobolSequence.",
 ["inputs", "configurations"],
 "All problems expressible in both front ends.",
 "The two test suites are separate and share few cases; none has asymmetric overlapping marginals in permuted order with results checked cell by cell.",
 ["src/rcpp_api.cpp", "R/RcppExports.R", "src/RcppExports.cpp", "src/module.cpp"],
 [("reversal of dimensions and lists, column-major conversion", "src/rcpp_api.cpp")],
 ["results of both front ends"])

prop("C18", "chiSq and pValue are the statistics of the returned table",
 "The chiSq returned by qis and qisi is the sum over cells of (result - expectation)^2 / expectation for the returned arrays (cells with zero expectation and zero count contributing nothing), so it is zero exactly when they coincide. pValue lies in [0,1] and is the upper tail probability of the chi-squared distribution at chiSq with (size-1) multiplied over all dimensions as degrees of freedom (1 if there are none).",
 ["inputs"],
 "All problems that qis and qisi complete, including zero marginal entries, small and large statistics (up to the point where the tail probability underflows) and up to hundreds of degrees of freedom.",
 "Tests check only that p-values exceed a threshold, and a few values of the incomplete gamma function.",
 ["src/StatFuncs.h", "src/StatFuncs.cpp", "src/QIS.cpp", "src/QISI.cpp"],
 [("chiSq", "src/StatFuncs.h"), ("gamain, pValue, dof", "src/StatFuncs.cpp")],
 ["'chiSq' and 'pValue' in the statistics returned by qis and qisi"])

prop("C19", "every call ends in a result or an error",
 "Whatever well-typed arguments are given - empty, zero-dimensional or zero-total arrays, negative, huge, infinite or not-a-number values, infeasible or contradictory problems, wrong shapes, repeated or out-of-range dimensions, out-of-range skips - every function terminates, after work bounded by the array sizes, the population and the points skipped, with either a result or an ordinary exception. The process neither crashes nor hangs, and remains usable afterwards.",
 ["inputs", "fault_sequences"],
 "All well-typed arguments of all functions in Python and R, in any sequence within one process.",
 "Tests contain only a few malformed calls; crashes and hangs appear on input classes they do not contain.",
 ["src/module.cpp", "src/rcpp_api.cpp", "src/Microsynthesis.h", "src/IPF.h", "src/QISI.cpp", "src/Integerise.cpp", "src/NDArray.h", "src/Index.cpp"],
 [("input validation and bounded iteration", "all entry points")],
 ["outcome of each call and of a probe call afterwards"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
