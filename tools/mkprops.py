import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
T="The unit programs only print values computed at a handful of points and never compare them with anything, and the diagnostic programs sample a random pool; "
I="include/"
p("C01","Double exponential is accurate to a few ulp over its whole domain",
 "For every finite double x with -708 <= x <= 708 the fast double-precision exponential returns a finite value whose relative error against the true e^x is at most 4*2^-53.",
 ["inputs"],"all 2^64-ish doubles in [-708,708] (about 9.2e18 values)",T+"the domain has about 9e18 points, so a wrong coefficient, reduction constant or branch that matters only in a sub-range is not reached.",
 [I+"exp.h",I+"vdtcore_common.h"],[("argument reduction by a two-part log(2), Pade quotient, scaling by an exponent built from bits","include/exp.h fast_exp"),("floor helper","include/vdtcore_common.h fpfloor")],obs=["return value"])
p("C02","Single-precision exponential is accurate over its whole domain",
 "For every float x in [-87.3, 88.72283] the fast single-precision exponential returns a finite value whose relative error against the true e^x is at most 3*2^-24. Between -88 and -87.3, where results become subnormal, the error grows by at most one smallest subnormal.",
 ["inputs"],"all floats in [-88,88.72283]",T+"the ends of the range, where the scaling exponent saturates, are never exercised.",
 [I+"exp.h",I+"vdtcore_common.h"],[("reduction, polynomial, exponent scaling","include/exp.h fast_expf")],obs=["return value"])
p("C03","Double logarithm is accurate for every positive normal argument",
 "For every normal positive double x up to 1e307 the fast double-precision logarithm differs from the true ln x by at most a relative error of 2.5*2^-53, including arguments arbitrarily close to 1 (ln 1 being exactly 0).",
 ["inputs"],"all positive normal doubles up to the documented upper limit",T+"cancellation near 1 and the behaviour at every binade boundary need all-input reasoning.",
 [I+"log.h",I+"vdtcore_common.h"],[("exponent/significand split, rational approximation, two-part log(2) recombination","include/log.h fast_log")],obs=["return value"])
p("C04","Single-precision logarithm is accurate for every positive normal argument",
 "For every normal positive float x up to 1e38 the fast single-precision logarithm differs from the true ln x by at most a relative error of 2*2^-24, and ln 1 is exactly 0.",
 ["inputs"],"all positive normal floats up to the documented upper limit",T+"no test looks at relative error near 1 or at binade edges.",
 [I+"log.h",I+"vdtcore_common.h"],[("exponent/significand split and polynomial","include/log.h fast_logf")],obs=["return value"])
p("C05","Double sine and cosine are accurate in every quadrant of the documented range",
 "For every double x with |x| <= 5000 the fast double sine and cosine each differ from the true value by at most 2.5*2^-53 in absolute terms. For |x| <= pi/4 the sine moreover has relative error at most 2*2^-53 (plus one smallest subnormal).",
 ["inputs"],"all doubles in [-5000,5000], every quadrant and every reduction multiple",T+"there are thousands of reduction multiples and eight sign/swap cases; a wrong case or a truncated reduction constant only shows in some of them.",
 [I+"sincos.h",I+"sin.h",I+"cos.h"],[("three-part pi/4 reduction","include/sincos.h reduce2quadrant"),("quadrant swap and sign selection","include/sincos.h fast_sincos")],obs=["returned sine","returned cosine"])
p("C06","Single-precision sine and cosine are accurate over the documented range",
 "For every float x with |x| <= 5000 the fast single-precision sine and cosine each differ from the true value by at most 2*2^-24 in absolute terms, and for |x| <= pi/4 the sine has relative error at most 2*2^-24 (plus one smallest subnormal).",
 ["inputs"],"all floats in [-5000,5000]",T+"quadrant logic and the reduction constants are exercised only at a few sampled arguments.",
 [I+"sincos.h",I+"sin.h",I+"cos.h"],[("reduction and quadrant logic","include/sincos.h fast_sincosf")],obs=["returned sine","returned cosine"])
p("C07","Double tangent is backward accurate over the documented range, poles included",
 "For every double x with |x| <= 5000 the fast double tangent differs from tan x by at most 6*2^-53*|tan x| plus the effect of perturbing x relatively by 2*2^-53; for |x| below 1.1e-7, where a linear shortcut is used, the relative error stays below 40*2^-53.",
 ["inputs"],"all doubles in [-5000,5000], including those nearest to the poles",T+"arguments close to poles and close to the linear shortcut's threshold are practically never sampled.",
 [I+"tan.h"],[("reduction to the octant, rational approximation, reciprocal selection","include/tan.h fast_tan")],obs=["return value"])
p("C08","Single-precision tangent is backward accurate over the documented range",
 "For every float x with |x| <= 5000 the fast single-precision tangent differs from tan x by at most 6*2^-24*|tan x| plus the effect of perturbing x relatively by 2*2^-24.",
 ["inputs"],"all floats in [-5000,5000]",T+"pole neighbourhoods and threshold neighbourhoods are not reached.",
 [I+"tan.h"],[("reduction, polynomial, reciprocal selection","include/tan.h fast_tanf")],obs=["return value"])
p("C09","Double arcsine and arccosine are accurate on the whole of [-1,1]",
 "For every double x in [-1,1] the fast double arcsine has relative error at most 3*2^-53, and the fast double arccosine has absolute error at most 7*2^-53.",
 ["inputs"],"all doubles in [-1,1], including values one ulp from the ends and from the branch threshold",T+"the square-root singularity at 1 and the branch threshold are single points in a huge domain.",
 [I+"asin.h"],[("two rational approximations selected by a threshold, square-root branch with a split pi/4","include/asin.h fast_asin"),("arccosine from arcsine","include/asin.h fast_acos")],obs=["return value"])
p("C10","Single-precision arcsine and arccosine are accurate on [-1,1]",
 "For every float x in [-1,1] the fast single-precision arcsine has relative error at most 6*2^-24 and the fast single-precision arccosine absolute error at most 7*2^-24.",
 ["inputs"],"all floats in [-1,1]",T+"ends and branch threshold are not reached.",
 [I+"asin.h"],[("polynomial plus square-root branch","include/asin.h fast_asinf"),("arccosine from arcsine","include/asin.h fast_acosf")],obs=["return value"])
p("C11","Arctangent is accurate for every finite argument in both precisions",
 "For every finite double the fast double arctangent has relative error at most 3.5*2^-53, and for every finite float the fast single-precision arctangent has relative error at most 5*2^-24 (subnormal results excepted by at most one smallest subnormal).",
 ["inputs"],"all finite doubles and all finite floats",T+"the reduction thresholds tan(pi/8) and tan(3pi/8) and the extreme magnitudes are not reached.",
 [I+"atan.h"],[("two-threshold reduction, rational/polynomial approximation, pi/2 and pi/4 corrections","include/atan.h fast_atan, fast_atanf")],obs=["return value"])
p("C12","Two-argument arctangent: right quadrant and accuracy for every finite pair",
 "For every pair of finite values (y,x), not both zero, the fast two-argument arctangent differs from the true angle of the point (x,y) by at most a relative error of 4*2^-53 in double and 6*2^-24 in single precision (plus a few smallest subnormals), so quadrant and axis cases are right. Both-zero gives zero.",
 ["inputs"],"all pairs of finite doubles and all pairs of finite floats: all quadrants, axes, diagonals, overflow- and underflow-prone ratios",T+"pairs form a 2^128 space; axis, diagonal and extreme-ratio pairs are not sampled.",
 [I+"atan2.h"],[("operand swap, ratio reduction, octant and sign reconstruction","include/atan2.h fast_atan2, fast_atan2f")],obs=["return value"])
p("C13","Hyperbolic tangent is accurate and saturates correctly",
 "For every finite x the fast hyperbolic tangent has relative error at most 14*2^-53 (double) or 12*2^-24 (single), plus a few smallest subnormals, and is exactly +1 or -1 once |x| exceeds 20 (double) or 9.1 (single).",
 ["inputs"],"all finite doubles and floats",T+"the two thresholds and the saturation region are not compared with anything.",
 [I+"tanh.h"],[("rational branch for small arguments, exponential branch with early saturation for large ones","include/tanh.h fast_tanh, fast_tanhf")],obs=["return value"])
p("C14","Every inverse-square-root variant keeps its accuracy class on all normal inputs",
 "For every positive normal argument the accurate fast inverse square root is within relative error 5*2^-53 (double) and 6.6e-6 (single), the approximate variants within 4.2e-11 (double) and 2.2e-3 (single), and the plain versions within 2.5*2^-53 and 2.5*2^-24 of 1/sqrt(x).",
 ["inputs"],"all positive normal doubles and floats in all binades",T+"convergence of the Newton steps from the bit-trick seed over every mantissa and both exponent parities is never checked.",
 [I+"sqrt.h"],[("bit-level seed and Newton iterations","include/sqrt.h fast_isqrt_general and callers")],obs=["return value"])
p("C15","Every fast-reciprocal variant keeps its accuracy class and sign",
 "For every non-zero argument whose magnitude is normal and whose reciprocal is normal, the accurate fast reciprocal is within relative error 11*2^-53 (double) and 1.3e-5 (single), the approximate variants within 8.4e-11 and 4.4e-3, with the sign of the argument; the plain versions are correctly rounded quotients.",
 ["inputs"],"all positive and negative doubles and floats with normal reciprocal",T+"negative arguments and extreme magnitudes are not compared with anything.",
 [I+"inv.h",I+"sqrt.h"],[("square of the inverse square root of |x| times the sign","include/inv.h")],obs=["return value"])
p("C16","Odd and even functions are exactly symmetric",
 "Sine, tangent, arcsine, arctangent, hyperbolic tangent and the reciprocal return exactly negated results for negated arguments, and cosine returns the identical result, for every argument of their domain in both precisions (trigonometric functions: magnitude up to 5000; arcsine: up to 1; reciprocal: normal reciprocals).",
 ["inputs"],"every non-NaN bit pattern in the functions' domains",T+"no test evaluates a pair x, -x.",
 [I+"sincos.h",I+"tan.h",I+"asin.h",I+"atan.h",I+"tanh.h",I+"inv.h"],[("sign extracted, magnitude processed, sign reapplied","all listed headers")],obs=["return value bits"])
p("C17","Out-of-domain and special arguments give the documented limit values",
 "Beyond the documented limits the exponential returns exactly +infinity above and exactly 0 below, the logarithm returns NaN for negative arguments and +infinity above its upper limit, the arcsine of a magnitude above 1 is NaN, the arctangent of infinity is pi/2 with the right sign, and a NaN argument gives NaN for exponential, sine, cosine, tangent, arcsine, arccosine and arctangent.",
 ["inputs"],"all bit patterns outside the accuracy domains, including infinities and all NaN payloads",T+"special inputs are not part of the test points and results are not asserted.",
 [I+"exp.h",I+"log.h",I+"tanh.h",I+"asin.h",I+"atan.h",I+"sincos.h",I+"tan.h"],[("final overrides after the main computation","include/exp.h, include/log.h"),("saturation","include/tanh.h")],obs=["return value class"])
p("C18","Equivalent entry points return identical results",
 "The separate sine and cosine return bit for bit what the combined routine returns, the fixed-iteration inverse-square-root and reciprocal entry points equal the general ones with their iteration counts, the reciprocal equals its sign-free definition on positive arguments, and the identity functions return their argument unchanged, for every argument (sine and cosine: magnitude up to 1e9).",
 ["inputs"],"every bit pattern (sine and cosine: magnitudes up to 1e9)",T+"no test compares two entry points.",
 [I+"sin.h",I+"cos.h",I+"sincos.h",I+"sqrt.h",I+"inv.h",I+"identity.h"],[("thin wrappers over a shared routine","include/sin.h, include/cos.h, include/sqrt.h, include/inv.h")],obs=["return value bits"])
p("C19","Array functions apply their scalar function to every element, for every length",
 "After an array call with n elements, output element i equals the matching scalar function applied to input element i (elements i of both inputs for two-argument functions) for every i below n, for every generated array function and every n representable in the size argument.",
 ["inputs","programs"],"all lengths 0..2^32-1, all contents, every generated function in both precisions",T+"the array functions are only timed or compared on one fixed length; a wrong element, pairing, argument order or last-element bug in one of the ~90 generated functions is not seen.",
 ["src/signatures_generator.py","include/*.h"],[("generator emits one loop per function","src/signatures_generator.py")],obs=["output array contents"])
p("C20","Array functions touch only their first n elements and never write their inputs",
 "An array call of length n writes exactly the n first elements of its output, reads nothing beyond the n first elements of its inputs, writes nothing else, and always terminates, for every length including 0 and the largest one.",
 ["inputs","programs"],"all lengths and array positions, every generated array function",T+"out-of-bounds accesses by one element do not change the printed output.",
 ["src/signatures_generator.py"],[("loop bound and index","src/signatures_generator.py")],obs=["memory accesses"])
p("C21","Preload symbols forward to the fast routine of the same name",
 "When the library is generated with libm-override symbols, each overriding function returns exactly what the fast routine for the same mathematical function, precision and argument order returns.",
 ["inputs","configurations"],"every overridden libm symbol, every argument",T+"the default build does not even generate these symbols.",
 ["src/signatures_generator.py"],[("generator's preload section","src/signatures_generator.py")],obs=["return value bits"])
p("C22","In-domain calls run no undefined operation and raise no spurious FP exception",
 "For every argument in a function's documented domain no step performs an out-of-range float-to-integer conversion, out-of-range shift, division by zero, invalid operation or overflow; in particular zero arguments of the tangent and the two-argument arctangent are handled without 0/0.",
 ["inputs"],"all arguments in the documented domains of all scalar functions",T+"undefined conversions and raised flags are invisible in printed output; programs that enable FP traps are not part of the tests.",
 [I+"atan2.h",I+"tan.h",I+"exp.h",I+"log.h",I+"sincos.h",I+"sqrt.h",I+"inv.h"],[("guards against zero denominators","include/atan2.h, include/tan.h")],obs=["operand ranges at each conversion/division"])
p("C23","Bit-level helpers are exact on their domains",
 "Reinterpreting between floating-point and integer bit patterns is loss-free both ways, splitting a positive normal number into significand and exponent is exact (significand in [0.5,1), value recoverable), the sign mask/sign application round-trips, and the integer floor of an in-range value y lies in [y-1, y].",
 ["inputs"],"all bit patterns (floor: all values whose floor fits the integer type)",T+"helpers have no test of their own.",
 [I+"vdtcore_common.h"],[("union based punning","include/vdtcore_common.h"),("mask and shift based splitting","include/vdtcore_common.h")],obs=["return values"])
p("C24","Values written to a diagnostics file are read back bit for bit",
 "Converting any finite or infinite double or float value to the diagnostics' hexadecimal text form and back yields the identical bit pattern.",
 ["inputs"],"all bit patterns of both precisions",T+"only a few values are written and read in the comparison programs and they are not compared.",
 [I+"diagnostic/vdtdiag_filePersistence.h"],[("hexadecimal encoding of the bit pattern","include/diagnostic/vdtdiag_filePersistence.h")],obs=["decoded value"])
p("C25","The differing-bit measure is exact",
 "The number of differing bits reported for two values of the same precision is 0 exactly when their bit patterns coincide, is symmetric, and otherwise equals one plus the position of the highest bit of the absolute difference of the two bit patterns.",
 ["inputs"],"all pairs of bit patterns, both precisions",T+"the measure is only printed; equal values and differences close to powers of two are not examined.",
 [I+"diagnostic/vdtdiag_helper.h"],[("integer difference and base-2 logarithm","include/diagnostic/vdtdiag_helper.h diffbit")],obs=["return value"])
p("C26","Comparison statistics are the statistics of the recorded differences",
 "For two response sets of equal non-zero length, the reported minimum, maximum, mean and mean-square deviation are those of the element-wise bit differences, whatever the order and number of elements.",
 ["inputs","histories"],"all lengths and all contents",T+"statistics are printed and never compared.",
 [I+"diagnostic/vdtdiag_interfaces.h",I+"diagnostic/vdtdiag_fcnComparison.h"],[("single-pass accumulation","include/diagnostic/vdtdiag_interfaces.h")],obs=["statistics accessors"])
p("C27","Recorded responses pair every input with the function value at that input",
 "A response record built from an input set and a function has exactly one output per input, output i being the function applied to input i (to both coordinates in order for two-argument functions), and leaves the inputs unchanged.",
 ["inputs","programs"],"all input sets and all functions",T+"the tests only print responses.",
 [I+"diagnostic/vdtdiag_fcnResponse.h",I+"diagnostic/vdtdiag_interfaces.h"],[("construction loop","include/diagnostic/vdtdiag_fcnResponse.h")],obs=["stored outputs"])
p("C28","Random pools have the requested size and stay inside the requested range",
 "A random pool contains exactly the requested number of values, each inside the requested closed interval, and its contents depend only on interval, size and seed.",
 ["inputs"],"all intervals, sizes and seeds",T+"one fixed seed, size and interval is printed.",
 [I+"diagnostic/vdtdiag_random.h",I+"diagnostic/vdtdiag_interfaces.h"],[("affine map of a unit-interval draw","include/diagnostic/vdtdiag_interfaces.h fillVector")],obs=["pool contents"])
p("C29","Elapsed time of the diagnostics timer is exact",
 "The elapsed time reported between two readings of the clock equals their difference in nanoseconds, whatever the second boundary between them.",
 ["inputs","schedules"],"all pairs of clock readings",T+"elapsed times depend on the machine clock and are only printed; second-boundary crossings are rare.",
 [I+"diagnostic/vdtdiag_helper.h"],[("seconds and nanoseconds combination","include/diagnostic/vdtdiag_helper.h timer")],obs=["return value"])
p("C30","Results stay inside the mathematical range",
 "For every argument in the documented domain sine and cosine stay within 1+2^-50 (double) or 1+2^-21 (single) in magnitude, the exponential is positive, arctangent and arcsine stay within pi/2 and the arccosine within [0,pi] up to 4 ulp (2^-51 and 2^-22 at the lower end), and the hyperbolic tangent stays within 1+2^-50 or 1+2^-21 in magnitude.",
 ["inputs"],"all arguments of the documented domains",T+"range violations at isolated points are not sampled.",
 [I+"sincos.h",I+"exp.h",I+"atan.h",I+"asin.h",I+"tanh.h"],[("final reconstruction steps","listed headers")],obs=["return value"])
p("C31","Accuracy survives fused multiply-add contraction",
 "The accuracy bounds of all the fast functions still hold, within twice the stated bound (eight times for the most precise double-precision inverse square root and the reciprocal made from it), when the compiler fuses any subset of multiply-add pairs, as builds for FMA machines do.",
 ["inputs","configurations"],"all arguments of the accuracy domains and every contraction choice",T+"the tests run one build without FMA.",
 [I+"exp.h",I+"log.h",I+"sincos.h",I+"tan.h",I+"asin.h",I+"atan.h",I+"atan2.h",I+"tanh.h",I+"sqrt.h",I+"inv.h"],[("reduction steps that rely on exact products","include/exp.h, include/sincos.h, include/log.h")],obs=["return value"])
p("C32","Command-line options are recognised and keep their exact value",
 "Parsing accepts an argument list exactly when every argument names a declared option, by its short or long name, and none is given twice. After an accepted list an option counts as set exactly when it was given, and its value is the text after the first equal sign of its argument, empty if there is none.",
 ["inputs"],"all argument vectors",T+"the programs are run with one fixed command line.",
 [I+"diagnostic/vdtdiag_simpleCmd.h"],[("linear scan over the arguments","include/diagnostic/vdtdiag_simpleCmd.h")],obs=["option values"])
p("C33","Diagnostics files are read back exactly as they were written",
 "Writing a random pool, a set of responses or a comparison of any size to a file and constructing a new object from that file yields the same values bit for bit and in the same order, and for comparisons the same per-row differences and statistics. This holds for all contents, including infinities, NaN, negative zero and subnormal values.",
 ["inputs","histories"],"all sizes and all contents, both precisions, one and two inputs per row",T+"files are written and read once with a few finite values, and what is read is not compared with what was written.",
 [I+"diagnostic/vdtdiag_random.h",I+"diagnostic/vdtdiag_fcnResponse.h",I+"diagnostic/vdtdiag_fcnComparison.h",I+"diagnostic/vdtdiag_filePersistence.h"],[("header, statistics and rows of hexadecimal values","writeFile and the constructors from a file name"),],obs=["contents of the object read"])
p("C34","Calls do not interfere: the functions keep no state",
 "Every scalar and array function computes its results from its arguments alone, keeps nothing from one call to the next, writes nothing but its results and leaves the floating-point control state as it was. Any number of threads may therefore call any of the functions at once and get the same results as when calling them one after another.",
 ["schedules","histories","inputs"],"all interleavings of calls from any number of threads, all earlier calls, all arguments",T+"all of them run in a single thread, where a remembered value or a shared scratch variable goes unnoticed.",
 [I+"exp.h",I+"log.h",I+"sincos.h",I+"tan.h",I+"asin.h",I+"atan.h",I+"atan2.h",I+"tanh.h",I+"sqrt.h",I+"inv.h",I+"vdtcore_common.h","src/signatures_generator.py"],[("local variables only; constants and results passed by the caller","all scalar functions and the generated array functions")],obs=["return value","memory reachable by other threads","floating-point control word"])
p("C35","Every named entry of the diagnostic tables runs the function it names",
 "Each table lists every function once under its name, and each entry applies exactly the function of that name, in the precision and form (single value or array) of the table, to its arguments in their order; reference entries are the C library's functions. Each entry refers to the pool of inputs meant for the function's domain, and filling a table again replaces its contents.",
 ["inputs","configurations"],"all entries of the eight tables, all arguments, all pools",T+"a table that runs the wrong function, or the right one on the wrong inputs, still runs and prints plausible numbers.",
 [I+"diagnostic/vdtdiag_fcnTuples.h",I+"diagnostic/vdtdiag_helper.h"],[("tables of name, function and pool","include/diagnostic/vdtdiag_fcnTuples.h"),("forwarding to the C library","include/diagnostic/vdtdiag_helper.h reference functions")],obs=["table entries"])
p("C36","Benchmark averages cover exactly the timed calls",
 "The mean time per call a benchmark reports is the time spent in its measured repetitions, warm-up excluded, divided by the number of calls made in them, for every number of inputs and repetitions. Each repetition applies the function once to every input, in order, and nothing else is timed. The reported uncertainty is formed from the same durations and the same number of calls.",
 ["inputs","configurations"],"all durations, fewer than 2^32 inputs and 2^31 repetitions, both precisions, single-value and array functions of one and two inputs",T+"timings differ from run to run, so no test compares them with anything; wrong counts appear only for many inputs or repetitions.",
 [I+"diagnostic/vdtdiag_fcnPerformance.h"],[("timed repetitions and their sums","include/diagnostic/vdtdiag_fcnPerformance.h measurement functions"),("mean and error","include/diagnostic/vdtdiag_fcnPerformance.h")],obs=["mean","error on the mean"])
p("C37","Generated C wrappers compute the fast function of their name",
 "Every scalar function of the generated wrapper library returns exactly what the fast function of its name and precision returns; identity, square root, division and the two multiply-adds are the operations of these names in that precision. Every array function of the library stores exactly these values, element by element and with the operands in the declared order, in the first n elements of each output. It reads and writes nothing else, for every n.",
 ["inputs","configurations"],"all arguments, all array lengths including 0, all wrapped functions in both precisions",T+"the wrappers are generated text that the project's tests neither generate nor call.",
 ["src/numpy_wrapper_generator.py","include/stdwrap.h","src/fatlib.h"],[("generated wrappers","src/numpy_wrapper_generator.py"),("wrapped elementary operations","include/stdwrap.h")],obs=["results of the exported functions"])
p("C38","Python extension applies each function element by element for all strides",
 "The Python extension module offers every wrapped function under its own name, with the right numbers of inputs and outputs and one loop for each precision, whichever version of Python it is built for. For every number of elements and all strides of the operands, element i of each output receives the result of the function of that name and precision on element i of the inputs. No other element is read or written.",
 ["inputs","configurations"],"all operand contents, all element counts, all byte distances between elements (also negative or zero for inputs), both interpreter versions, both precisions",T+"the extension is not built by the project's tests; contiguous arrays alone would not show a wrong stride.",
 ["src/vdtNumpyWrapper.c","src/numpy_wrapper_generator.py"],[("element loops","src/vdtNumpyWrapper.c loop functions"),("table of offered functions","src/vdtNumpyWrapper.c module initialisation")],obs=["offered functions","output elements"])
p("C39","Displayed bits of a value are its sign, exponent and mantissa bits",
 "The text that displays the bits of a floating-point number is its sign bit, its exponent bits and its mantissa bits, each most significant bit first, written with the characters 0 and 1. One blank separates the three groups, and nothing is left out or added.",
 ["inputs"],"every bit pattern of both precisions, NaN included",T+"the text is only printed, next to the difference it explains.",
 [I+"diagnostic/vdtdiag_helper.h"],[("bits as text","include/diagnostic/vdtdiag_helper.h formatted bit string")],obs=["text"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
