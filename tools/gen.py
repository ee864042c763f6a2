#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEST = 'The only test program (check/) prints results of a handful of fixed calls and asserts nothing. '
P = []
def prop(id, title, statement, over, q, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note))

prop('B01', 'A bit field is an independent array of bits over the memory given to it',
 'After any history of operations, every bit reads as the last value written to it: setting, clearing, toggling or writing a bit or a field of up to 32 bits (also one that straddles words) changes exactly the addressed bits, and reading a field returns exactly its bits, for every position and width; setAll, clearAll, dump, size and the bit/field access operators agree with that array. '
 'Fields of no or more than 32 bits and a bit field without area are refused without changing any bit, and no operation addressed to existing bits reads or writes memory outside of the area given at setup.',
 ['inputs', 'histories'], 'all sequences of bit-field operations, over areas of 1..64 words, at every offset and width',
 TEST + 'A field write touches 1 or 2 words depending on offset and width: 32 widths x 32 offsets x neighbours, in any history.',
 ['src/bitfield.cpp', 'src/include/bitfield.hpp'], [('readUINTn/writeUINTn masks', 'src/bitfield.cpp'), ('slot/offset arithmetic', 'src/include/bitfield.hpp')],
 'ASan/UBSan + online shadow-bit-array monitor over random operation histories and an exhaustive offset x width sweep', 'shadow array of bool updated per operation is the oracle; memory area is a multiple of 4 bytes and aligned, as the interface requires')
prop('K01', 'Checksums equal the published CRC algorithms for every message',
 'For every byte string, each predefined CRC-8/16/32 mode and every generic parametrisation (polynomial, initial value, reflected input/output, final XOR) returns the remainder defined by polynomial division, whatever the alignment or length of the data. '
 'The data is not modified, nothing outside of it is read, and null or empty data yields zero.',
 ['inputs', 'configurations'], 'all messages and all CRC parameters of width 8, 16 and 32',
 TEST + 'Checksums of a few strings cannot separate parametrisations that differ only for some initial values, reflections or lengths.',
 ['src/crc.cpp', 'src/include/crc.hpp'], [('crc::generic shift register and reflection', 'src/crc.cpp'), ('predefined parameter sets', 'src/include/crc.hpp')],
 'differential monitor against an independent bit-string long division, under ASan/UBSan', 'reference is long division over bit strings plus the published check values of "123456789"')
prop('T01', 'A delay line returns every past sample at its delay',
 'After any sequence of insertions, index i of a tapped delay line of n elements returns the sample inserted i steps ago (or the initial value if there was none), index -1 the oldest one and any other index not-a-number; the most recent and oldest taps agree with that, flush and setup make every tap the given value, and a transport delay of n samples outputs the input of n steps ago. '
 'Only the n elements of the user storage are accessed, for every n >= 1.',
 ['inputs', 'histories'], 'all window sizes n >= 1 and all histories of insert/flush/setup/read',
 TEST + 'The buffer wraps around: an off-by-one is visible only for particular sizes and phases.',
 ['src/tdl.cpp', 'src/include/tdl.hpp', 'src/include/ltisys.hpp'], [('circular head/rd/wr pointers', 'src/tdl.cpp'), ('transportDelay', 'src/include/ltisys.hpp')],
 'ASan/UBSan + online history monitor (deque of all samples)', 'the oracle is the recorded history of inserted samples')
prop('S01', 'Sliding-window smoothers compute their window statistic at every sample',
 'After any sample sequence, the moving-window smoothers return the mean of exactly the last n samples (both variants agreeing within rounding), the Gaussian-window smoother returns the normalised-kernel weighted sum of the last n samples kernel element i weighting the sample of i steps ago, and the outlier removers return the mean of their window in place of a sample that deviates from it by more than the configured fraction of it and the sample itself otherwise, the returned value entering the window. '
 'After a (re)start the window behaves as filled with the first sample, and no memory outside of the window storage is touched.',
 ['inputs', 'histories'], 'all window sizes and sample sequences, including outliers and restarts',
 TEST + 'A window that drops or double-counts one sample is wrong only after it wraps.',
 ['src/smoother.cpp', 'src/include/smoother.hpp'], [('windowSet/windowSmooth helpers and tdl based windows', 'src/smoother.cpp')],
 'online reference-model monitor in double precision with a rounding-error budget, under ASan/UBSan', 'tolerance derived from the magnitude of the window contents; kernel checked for normalisation and shape')
prop('S02', 'Recursive smoothers follow their difference equations and keep constants',
 'For every admissible parameter and every sample sequence, the first/second order low-pass, exponential-weighting, Kalman, double-exponential and adaptive linear smoothers produce the output of their recurrence started from the first sample. '
 'In steady state a constant input is reproduced, the Kalman gain settles on its fixed point, and the adaptive filter reduces its error on a predictable signal.',
 ['inputs', 'histories', 'configurations'], 'all parameters in their domain, all sample sequences',
 TEST + 'Recursive state errors appear only after particular sample histories.',
 ['src/smoother.cpp', 'src/include/smoother.hpp'], [('smooth() of LPF1, LPF2, EXPW, KLMN, DESF, ALNF', 'src/smoother.cpp')],
 'online reference-model monitor in double precision plus steady-state invariants, under ASan/UBSan', 'recurrences as implemented and documented; tolerance from a single-precision shadow run')
prop('S03', 'Smoother configuration is validated, and a restart forgets the past',
 'A setup with parameters outside of their domain (or without storage) is refused and leaves the smoother behaving exactly as before the call. '
 'After a reset or a new setup the next outputs are those of a freshly configured smoother, independent of all earlier samples and of the previous contents of the storage.',
 ['inputs', 'histories', 'configurations'], 'all interleavings of setup (valid or not), reset and samples',
 TEST + 'Needs comparing twins over histories that mix refused calls, restarts and samples.',
 ['src/smoother.cpp', 'src/include/smoother.hpp'], [('parameter checks of setup', 'src/smoother.cpp'), ('reset and first-sample initialisation', 'src/smoother.cpp')],
 'twin-instance trace monitor (refused-call and restart histories), under ASan/UBSan', 'the covariance of the Kalman smoother is kept by reset by design and excluded')
prop('R01', 'The running RMS estimate converges to the true RMS and scales with the signal',
 'For every window and signal the estimate is the low-pass filtered window mean of the root of the exponentially weighted mean square, with the configured forgetting and smoothing factors, lies between the smallest and largest magnitudes seen, is even in its input and homogeneous of degree one. '
 'On a periodic signal it converges to the RMS value of the signal.',
 ['inputs', 'histories'], 'all windows, parameters and sample sequences',
 TEST + 'Convergence and homogeneity are statements about whole histories.',
 ['src/rms.cpp', 'src/include/rms.hpp'], [('rms::update', 'src/rms.cpp')],
 'online reference-model monitor plus metamorphic symmetry monitor, under ASan/UBSan', 'double-precision model with rounding budget')
prop('N01', 'Integration and differentiation states follow the selected formula',
 'Every integrate or derive call of a numerical state returns the value of the currently selected formula applied to the current and the two previously stored samples, and stores the new sample only when asked to. '
 'Each method is exact on the polynomials it is meant to be exact for, and instances do not influence each other.',
 ['inputs', 'histories', 'configurations'], 'all interleavings of integrate, derive, init and method changes',
 TEST + 'The order in which past samples are shifted matters only after three or more calls.',
 ['src/numa.cpp', 'src/include/numa.hpp'], [('nState::integrate/derive/update', 'src/numa.cpp')],
 'online formula monitor over interleaved histories, under ASan/UBSan', 'double-precision evaluation of the documented formulas')
prop('L01', 'A discrete system realises its transfer function',
 'For every proper discrete transfer function (numerator and denominator of any lengths, not necessarily normalised), initial state and input sequence, the output sequence is that of the difference equation defined by the coefficients given at setup. '
 'A stable system driven by a constant settles at its static gain, a FIR update returns the convolution with its taps, every way of defining a system gives the same response, and no access leaves the user arrays.',
 ['inputs', 'histories', 'configurations'], 'all coefficient arrays with n_a, n_b >= 1, all input sequences',
 TEST + 'Errors depend on the relation of both lengths, normalisation and the history.',
 ['src/ltisys.cpp', 'src/include/ltisys.hpp'], [('discreteSystem::update, normalize, updateFIR', 'src/ltisys.cpp')],
 'online difference-equation monitor (double precision, with single-precision shadow for conditioning), under ASan/UBSan', 'tolerance scales with the amplification measured by the shadow run')
prop('L02', 'A continuous system follows the differential equation of its transfer function',
 'For every proper continuous transfer function, integration method, time step and input sequence, the output is that of its canonical state equations advanced with the selected integration rule, including direct feed-through and initial states. '
 'With a small step the response approaches the exact one, and the steady state of a constant input is the static gain.',
 ['inputs', 'histories', 'configurations'], 'all orders, coefficients, integration methods and input sequences',
 TEST + 'Depends on order, feed-through, integration rule and history.',
 ['src/ltisys.cpp', 'src/include/ltisys.hpp', 'src/numa.cpp'], [('continuousSystem::update and setup', 'src/ltisys.cpp')],
 'online state-equation monitor plus matrix-exponential truth monitor, under ASan/UBSan', 'double-precision oracle; single-precision shadow measures conditioning')
prop('L03', 'LTI saturation, delay, linearity and parameter checks',
 'The output of any LTI system is always inside the configured saturation limits, and equals the clamped response of the same system to the input delayed by the configured number of samples. '
 'Without saturation the systems are linear and time invariant; invalid parameters are refused and an unconfigured system answers zero.',
 ['inputs', 'histories', 'configurations'], 'all systems, limits, delays and input sequences',
 TEST + 'Twin and superposition relations cannot be sampled by fixed outputs.',
 ['src/ltisys.cpp', 'src/include/ltisys.hpp'], [('ltisys::excite, saturate, setDelay, setSaturation', 'src/ltisys.cpp')],
 'bit-exact twin monitor and superposition monitor, under ASan/UBSan', 'a delay buffer of n elements delays by n-1 samples')
prop('P01', 'PID limits, anti-windup, bumpless transfer and guarded settings always hold',
 'Whatever the gains, samples, modes and settings, the control action is inside the saturation limits in force; after saturation of any length the integral action recovers without windup, and switching between automatic and manual mode does not bump the output around an equilibrium. '
 'Settings outside of their domain are refused without effect, a controller that is not set up refuses everything, and reset or a repeated setup restores the initial behaviour exactly.',
 ['inputs', 'histories', 'configurations'], 'all settings and all sequences of samples, mode changes and resets',
 TEST + 'Windup and bumps are properties of long histories with saturation and mode changes.',
 ['src/pid.cpp', 'src/include/pid.hpp'], [('saturate, back-calculation tracking, manual mode', 'src/pid.cpp'), ('parameter checks of the setters', 'src/pid.cpp')],
 'online bound/recovery/bump monitors and twin monitors over hostile histories, under ASan/UBSan', 'samples that already produced NaN by overflow are skipped')
prop('P02', 'The PID control law is the documented one for every history',
 'For every sequence of settings (parallel or series form, set-point weights, derivative filter, dead band, direction, integration/derivation method, tracking) and samples, each control action equals the documented law evaluated on the error, its integral and its filtered derivative, then limited. '
 'Gains read back are the ones in force.',
 ['inputs', 'histories', 'configurations'], 'all settings sequences and sample sequences',
 TEST + 'The law has internal state (integral, derivative filter, tracking) that only histories expose.',
 ['src/pid.cpp', 'src/include/pid.hpp', 'src/numa.cpp'], [('pidController::control, error', 'src/pid.cpp')],
 'online control-law monitor in double precision with single-precision shadow, under ASan/UBSan', 'tolerance from the shadow run')
prop('P03', 'Auto-tuning identifies the plant and adaptation tracks the model',
 'On a first-order plant, auto-tuning completes after exactly the requested number of steps, reports completion once, and then sets the gains the tuning rule prescribes for the identified plant; before that (and with an unlimited number of steps) gains stay untouched. '
 'Model-reference adaptation moves the plant output towards its reference model.',
 ['inputs', 'histories', 'configurations'], 'all first-order plants, controller types, step counts and excitation sequences',
 TEST + 'Identification is a statement about histories of excitation.',
 ['src/pid.cpp', 'src/include/pid.hpp'], [('pidAutoTuning::step (recursive least squares)', 'src/pid.cpp'), ('additive MRAC in control()', 'src/pid.cpp')],
 'closed-loop simulation monitors with an independent identification oracle, under ASan/UBSan', 'plants inside the admissible range of the identifier')
prop('F01', 'Membership functions have their documented shape and range',
 'For every admissible parameter set and input, each membership function returns the degree of its documented shape scaled by its height, always within [0,1]; monotonic shapes are monotonic and the s- and z-shaped partners are complementary. '
 'For Tsukamoto consequents the crisp value is the abscissa where the monotonic set reaches the firing strength; custom functions receive the input and parameters and are bounded the same way.',
 ['inputs', 'configurations'], 'all shapes, parameters (also coinciding ones) and inputs in and outside of the support',
 TEST + 'Each shape has several branches, and coinciding parameters make edges vertical.',
 ['src/fisCore.cpp', 'src/include/fis.hpp'], [('membership functions of core', 'src/fisCore.cpp')],
 'differential monitor against double-precision shapes observed through one-rule systems, under ASan/UBSan', 'parameters admissible for the shape; near-vertical edges are judged within the rounding of the abscissa')
prop('F02', 'Mamdani inference aggregates its rules and defuzzifies within the range',
 'For every Mamdani system, rule base (AND/OR/NOT, weights) and crisp input, the crisp output is the selected defuzzification (centroid, bisector, largest/smallest/mean of maximum) of the aggregation of the implied consequents over the output range, with the selected AND, OR, implication and aggregation operators, whenever some rule fires. '
 'It always lies inside the output range, and symmetric systems defuzzify to their axis.',
 ['inputs', 'configurations', 'histories'], 'all rule bases, operators, methods and inputs, repeated evaluations of one system',
 TEST + 'Rule tables are programs: the claim is over all of them.',
 ['src/fis.cpp', 'src/fisCore.cpp', 'src/include/fis.hpp'], [('inference and aggregation state machine', 'src/fis.cpp'), ('defuzzification functions', 'src/fisCore.cpp')],
 'differential monitor against an independent fuzzy interpreter over random systems, under ASan/UBSan', 'outputs are claimed only when at least one rule fires')
prop('F03', 'Sugeno and Tsukamoto inference are weighted combinations of their rules',
 'For every Sugeno or Tsukamoto system and input, the crisp output is the weighted average (or, for Sugeno, the weighted sum when selected) of the rule consequents, weighted by the firing strength of each rule times its weight, whenever some rule fires; a rule table written with the rule statements (IF, IS, IS_NOT, AND, OR, THEN, END) means what the sentences say. '
 'The statically sized instance template behaves identically to the system it wraps, and repeated evaluations do not influence each other.',
 ['inputs', 'configurations', 'histories'], 'all rule bases, operators, consequents and inputs',
 TEST + 'Rule tables are programs: the claim is over all of them.',
 ['src/fis.cpp', 'src/fisCore.cpp', 'src/include/fis.hpp'], [('inference, wtAverage, wtSum', 'src/fis.cpp'), ('consequent evaluation', 'src/fisCore.cpp')],
 'differential monitor against an independent fuzzy interpreter over random systems, under ASan/UBSan', 'outputs are claimed only when at least one rule fires')
prop('F04', 'Fuzzy systems refuse invalid tags, parameters and rules safely',
 'Tags that do not exist, null arrays, unsupported operators or defuzzification methods for the system type, and rules that refer to inputs, outputs or membership functions that do not exist are refused: the call (or the inference) reports failure. '
 'A refused call changes nothing, and no call touches memory outside of the arrays the system was given, for every well-formed rule table.',
 ['inputs', 'configurations', 'fault_sequences'], 'all invalid tags, indices and configurations',
 TEST + 'The tests never pass an invalid tag or table.',
 ['src/fis.cpp', 'src/include/fis.hpp'], [('tag/size checks of setup functions and of the rule interpreter', 'src/fis.cpp')],
 'ASan/UBSan red-zone monitoring plus refusal monitors over malformed configurations', 'truncated rule tables and enum values outside of their enumeration are preconditions')
prop('Q01', 'Fixed-point arithmetic is correctly rounded or flags overflow',
 'For all operand pairs, fixed-point addition and subtraction are exact and multiplication and division return the nearest representable value, halves rounded away from zero, unless the exact result does not fit: then the result is the overflow value. '
 'No operation has undefined behaviour, also on values that already overflowed, and comparisons agree with those of the represented numbers.',
 ['inputs'], 'all 2^64 operand pairs',
 TEST + 'Carries, rounding and overflow of 64-bit intermediate products happen on thin sets of operand pairs.',
 ['src/fp16.cpp', 'src/include/fp16.hpp'], [('fp16 add, sub, mul, div, saturate', 'src/fp16.cpp')],
 'differential monitor against exact 128-bit integer arithmetic with boundary-biased operands, under UBSan', 'default rounding mode of the library; division by zero yields the minimum value')
prop('Q02', 'Fixed-point conversions round to nearest and print what they hold',
 'Converting an integer, float or double to fixed point and back gives the nearest representable value; floor, ceil, rounding, toInt and absolute value are those of the represented number for every value. '
 'The printed form with d decimals is the decimal rounding of the value, and equals it when read back.',
 ['inputs'], 'all 2^32 fixed-point values, all floats and doubles in range, all decimal counts',
 TEST + 'Halfway cases and the extremes are thin sets.',
 ['src/fp16.cpp', 'src/include/fp16.hpp'], [('fp16::from/toInt/toFloat/floor/ceil/rounding/toASCII', 'src/fp16.cpp')],
 'differential monitor against exact integer/decimal arithmetic, under ASan/UBSan', 'float conversion is claimed to one raw unit for |x| >= 128')
prop('Q03', 'Fixed-point functions stay close to the real functions',
 'Square root, exponential, logarithms, power, trigonometric, inverse trigonometric and hyperbolic fixed-point functions stay within a stated error of the real function over their domain and reproduce exact special values (such as exp(0)=1 and sin(0)=0). Square roots and logarithms of arguments outside of their domain and integer powers that do not fit report the overflow value; exp, sinh and cosh saturate at the largest value of their sign when the result does not fit. '
 'No argument causes undefined behaviour.',
 ['inputs'], 'all 2^32 arguments (and pairs for atan2 and pow)',
 TEST + 'Range reductions and table branches fail on thin argument ranges.',
 ['src/fp16.cpp', 'src/include/fp16.hpp'], [('fp16 elementary functions', 'src/fp16.cpp')],
 'differential monitor against <cmath> with windowed exhaustive sweeps, under UBSan', 'error bounds measured for this algorithm family and stated per function in the harness')
prop('A01', 'Sorting orders the selected range and only permutes it',
 'For every array, sub-range and strict weak ordering, sort leaves the selected elements ordered and a permutation of what they were, and changes nothing outside of the selected range. '
 'It terminates for every input, with and without a comparator.',
 ['inputs'], 'all arrays, ranges and comparators',
 TEST + 'One array is sorted; partition errors depend on the order pattern.',
 ['src/include/algorithm.hpp'], [('algorithm::sort iterative quicksort', 'src/include/algorithm.hpp')],
 'exhaustive small permutations plus random and adversarial patterns against multiset/order oracle, under ASan/UBSan', 'comparators are strict weak orderings')
prop('A02', 'Array algorithms act on exactly the selected elements',
 'Reverse, rotate, fill, find, find_if, any_of, all_of, count_if, replace, replace_if, for_each and binary search over a (sub-)range have the result of their definition for every array, range, value and rotation amount, and leave every element outside of the range unchanged. '
 'No element outside of the array is accessed.',
 ['inputs'], 'all arrays, ranges, values and predicates',
 TEST + 'Boundaries of ranges and rotation amounts.',
 ['src/include/algorithm.hpp'], [('algorithm::* templates', 'src/include/algorithm.hpp')],
 'differential monitor against the C++ standard algorithms with guarded arrays, under ASan/UBSan', 'ranges inside the array')
prop('M01', 'Fixed-size matrices obey matrix algebra',
 'For every shape and content, sum, difference, product, scalar and compound-assignment operations, increments, negation, transpose, element access, infinity norm and inverse of fixed-size matrices are those of matrix algebra, within rounding, leave their operands unchanged unless they are assigning forms, and never touch memory outside of the matrix. '
 'The inverse of a well-conditioned matrix multiplied by it is the identity.',
 ['inputs', 'configurations'], 'all shapes up to the instantiated ones and all contents',
 TEST + 'The tests never instantiate the matrix template.',
 ['src/include/mat.hpp'], [('mat<r,c> operators, inv, norms', 'src/include/mat.hpp')],
 'differential monitor against double-precision matrix algebra in guarded storage, under ASan/UBSan', 'the template shapes instantiated by the harness')
prop('I01', 'Interpolation reproduces its table and method between the points',
 'For every strictly increasing table and every argument, each interpolation method returns the value of its formula on the interval that contains the argument (or its extrapolation outside), reproduces the table at its points, and never reads outside of the table. '
 'Linear, sine and constrained-spline methods stay within the values of the neighbouring points; invalid sizes and methods are refused.',
 ['inputs', 'configurations'], 'all tables, methods and arguments',
 TEST + 'Interval search and end intervals depend on table and argument.',
 ['src/interp1.cpp', 'src/include/interp1.hpp'], [('interval search and method functions', 'src/interp1.cpp')],
 'differential monitor against double-precision formulas with guarded tables, under ASan/UBSan', 'single-precision shadow measures conditioning')
prop('X01', 'Bit-level float primitives agree with IEEE-754 for every bit pattern',
 'Classification, equality, sign, absolute value, floor, ceil, trunc, round, fraction, copysign, nextAfter, minimum/maximum of any number of values, scaling and mantissa/exponent splitting of single-precision numbers agree with the C library for every bit pattern, including subnormals, infinities, NaN and signed zeros. '
 'None has undefined behaviour for any argument.',
 ['inputs'], 'all 2^32 bit patterns (thorough enumerates them)',
 TEST + 'Bit tricks fail on thin sets of patterns.',
 ['src/ffmath.cpp', 'src/include/ffmath.hpp'], [('bit-cast based primitives', 'src/ffmath.cpp')],
 'differential monitor against <cmath> over all float bit patterns, under UBSan', 'sign of zero not claimed for rounding results')
prop('X02', 'Elementary float functions stay within their error bound everywhere',
 'Square and cube roots, exponentials, logarithms, power, hypot, trigonometric, hyperbolic and inverse functions of single-precision numbers stay within a stated relative or absolute error of the real function over their whole domain, and have the right limits at zero, infinities and outside of the domain. '
 'No argument of any bit pattern causes undefined behaviour.',
 ['inputs'], 'all float arguments (pairs for atan2, pow and hypot)',
 TEST + 'Branch limits and range reductions fail on thin sets.',
 ['src/ffmath.cpp', 'src/include/ffmath.hpp'], [('polynomial kernels and range reductions', 'src/ffmath.cpp')],
 'differential monitor against double-precision <cmath>, uniform/log-uniform/adjacent-float workloads, under UBSan', 'error bounds stated per function and sub-range in the harness')
prop('X03', 'Float helpers for remainders, angles, ranges and geometry are exact in meaning',
 'Remainder, modulo and angle wrapping return an equivalent value inside the documented interval; midpoint, linear interpolation and range mapping/normalising hit their end points and stay monotonic; a coerced value is always inside its range and dead bands, equality tolerance and range tests behave as defined. '
 'Point-in-polygon and point-in-circle tests agree with geometry for every polygon and point not on the border.',
 ['inputs'], 'all float arguments, all simple and self-intersecting polygons generated',
 TEST + 'Quantified over all floats and polygons.',
 ['src/ffmath.cpp', 'src/include/ffmath.hpp'], [('mod, rem, wrapTo*, lerp, mapMinMax, coerce, inPolygon, inCircle', 'src/ffmath.cpp')],
 'differential and metamorphic monitors in double precision, under UBSan', 'interval-boundary representatives not claimed')
prop('X04', 'Special functions agree with their mathematical definition',
 'Gamma, log-gamma, beta, factorial, error, exponential-integral, zeta, elliptic, Bessel, Laguerre, Legendre, Hermite and spherical functions in single precision agree with the mathematical functions within a bound scaled by their conditioning over their domain, and return NaN (or their limit) outside. '
 'All of them terminate for every argument in the domain.',
 ['inputs'], 'all orders and arguments in the domain of each function',
 TEST + 'Series, continued fraction and asymptotic branches switch on argument ranges.',
 ['src/ffmath.cpp', 'src/include/ffmath.hpp'], [('series and recurrences of the special functions', 'src/ffmath.cpp')],
 'differential monitor against C++17 special functions in double precision, with CPU-time watchdog, under UBSan', 'bounds per function in the harness')
prop('G01', 'Instances are isolated from each other, from old memory and from threads',
 'What an instance of any class (or a stateless function) computes depends only on how it was configured and fed: not on what its memory contained before, not on operations of other instances performed in between, and not on other threads that use their own instances concurrently. '
 'There is no data race and no use of uninitialised memory.',
 ['schedules', 'histories', 'configurations'], 'all interleavings of operations on different instances, in one or several threads, on any previous memory contents',
 TEST + 'Single-threaded, single instance, zeroed memory.',
 ['src'], [('absence of mutable global state; member initialisers', 'src')],
 'ThreadSanitizer and MemorySanitizer builds plus solo-versus-interleaved trace comparison', 'the C++ runtime itself is not instrumented under MSan')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
json.dump(dict(version=1, setup_cmd='python3 tools/preflight.py', checks=[dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
    evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note'] + '; assurance is over the executions observed, counted in the evidence file') for p in P], not_applicable=[]),
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
