Q, T = 'quick', 'thorough'
STD = {Q: ['asan', 'gcc'], T: ['asan', 'gasan:0.3', 'gcc', 'clang']}
CHECKS = {
 'B01': dict(harness='bitfield.cpp', builds=STD, rule='random histories of every operation on areas of 1..64 words plus an exhaustive offset x width x background sweep; a signature is (operation, position, width, result), an evaluation one comparison with the shadow bits'),
 'K01': dict(harness='crc.cpp', builds=STD, rule='random messages (length 0..300, any alignment) x named parameter sets and random parameters; a signature is (parameter set, message hash, checksum)'),
 'T01': dict(harness='tdl.cpp', builds=STD, rule='random interleavings of insert/flush/setup on two lines with unique sample values; a signature is (size, newest, oldest)'),
 'S01': dict(harness='smooth_win.cpp', builds=STD, rule='two random window smoothers driven alternately by random, step, impulse, ramp and outlier signals with resets; a signature is (kind, input, output)'),
 'S02': dict(harness='smooth_rec.cpp', builds=STD, rule='random recursive smoothers driven by random signals with resets; a signature is (kind, input, output)'),
 'S03': dict(harness='smooth_life.cpp', builds=STD, rule='twin instances, one of which receives refused calls or a restart; a signature is (kind, input, output)'),
 'R01': dict(harness='rms.cpp', builds=STD, rule='random signals, windows and parameters, repeated setup and refused parameters; a signature is (window, input, output)'),
 'N01': dict(harness='numa.cpp', builds=STD, rule='random histories of integrate/derive/init/method changes on two states; a signature is (method, input, output)'),
 'L01': dict(harness='lti_disc.cpp', builds=STD, rule='random coefficient arrays (lengths 1..6, normalised or not, stable or mildly unstable) and input signals; a signature is (lengths, input, output)'),
 'L02': dict(harness='lti_cont.cpp', builds={Q: ['asan', 'gcc', 'obs:0.5'], T: ['asan', 'gasan:0.3', 'gcc', 'clang', 'obs']}, rule='random proper transfer functions of order 1..5, integration rule, step and signals; a signature is (order, input, output)'),
 'L03': dict(harness='lti_misc.cpp', builds=STD, rule='random systems with twin instances for limits, delays and superposition; a signature is (system, input, output)'),
 'P02': dict(harness='pid_law.cpp', builds=STD, rule='random sequences of settings and samples against a model of the law; a signature is (settings, error, action)'),
 'P01': dict(harness='pid_limits.cpp', builds=STD, rule='random settings, extreme samples, mode changes, resets and refused settings; a signature is (setting, action)'),
 'P03': dict(harness='pid_tune.cpp', builds=STD, rule='closed loops with random first-order plants and excitations; a signature is (plant, gains)'),
 'F01': dict(harness='fis_mf.cpp', builds=STD, rule='every shape with random, coinciding and extreme parameters, inputs on and next to every break point; a signature is (shape, input, degree)'),
 'F02': dict(harness='fis_mamdani.cpp', builds=STD, rule='random systems (1-4 inputs, 1-3 outputs, 1-5 sets, random rule tables, operators and methods), several inputs each; a signature is (system, output)'),
 'F03': dict(harness='fis_crisp.cpp', builds=STD, rule='random Sugeno and Tsukamoto systems as for F02; a signature is (system, output)'),
 'F04': dict(harness='fis_guard.cpp', builds=STD, rule='invalid tags, indices, operators, rule tables and sizes on systems in exactly sized heap arrays; a signature is (call, argument, verdict)'),
 'Q01': dict(harness='fp_arith.cpp', builds=STD, rule='operands biased to powers of two, extremes and products/quotients near the limits, plus exhaustive slices; a signature is (operation, operands)'),
 'Q02': dict(harness='fp_conv.cpp', builds=STD, rule='boundary-biased values, halves and every decimal count; a signature is (value, result)'),
 'Q03': dict(harness='fp_math.cpp', builds=STD, rule='random and exhaustive windows of raw values; a signature is (function, raw argument)'),
 'A01': dict(harness='algo_sort.cpp', builds=STD, rule='all permutations up to 7 elements, all three-valued arrays up to 8, random and adversarial arrays, sub-ranges and comparators; a signature is (size, range, contents)'),
 'A02': dict(harness='algo_scan.cpp', builds=STD, rule='random arrays of sizes 1..40, sub-ranges, values, predicates and rotation amounts; a signature is (operation, size, range, result)'),
 'M01': dict(harness='mat.cpp', builds=STD, rule='random contents for 12 shapes, singular, permuted and ill-conditioned squares; a signature is (shape, operation, contents)'),
 'I01': dict(harness='interp1.cpp', builds=STD, rule='random tables of 2..13 points, all methods, arguments at, next to, between and outside of the points; a signature is (method, argument, result)'),
 'X01': dict(harness='ff_bits.cpp', builds=STD, rule='strided sweep of all bit patterns (thorough: every one) plus boundary-biased pairs; a signature is a bit pattern, pair or swept block'),
 'X02': dict(harness='ff_elem.cpp', builds=STD, rule='uniform, log-uniform, adjacent-float and arbitrary-bit arguments; a signature is (function, argument bits)'),
 'X03': dict(harness='ff_util.cpp', builds=STD, rule='random, boundary and arbitrary-bit arguments, random polygons; a signature is (function, arguments)'),
 'X04': dict(harness='ff_special.cpp', builds=STD, rule='random orders and arguments over the domain of each function; a signature is (function, order, argument)'),
 'G01': dict(harness='isolate.cpp', builds={Q: ['asan', 'tsan', 'msan'], T: ['asan', 'tsan', 'msan', 'gcc']}, rule='random operation sequences on 36 kinds of instances: repeated on differently filled memory, interleaved with others, and run in 4 threads; a signature is (sequence order, observations)'),
}
