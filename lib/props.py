LS = 'each input is one index of a finite enumerated space; non-trivial = not produced by an earlier index and the expected result differs from the first operand (or the case named in the harness)'
PROPS = {
 'P01': dict(src='p01.cpp', configs=['dbg','rel'], level='exploration', rule=LS + '; all lane tuples over the small alphabet plus every tuple with at most two lanes deviating from the base tuples over the full alphabet', bounds='small alphabet 5 (thorough 7) values, full alphabet ~100 values plus literals of the sources; two-lane deviations'),
 'P02': dict(src='p02.cpp', configs=['dbg','rel'], level='exploration', rule=LS + '; lanes whose C++ result is undefined are left out', bounds='as P01, integers'),
 'P03': dict(src='p03.cpp', configs=['dbg','rel'], level='exploration', rule='pairs and triples enumerated; non-trivial = distinct keys / chains x<y<z / more than one distinct key', bounds='pairs: small product plus two-lane deviations; triples: full product of a small alphabet; histories: all insertion sequences of length 5 (thorough 6) over 8 keys'),
 'P04': dict(src='p04.cpp', configs=['dbg','rel'], level='exploration', rule='complete truth tables; non-trivial = operands differ', bounds='none: the value space is finite and enumerated completely'),
}
PROPS.update({
 'P05': dict(src='p05.cpp', configs=['dbg','rel'], level='exploration', rule='every constructor shape on every tuple of the lane space; non-trivial = tuple not produced before and its first two components differ', bounds='as P01; mat4 elements: two-lane deviations from three base matrices (thorough: plus the full product of two values)'),
})
PROPS.update({
 'P06': dict(gen='gen_p06', extra='-O0', configs=['dbg','rel','dbgns'], level='exploration', rule='every name of every vector type on every vector of the space; non-trivial = vector not produced before / the written value differs', bounds='all component names and all swizzles of the three letter sets; vectors: two base vectors with one lane over the full alphabet; writes: all operations with all alphabet operands'),
})
PROPS.update({
 'P07': dict(src='p07.cpp', extra='-O1', configs=['dbg','rel'], thorough_configs=['dbg','rel','san'], level='model_checking', rule='', bounds='all histories up to depth 3 (thorough 4) over ~50-150 operations from three initial states per type; 9 (a fixpoint) for bool vectors'),
})
PROPS.update({
 'P08': dict(src='p08.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one operand tuple; non-trivial = tuple not produced before and the expected first lane is a number other than the first operand (or the predicate is true / the operands differ)', bounds='all lane tuples over an alphabet of 2-9 values plus every tuple with at most two lanes deviating from three base tuples over 60-120 values'),
})
PROPS.update({
 'P09': dict(src='p09.cpp', configs=['rel','dbg'], level='exploration', rule='scalar: every 32-bit float encoding (non-trivial = not already an integer and not NaN); overloads: lane tuples (non-trivial = not produced before and first lane not an integer)', bounds='none for the scalar functions in the release build (all 2^32 floats; debug build: encoding grid, thorough all); overloads: 7^N tuples plus two-lane deviations', assumptions=['default floating-point rounding mode']),
})
PROPS.update({
 'P10': dict(src='p10.cpp', configs=['rel','dbg'], level='exploration', rule='scalar unary: every float and int encoding (non-trivial = negative); binary, ternary and overloads: operand tuples (non-trivial = not produced before and the other operand is selected)', bounds='none for scalar unary functions in the release build; pairs: ~2100 values squared; clamp: ~230 values cubed; overloads: small product plus two-lane deviations over ~120 values'),
})
PROPS.update({
 'P11': dict(src='p11.cpp', configs=['rel','dbg'], level='exploration', rule='fract: every float encoding; others: operand tuples; non-trivial = defined, not produced before, and the expected result differs from the first operand', bounds='mod: ~1100 values squared; mix, smoothstep, fma: ~180 values cubed; overloads: small product plus two-lane deviations; smoothstep(0,1,x): grid (thorough: every float)'),
})
PROPS.update({
 'P12': dict(src='p12.cpp', configs=['rel','dbg'], level='exploration', rule='each input is one index of a finite space; non-trivial = finite expected result that is neither zero nor the argument', bounds='quick: all signs, exponents and top 12 mantissa bits with four patterns of the low bits, floats around every literal, a linear grid; thorough, release: every float; pow: ~700 (thorough ~5000) values squared; overloads: small product plus two-lane deviations'),
 'P13': dict(src='p13.cpp', configs=['rel','dbg'], level='exploration', rule='each input is one index of a finite space; non-trivial = finite expected result that is neither zero nor the argument', bounds='quick: all signs, exponents and top 11 mantissa bits with four patterns of the low bits, floats around every literal, a linear grid; thorough, release: every float; atan(y,x): ~700 (thorough ~5000) values squared; overloads: small product plus two-lane deviations'),
})
PROPS.update({
 'P14': dict(src='p14.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one vector; non-trivial = not produced before and the first two components differ', bounds='all tuples over 16-48 (ints 23) values plus two-lane deviations; sums and products whose intermediate values overflow are left out'),
 'P15': dict(src='p15.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one operand tuple; non-trivial = not produced before and a non-zero expected result', bounds='all small-integer tuples (exact), mixed magnitudes 1e-9..1e9, two-lane deviations with magnitudes 3e-18..4e18 (squares neither overflow nor vanish)'),
})
PROPS.update({
 'P16': dict(src='p16.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one operand tuple; non-trivial = the vector is changed by the mirror / a refracted ray or total reflection / the sign is kept / no component zero', bounds='normals: all primitive integer directions of a box; incident vectors: integer box and scaled directions; 12 ratios eta; faceforward: integer box (exact) plus two-lane deviations; orthogonal: integer box, great circles, special values'),
 'P17': dict(src='p17.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one direction or code; non-trivial = lower hemisphere', bounds='all integer directions of [-50,50]^3 (thorough 110), directions within 1e-45..1e-2 of every seam and axis, codes: 1501^2 (thorough 4001^2) grid plus special values'),
})
PROPS.update({
 'P18': dict(src='p18.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one operand tuple; non-trivial = tuple not produced before (groups: the two elements differ)', bounds='pairs: two-lane deviations of 2*D*D elements from three base pairs over 12-30 values (for bilinear maps the deviations from zero already determine the map), 2x2: all pairs over 4 values; groups: all signed permutation matrices, closed under the real product'),
 'P19': dict(src='p19.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one matrix; non-trivial = not produced before and regular (or not a pure permutation)', bounds='2x2: all entries -9..9; 3x3: all over 4 (thorough 5) values; 4x4: all over {0,1} (thorough {-1,0,1}), which determines every map of degree one in each entry; two-element deviations from four base matrices; all scaled signed permutations with one shear'),
})
PROPS.update({
 'P20': dict(src='p20.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one operand tuple or the tree of chains with a given prefix; non-trivial = not produced before / angle not zero / every chain', bounds='matrix and vector elements: two-lane deviations from three bases; vectors: all triples over ~70 values; angles ~110 x all primitive integer axes of [-4,4]^3 (thorough 6) x 4 bases, axis lengths 1e-15..1e17; chains: all sequences of 10 elementary transforms up to length 5 (thorough 6) from two bases'),
 'P21': dict(src='p21.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one volume; non-trivial = off-centre / aspect not one', bounds='orthographic: all 6-tuples over 6 (thorough 9) values plus two-lane deviations over ~80 values; perspective: ~60 (120) fields of view x 8+ aspect ratios x all ordered depth pairs of 13+ values'),
 'P22': dict(src='p22.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one (eye, centre, up) or (direction, up); non-trivial = direction not in a coordinate plane', bounds='all 9-tuples over {-1,0,1}; 6 eyes x all primitive directions of [-5,5]^3 (thorough 7) x all of [-2,2]^3 as up; two-lane deviations over ~70 values; direction grid 120^2 (360^2); sine of the angle between direction and up at least 0.03'),
 'P23': dict(src='p23.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one composed matrix; non-trivial = scale not one', bounds='rotations: all primitive integer quaternions of [-5,5]^4 (thorough 7) plus rotations next to every branch boundary, 9 scales, 3 translations; every scale value of the alphabet on every axis'),
})
PROPS.update({
 'P24': dict(src='p24.cpp', configs=['rel','dbg'], level='model_checking', rule='', bounds='pairs: all 8-tuples over 4 (thorough 6) values plus two-lane deviations; triples: all 12-tuples over 2 (3) values; groups: quaternion units, binary tetrahedral, octahedral and icosahedral group closed under the real product, all ordered pairs'),
 'P25': dict(src='p25.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one (quaternion, vector), rotation, (angle, axis) or pair of quaternions; non-trivial = the vector moves / angle not zero', bounds='quaternions: all primitive integer quaternions of [-4,4]^4 (thorough 6) plus rotations next to every branch boundary; 31 vectors and pairs of ~100 component values; ~200 angles x all directions of [-3,3]^3 (5); compositions: all pairs of [-2,2]^4 (3); 13 arcs of 40000 (400000) steps'),
 'P26': dict(src='p26.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one pair of vectors, rotation or angle triple; non-trivial = directions differ / no angle zero', bounds='all pairs of primitive directions of [-3,3]^3 (thorough 4) with lengths 1e-3..250; perturbations 1..1e-10 of parallel and opposite pairs; rotations: all primitive integer quaternions of [-6,6]^4 (8) plus branch boundaries; all triples of ~50 (90) angles, cos(yaw) at least 0.02 for the way back'),
 'P27': dict(src='p27.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one (end, end, factor); non-trivial = negative dot product, factor inside (0,1)', bounds='all pairs of primitive integer unit quaternions of [-2,2]^4 x ~20 (40) factors; perturbations 1..1e-9 of equal, opposite and orthogonal ends; 40 arcs in 2000 (20000) steps'),
})
PROPS.update({
 'P28': dict(src='p28.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one grey (and gamma) or colour; non-trivial = inside (0,1) / first two channels differ, tuple not produced before', bounds='grey: 4097 (thorough 65537) linear steps, geometric steps down to 1e-12, floats around the thresholds and literals, x 9+ gammas; default conversions: every 1024th (16th) encoding of [0,1]; colours: all 4-tuples over 6 values plus two-lane deviations over ~90 values, 4 gammas'),
 'P29': dict(src='p29.cpp', configs=['rel','dbg'], level='exploration', rule='each index is one component in one context (all values), one pair, or all container histories; non-trivial = distinct values / different positions', bounds='every component of every type in 5 contexts over ~100 values; pairs differing in up to two components over 50 values; every set of negated components on 24 values; all sequences of 5 (thorough 6) inserts and erases over 5 keys'),
 'P30': dict(src='p30.cpp', configs=['dbg','rel','cdbg','crel'], level='exploration', rule='each index is a constant called after another constant; non-trivial = the constant itself, not zero', bounds='none: all 29 constants in every order of two, two compilers, debug and release'),
})
PROPS.update({
 'P31': dict(module='p31', configs=['rel','dbg'], level='model_checking', rule='', technique='stateless exploration of the real code: call histories, library-state closure and two-thread schedules under a controlled scheduler', bounds='every public call (about 970) with ~20-130 argument sets (one-lane deviations, special values; thorough two-lane); all ordered pairs of argument sets of one function, all ordered pairs of functions, 5000 (thorough 70000) repetitions; library state: one state closed under every call, hence histories of every length; threads: two threads, one call each, all schedules with up to 2 (3) preemptions at accesses to static storage, first calls and later calls, plus the other call at every instruction; every call in 12 states of the caller floating-point control registers', assumptions=['x86-64: single instructions are atomic steps; weaker memory orders are covered by forbidding unsynchronised writes to static storage']),
})
PROPS.update({
 'P32': dict(module='p32', configs=[], level='exploration', rule='compilations of a header or ordered pair in one configuration, declarations looked up in one library build, calls compared between two configurations; non-trivial = it compiled / the call has arguments and returned', bounds='2 compilers x C++11/14/17/20 x debug/release x swizzles on/off, every header alone and all together in both orders; all ordered pairs of headers (quick: one compiler and standard); every library build (thorough: x 4 user standards), CMake default build type included; a program using every swizzle and component operation without optimisation; every public call with ~20-130 argument sets', technique='exhaustive exploration of the configuration space; each configuration executed against the first'),
})
PROPS.update({
 'P33': dict(module='p33', configs=['g++'], level='exploration', rule='each index is one complete execution of the generator; evaluations are the emitted headers, sources, functions, calls and script entries checked; non-trivial = of a project that was complete', bounds='choices: every constant value of rand() around 0..number of snippets and at the top of its range, every ordered sequence of up to 2 (thorough 3) snippets, five-snippet functions with every snippet at every place; directories: all ordered pairs (triples) of 4 earlier runs, 8 groups of files x 7 earlier states, 5 forms of the path; every distinct one- and five-block body (thorough: every body) compiled against zcm and GLM', technique='exhaustive exploration of the real generator under controlled random choices and prepared directory states'),
})
PROPS.update({
 'P34': dict(gen='gen_p34', configs=['rel','dbg'], level='exploration', rule='each index is one operand tuple of one expression shared with GLM; non-trivial = tuple not produced before, the result is not zero and the input is well conditioned', bounds='about 800 shared expressions; operands: all tuples over a small alphabet plus two-lane deviations (one-lane for more than 20 lanes) from three base tuples over 24-100 moderate values, also with vectors and quaternions normalised', assumptions=['GLM 0.9.9.8 evaluated in double precision is the reference']),
})
PROPS.update({
 'P36': dict(src='p36.cpp', configs=['dbg','def','cdbg','rel'], thorough_configs=['dbg','def','cdbg','rel'], level='exploration', rule='each index is one array index, pointer or factor given to one operation; non-trivial = misuse, or a legal argument other than zero', bounds='index: 0-4100, around every power of two, every byte-shifted and 16-bit-shifted value, the last 300 (thorough: all 2^32); pointers: null and arrays against unreadable pages; factors: every sign, exponent and 7 leading mantissa bits with three tails, 2000 neighbours of 0, 0.5 and 1 (thorough: all 2^32 floats); projections: 8 fields of view, 10 aspect ratios, 14 x 14 depths', assumptions=['a failed assertion ends in __assert_fail or abort']),
})
PROPS.update({
 'P35': dict(module='p35', configs=['python3','dbg','crel'], level='exploration', rule='each index is one argument list given to the tool; evaluations are declarations, rejected argument lists and names evaluated on the library; non-trivial = all of them', bounds='all sizes and lengths in 1..4, 76 bad argument lists; every printed name evaluated on vec2, vec3 and vec4', assumptions=[]),
})
PROPS.update({
 'P37': dict(module='p37', configs=[], level='exploration', rule='each index is one expression over types, decided by the compiler on the real headers; non-trivial = it is valid', bounds='all pairs of 16 types under 18 binary and 11 assignment operators, 4 unary operators, all conversions, single values and component lists of up to 4 (arity 3 and 4 over reduced type lists); every public function with all argument type pairs, and declared calls of higher arity with one argument changed (arity 3: two; thorough: all triples, any two)', assumptions=['SFINAE verdicts of g++ and clang++']),
})
PROPS.update({
 'P38': dict(gen='gen_p38', configs=['asan0','msan'], thorough_configs=['asan0','asan','msan'], level='exploration', technique='exhaustive enumeration of calls and bounded operand spaces on the real code, every execution under address, undefined-behaviour and initialised-memory monitors', rule='each index is one operand tuple of one public call, executed with every operand alone in its memory; non-trivial = any but the first tuple of a call', bounds='every public call (table generated from the headers); operands: three base tuples, one lane over the full alphabet (~140 floats, ~60 integers), two lanes over 13 x 13 (10 x 10) values (an eighth of the pairs beyond 12 lanes, thorough: all), one value in all lanes of an argument', assumptions=['the monitors of clang 18 report what they are documented to report', 'legal: indices in range, shift counts 0..31, divisors not zero, arithmetic results that fit, perspective aspect a number other than epsilon']),
})
