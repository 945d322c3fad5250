#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, tech, note, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, tech=tech, note=note, na=na))


SYM = 'symbolic execution of clang IR + z3 lemmas + exact GF(12289) algebra'
SYMA = 'symbolic execution of AVX2 object code and clang IR + z3 lemmas + exact GF(12289) algebra'
TESTS_PROD = 'The tests multiply a few thousand random or constant polynomials; a value-dependent error in one reduction, carry or coefficient pair occurs for a vanishing fraction of the 12289^(2n) inputs.'
NOTE = 'Every input within the stated ranges and sizes is covered by solver-proved range and congruence lemmas composed exactly; trusts clang IR generation, z3 and the engine (cross-checked on concrete inputs against the compiled code in every run). Counterexamples are replayed on the compiled code before they are reported.'

for pid, lib, word, files in (
        ('C01', 'default', 'Default', ['src/ntt.c', 'src/ntt16.c', 'src/ntt256.c', 'src/ntt512.c', 'src/ntt1024.c', 'src/ntt1024.h', 'src/make_tables.c']),
        ('C02', 'naive', 'Naive', ['src/naive_ntt.c', 'src/naive_ntt16.c', 'src/naive_ntt256.c', 'src/naive_ntt512.c', 'src/naive_ntt1024.c', 'src/make_tables.c']),
        ('C03', 'shift-based-reduction', 'Shift-reduction', ['src/ntt_red.c', 'src/ntt_red16.c', 'src/ntt_red256.c', 'src/ntt_red512.c', 'src/ntt_red1024.c', 'src/make_red_tables.c']),
        ('C04', 'AVX2', 'AVX2', ['src/ntt_asm.S', 'src/ntt_red_asm16.c', 'src/ntt_red_asm256.c', 'src/ntt_red_asm512.c', 'src/ntt_red_asm1024.c', 'src/make_red_tables.c'])):
    prop(pid, '%s products are the exact negacyclic product' % word,
         'For each supported size n (16, 256, 512, 1024), every one of the five product routines of the %s implementation stores in the result array exactly the product of the two input polynomials modulo X^n+1 and modulo 12289, with every coefficient in [0,12288], for all inputs with coefficients in [0,12288]. '
         'The result does not depend on the previous contents of the result array or on earlier calls, and only the three arrays passed by the caller are written.' % lib,
         ['inputs', 'histories'], 'all pairs of polynomials with coefficients in [0,12288], all initial contents of the result array, 4 sizes x 5 variants',
         TESTS_PROD, files, [dict(name='product routines', where=files[1]), dict(name='transforms and reductions', where=files[0])],
         SYMA if pid == 'C04' else SYM, NOTE)

TT = 'Tests run each transform on a few random arrays for one fixed root per size; overflow and reduction errors depend on rare values and on the root chosen.'
for pid, word, files, rng in (
        ('C05', 'default', ['src/ntt.c', 'src/ntt.h'], 'inputs and table entries in [0,12288], and the results are in [0,12288]'),
        ('C06', 'naive', ['src/naive_ntt.c', 'src/naive_ntt.h'], 'inputs and table entries in [0,12288], and the results are in [-12288,12288]'),
        ('C07', 'shift-based-reduction', ['src/ntt_red.c', 'src/ntt_red.h'], 'inputs in [-21499,21499] and table entries in [-6144,6144], and no intermediate value overflows'),
        ('C08', 'AVX2', ['src/ntt_asm.S', 'src/ntt_asm.h'], 'inputs in [-21499,21499] and table entries in [-6144,6144], and no intermediate value overflows')):
    prop(pid, 'The generic %s transforms compute the NTT' % (word if word != 'shift-based-reduction' else 'shift-reduction'),
         'Each generic %s transform (Cooley-Tukey and Gentleman-Sande, both orders, plain and combined with powers of psi), called with a table of the documented form for any root psi with psi^n = -1, computes modulo 12289 exactly the documented number-theoretic transform in the documented order. '
         'This holds for every power-of-two size %s and for all %s.' % (word, {'C08': 'from 16 to 1024', 'C07': 'from 2 to 1024'}.get(pid, 'from 2 to 2048'), rng),
         ['inputs', 'configurations'], 'all input arrays in range, all roots psi, all sizes %s' % {'C08': '16..1024', 'C07': '2..1024'}.get(pid, '2..2048'), TT, files,
         [dict(name='butterfly loops', where=files[0])], SYMA if pid == 'C08' else SYM, NOTE)

prop('C09', 'Per-size transforms are mutually inverse and consistent',
     'For each implementation and each supported size there is one root psi with psi^n = -1 such that all per-size transforms are the forward or inverse transform for that psi in the order their name says; '
     'so the composition of an inverse transform with the matching forward transform is n times the identity modulo 12289. '
     'This holds for all inputs in the documented range of that implementation.',
     ['inputs'], 'all inputs in range; 12 transforms x 4 sizes x 4 implementations', 'Tests compare pairs of transforms on random arrays only.',
     ['src/ntt1024.h', 'src/ntt_red1024.h', 'src/ntt_red_asm1024.h', 'src/naive_ntt1024.h'], [dict(name='per-size inline wrappers and tables', where='src/ntt1024.h')], SYMA, NOTE)
prop('C10', 'Elementwise products of the default and naive versions are exact',
     'The elementwise product, in-place product by a constant table and product by a scalar of the default and naive implementations return exactly the product modulo 12289 in [0,12288] of each element, for all operands in [0,12288] and any array length. '
     'They modify nothing but the destination array.',
     ['inputs'], 'all operand values in [0,12288]; lengths within the stated bound', 'A wrong quotient estimate affects a handful of the 151 million operand pairs.',
     ['src/ntt.c', 'src/naive_ntt.c'], [dict(name='division-free remainder', where='src/ntt.c')], SYM, NOTE)
prop('C11', 'Shift-reduction array operations meet their documented contracts',
     'For the shift-based-reduction implementation: normalisation returns the residue (or the residue times the inverse of 3) in [0,12288] for every 32-bit value; shifting maps [0,12288] to the congruent value in [-6144,6144]; single and double reduction return values congruent to 3 and 9 times the input within the documented bounds for every 32-bit value; correction maps [-12289,24577] to the congruent value in [0,12288]. '
     'The multiply-and-reduce operations return the exact reduction of the 64-bit product (congruent to 3ab, within the documented bounds) whenever the product is in the documented no-overflow range.',
     ['inputs'], 'all 32-bit values (or all values of the documented range) per element; lengths within the stated bound', 'Tests sample random values; boundary values of 32-bit and 64-bit ranges are not reached.',
     ['src/ntt_red.c', 'src/ntt_red.h'], [dict(name='reductions', where='src/ntt_red.c')], SYM, NOTE)
prop('C12', 'AVX2 array operations equal the C reference bit for bit',
     'Each AVX2 array operation (shift, single and double reduction, correction, multiply-and-reduce by table, array and scalar, and their alternative versions) stores exactly the same 32-bit values as the corresponding C operation for all operands in the documented range and every length that is a positive multiple of 16.',
     ['inputs'], 'all operand values in the documented ranges; lengths within the stated bound', 'Tests compare on a few random arrays, mostly of one length.',
     ['src/ntt_asm.S', 'src/ntt_red.c'], [dict(name='AVX2 kernels', where='src/ntt_asm.S')], SYMA, NOTE)
prop('C13', 'Bit-reversal shuffles are the exact bit-reversal permutation',
     'For every power-of-two length, the generic shuffle and the table-driven shuffle with the supplied tables move the element at each index to its bit-reversed index, for arbitrary 32-bit contents, and applying them twice restores the array.',
     ['inputs', 'configurations'], 'all array contents; lengths 1..32768 (generic, and generated tables), 16, 256, 512, 1024 (supplied tables)', 'Tests compare a few lengths with the identity array.',
     ['src/ntt.c', 'src/naive_ntt.c', 'src/bitrev1024_table.c', 'src/make_bitrev_table.c'], [dict(name='bitrev_shuffle / shuffle_with_table', where='src/ntt.c')], SYM, NOTE)
PATH = 'path-wise symbolic execution of clang IR (z3 integers, symbolic operands and memory cells) with z3/cvc5 deciding every path'
PNOTE = 'Every path within the stated bounds is decided by the solver on terms taken from the current IR; a counterexample is replayed on the compiled code before it is reported. Trusts clang IR generation, z3/cvc5 and the engine.'
prop('C14', 'The table generators accept valid parameters only and print exact tables',
     'Given a power-of-two size n and any root psi with psi^n = -1 modulo 12289 (2 <= psi < 12289), the two NTT table generators write tables whose entries are exactly the documented powers of psi, its inverse and the scaling constants (in [0,12288], or the centred representation scaled by the inverse of 3). '
     'For any other psi, and for sizes that are not a power of two between 2 and 99999, they exit with a failure status and write no file; they also exit with a failure status when a file cannot be created or memory cannot be allocated.',
     ['inputs', 'configurations', 'fault_sequences'], 'all 64-bit values of psi and of the size; every single failing fopen or malloc', 'Tests only use the tables generated for four sizes and one root each.',
     ['src/make_tables.c', 'src/make_red_tables.c'], [dict(name='power/inverse/build_table', where='src/make_tables.c')], 'symbolic execution of main() in clang IR with psi = 11^t, t symbolic; z3 decides congruences, ranges and branches', PNOTE)
prop('C15', 'Reduction bounds are exact extrema',
     'The bound functions for a reduction, and for a reduction of a product by a constant, return exactly the maximum, minimum and maximal absolute value over the given interval (whether given as [-b,b] or as an interval) together with a point in the interval that attains it. '
     'The one-step butterfly bounds never return a value that some admissible operand exceeds, and the round-by-round bounds of a transform are at least the one-step bound of every table entry used in that round.',
     ['inputs'], 'all intervals and multipliers within the stated bounds', 'Tests print bounds for the parameters of the paper only.',
     ['src/red_bounds.c', 'src/red_bounds.h'], [dict(name='max_red ... gs_bound_fixed', where='src/red_bounds.c')], PATH, PNOTE)
prop('C16', 'Interval operations are sound',
     'Every interval operation returns an interval that contains the result of the concrete operation for every choice of operands in the argument intervals (addition, subtraction, negation, reduction, double reduction, scaled reduction, normalisation, normalisation with inverse of 3, shift, correction); addition, subtraction and negation never return after a 64-bit overflow.',
     ['inputs'], 'all intervals within the stated bounds and all members', 'Tests print a few intervals.',
     ['src/intervals.c', 'src/intervals.h'], [dict(name='interval operations', where='src/intervals.c')], PATH, PNOTE)
prop('C17', 'Abstract transforms over-approximate the concrete transforms',
     'Each abstract transform or array operation, run on an array of intervals, returns intervals that contain the values computed by the corresponding concrete shift-reduction routine on every array whose elements lie in the input intervals (and for which the concrete routine does not overflow 32-bit arithmetic).',
     ['inputs', 'configurations'], 'all intervals, all concrete arrays and tables within the stated ranges; sizes within the stated bound', 'Tests only print the intervals for the parameters of the paper.',
     ['src/ntt_red_interval.c', 'src/intervals.c', 'src/ntt_red.c'], [dict(name='abstract_* functions', where='src/ntt_red_interval.c')],
     'symbolic execution of the abstract and the concrete IR with a ghost member per interval; equality of terms, and containment of each interval operation by z3', PNOTE)
prop('C18', 'Sorting returns the sorted permutation',
     'The sort routine leaves the array in non-decreasing order, as a permutation of its original contents, without reading or writing outside it, for every array of 64-bit numbers.',
     ['inputs'], 'all contents; lengths within the stated bound', 'It is only exercised on timing samples.',
     ['src/sort.c', 'src/sort.h'], [dict(name='quicksort with insertion sort below 10', where='src/sort.c')], PATH + '; CBMC (SAT) for lengths 8 and 9', 'All contents up to the stated length; larger lengths by one level of recursion with the recursive calls replaced by their specification. Counterexamples are replayed on the compiled code. Trusts clang IR generation, z3, CBMC and the engine.')
prop('C19', 'AVX2 detection answers exactly when AVX2 is usable',
     'The AVX2 support test returns true exactly when the processor reports AVX and AVX2 and the operating system reports that it has enabled saving of the extended vector state, for every combination of processor identification results (on processors that implement CPUID leaf 7). It executes XGETBV only when the processor reports OSXSAVE, and preserves the callee-saved registers.',
     ['configurations'], 'all CPUID/XGETBV results', 'Tests run on one processor.',
     ['src/ntt_asm.S'], [dict(name='avx2_supported', where='src/ntt_asm.S')], 'symbolic execution of the object code with symbolic CPUID/XGETBV + z3 bit-vectors', NOTE)
prop('C20', 'Calls are confined to their arrays and follow the calling convention',
     'Every public array routine reads and writes only the arrays it is given (the lengths its documentation implies) and constant tables, and its result depends on nothing else, in particular not on earlier calls. '
     'The AVX2 routines preserve all callee-saved registers and the stack and depend only on the low 32 bits of their 32-bit arguments.',
     ['inputs', 'histories'], 'all array contents in range, all register contents at entry, sizes within the stated bound', 'Tests cannot see reads past the end, clobbered registers or state that only matters later.',
     ['src/ntt_asm.S', 'src/ntt.c', 'src/ntt_red.c', 'src/naive_ntt.c'], [dict(name='prologues/epilogues, loop bounds', where='src/ntt_asm.S')], SYMA, NOTE)
prop('C21', 'The bit-reversal table generator is exact and rejects invalid sizes',
     'For each power of two n from 2 to 32768 the generator of bit-reversal tables writes a header and a table that contains every pair (i, reversed i) with i smaller than reversed i exactly once, with the announced number of pairs. '
     'For every other size it exits with a failure status and writes no file; it also fails when a file cannot be created.',
     ['inputs', 'fault_sequences'], 'all 64-bit sizes; every single failing fopen', 'Tests only use the four supplied tables.',
     ['src/make_bitrev_table.c'], [dict(name='print_bitrev_table', where='src/make_bitrev_table.c')], 'symbolic execution of main() in clang IR with a symbolic size; z3 decides every path and the partner of every index', PNOTE)
prop('C22', 'The annotated verification programs satisfy their assertions',
     'Each annotated program supplied for the verifier satisfies every one of its assertions for all inputs its assumptions admit, with the reduction written out or given as an analysis primitive, and performs no signed overflow. '
     'The transform it exercises gives the same residues modulo 12289 as the library transform of the same name on the same inputs and table.',
     ['inputs'], 'all 1024-element inputs (and tables, where the program leaves them open) within the assumed ranges', 'The programs are not run by the tests, and their assertions are about 13 * 10^6 intermediate values over a 13.6-bit range per input.',
     ['verifier/vstte20-benchmarks/ntt_red.c', 'src/ntt_red.c'], [dict(name='__CRAB_assert / __CRAB_assume annotations', where='verifier/vstte20-benchmarks/ntt_red.c'), dict(name='ASSUME_FORALL', where='verifier/vstte20-benchmarks/clam.h')], 'symbolic execution of the annotated programs in clang IR; ranges and residues of reductions by SMT lemmas; assertions, overflow obligations and congruence with the library as goals', PNOTE)
prop('C23', 'The verifier\'s abstract domain treats the reduction soundly and exactly',
     'In the verifier\'s abstract domain, the reduction primitive applied to a variable gives the result variable an interval that contains the reduction of every value of the input\'s interval, and exactly the smallest such interval when the input is bounded on both sides. '
     'It changes no other variable and leaves an unreachable state unreachable. '
     'Every other operation of the domain has the effect and result of the same operation of the plain interval domain it extends.',
     ['inputs'], 'all states, variables and intervals with ends up to 2^40 in absolute value or infinite; result variable equal to or different from the input', 'The verifier is not built by the tests, and the result is wrong only for particular positions of the interval ends relative to multiples of 4096.',
     ['verifier/src/ntt_intervals.cpp', 'verifier/src/ntt_intervals.hpp'], [dict(name='intrinsic', where='verifier/src/ntt_intervals.cpp')], 'path-exhaustive symbolic execution of the domain\'s IR, compiled against stand-ins for the analysis library; z3 (linear integer arithmetic, uninterpreted functions for the base domain)', PNOTE)
prop('C24', 'Interval operations return the smallest interval',
     'Addition, subtraction, negation, reduction, scaled reduction, product reduction, normalisation, shift and correction of intervals return the smallest interval that contains the result of the concrete operation for all operands in the argument intervals. '
     'Double reduction and normalisation with inverse of 3 applied to a single point return exactly the single concrete result.',
     ['inputs'], 'all 64-bit operand intervals (scaled and product reductions: listed multipliers and interval lengths)', 'Tests print intervals and do not compare them with the exact range; an interval that is too large shows only for particular ends.',
     ['src/intervals.c', 'src/red_bounds.c'], [dict(name='interval operations', where='src/intervals.c')], 'path-exhaustive symbolic execution of clang IR with symbolic interval ends; z3 compares the ends with the closed-form range or checks that a witness attains them', PNOTE)

CLAIMED = open(os.path.join(V, 'tools', 'claimed.txt')).read().split()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        if len(p['title']) > 80:
            raise SystemExit(p['title'])
        f.write(json.dumps(dict(id=p['pid'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py',
         checks=[dict(property=p['pid'], quick_cmd='python3-vt run.py %s' % p['pid'],
                      thorough_cmd='python3-vt run.py %s --tier thorough' % p['pid'],
                      technique=p['tech'], level='other', level_note=p['note']) for p in P if p['pid'] in CLAIMED],
         not_applicable=[dict(property=p['pid'], reason=p['na'] or 'the check for this property is still being built') for p in P if p['pid'] not in CLAIMED],
         notes='All checks are solver-based; see DESIGN.md. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')
