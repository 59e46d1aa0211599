import jobs as J
from jobs import Job, Prop, L, D, R
T = dict(tier='thorough')
DIVT = 'lia:6,lias:3,nia:6,bv:10'
PROPS = {}
S2 = [(0, 0), (0, 1), (1, 0), (1, 1)]

PROPS['C01'] = Prop('Addition and subtraction of natural numbers are exact',
    'operands of 1 to 3 limbs (96 bits) with every limb symbolic, plus 4-5 limbs against 1-5 limbs; machine-word operand symbolic', 'longer operands (the loops are uniform in the limb index)',
    [D(f, n, m, bound=f'{n} and {m} limbs of 32 bits, all bits symbolic', cost=n + m) for f in ('u_add', 'u_sub', 'u_abs_diff') for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
    + [D(f, n, bound=f'{n} limbs') for f in ('u_add_u32', 'u_sub_u32', 'u_abs_diff_u32') for n in (1, 2, 3, 4)]
    + [D(f, n, m, cost=n + m, **T) for f in ('u_add', 'u_sub', 'u_abs_diff') for n, m in ((5, 1), (5, 3), (5, 5), (6, 6), (3, 6), (6, 2), (8, 8))])

PROPS['C02'] = Prop('Multiplication and powers of natural numbers are exact',
    'schoolbook products up to 3x2 limbs with every bit symbolic (3x3, 4x2 thorough); products by a machine word up to 4 limbs; Karatsuba recombination on 65 to 140 limbs, every limb symbolic, inner products/sums by contract; powers of a natural of any size for exponents up to 100 (contracts), 0 and 1 to exponents near 2^32',
    'schoolbook products between 4x3 and 64x64 limbs (uniform loops over limb pairs)',
    [D('u_mul', n, m, cost=10 * n * m, bound=f'{n} x {m} limbs, all bits symbolic') for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1))]
    + [D('u_mul', n, m, time=900, cost=500, **T) for n, m in ((3, 3), (4, 2), (2, 4))]
    + [D('u_mul_u32', n) for n in (1, 2, 3, 4)] + [D('u_mul_pow2', n, e) for n in (1, 2) for e in (0, 1, 31, 32, 65)]
    + [D('u_kara', n, m, f, contracts='kara', keep=1, bound=f'{n} x {m} limbs, all symbolic' if f == 1 else 'nine symbolic limbs per operand, others zero') for n, m in ((65, 65), (66, 65), (65, 66), (67, 130), (130, 140), (64, 65), (128, 66), (130, 65), (65, 130), (141, 66), (200, 70)) for f in (1, 2) if n > 64]
    + [D('u_kara', n, m, 0, contracts='kara', keep=1, time=1200, cost=400, **T) for n, m in ((65, 65), (65, 66), (70, 90))]
    + [D('u_pow', n, e) for n, e in ((1, 0), (1, 1), (1, 2), (1, 3), (2, 2), (2, 0))]
    + [D('u_powl', e, contracts='ulift', bound='base of any size') for e in list(range(0, 34)) + [47, 63, 64, 65, 100]] + [D('u_pow01', b, h) for b in (0, 1) for h in (0, 65532, 2147483644, 2147483648, 4294967292)])

PROPS['C03'] = Prop('Division and remainder of natural numbers',
    'dividend and divisor up to 4 limbs, all bits symbolic; 5 to 8 limb dividends, all bits symbolic, against concrete divisors of 2 to 5 limbs (corner and mixed patterns), recursive calls by induction on a strictly smaller dividend; equal lengths 5 and 7 with both operands symbolic; division by a machine word up to 4 limbs',
    'divisors of 5 limbs and more other than the listed ones for longer dividends; dividends above 8 limbs',
    [D('u_div', n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
    + [D(f, n) for f in ('u_div_u32', 'u_rem_u32', 'u_rem_u32_mut') for n in (1, 2, 3, 4)]
    + [D('u_rem', n, m, v, contracts='ubi') for n in (1, 2, 3, 4, 5, 6) for m in (1, 2, 3, 4, 5, 6) for v in (0, 1)]
    + [D('u_rem', n, m, v, contracts='ubi') for n, m in ((8, 2), (8, 8), (7, 5)) for v in (0, 1)]
    + [D('u_rem', n, m, v) for n, m in ((1, 1), (2, 2)) for v in (0, 1)]
    + [D('u_div_indc', n, m, p, contracts='div', time=60, tactics=DIVT, cost=n) for n, m in ((5, 2), (5, 3), (5, 4), (6, 4), (6, 5), (7, 5)) for p in (0, 1, 5, 6, 10, 11)]
    + [D('u_div_indc', n, m, p, contracts='div', time=100, tactics=DIVT, cost=30) for n, m, p in ((6, 3, 0), (6, 3, 1), (6, 3, 6), (6, 3, 5), (6, 3, 11), (7, 4, 0), (7, 4, 1), (7, 4, 6), (7, 4, 5), (8, 5, 1), (8, 5, 0), (8, 5, 6))]
    + [D('u_div_ind', n, n, contracts='div', time=100, tactics=DIVT, cost=40) for n in (5, 7)]
    + [D('u_div_indc', n, m, p, contracts='div', time=900, tactics='lia:30,nia:30,bv:30', cost=90, **T) for n, m in ((6, 3), (7, 4), (8, 5), (6, 2), (7, 3)) for p in (2, 3, 4, 7, 8, 9, 10, 12, 13)])

PROPS['C04'] = Prop('Integer comparison is the order of the integers', 'naturals up to 4 limbs, signed up to 3 limbs of either sign, machine words: all bits symbolic', 'longer operands',
    [D('u_cmp', n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)] + [D('u_cmp_u32', n) for n in (1, 2, 3)]
    + [D('b_cmp', n, s, m, t) for n in (1, 2, 3) for m in (1, 2, 3) for s, t in S2] + [D(f, n, s) for f in ('b_cmp_i32', 'b_eq_i32') for n in (1, 2, 3) for s in (0, 1)]
    + [D('u_cmp', n, m, **T) for n, m in ((5, 5), (6, 6), (5, 6), (8, 8))])

PROPS['C05'] = Prop('Signed arithmetic is exact, with truncating division',
    'sum, difference up to 3 limbs of either sign; products up to 2x2 limbs directly and 6 limbs through the natural-number contracts; quotient and remainder up to 3 limbs directly, 5 by contract; every i32 operand', 'longer operands (the signed layer only selects a natural-number operation and a sign)',
    [D('b_arith', op, n, s, m, t, cost=n + m) for op in (0, 1) for n in (1, 2, 3) for m in (1, 2, 3) for s, t in S2]
    + [D('b_arith', 2, n, s, m, t) for n, m in ((1, 1), (1, 2), (2, 1)) for s, t in S2]
    + [D('b_arith', op, n, s, m, t, contracts='ubi') for op in (0, 1, 2) for n, m in ((2, 2), (3, 3), (4, 2), (2, 5), (4, 4), (5, 5), (3, 1), (1, 4)) for s, t in S2]
    + [D('b_arith_i32', op, n, s) for op in (0, 1, 2) for n in (1, 2, 3) for s in (0, 1) if (op, n) != (2, 3)] + [D('b_arith_i32', 2, n, s, contracts='ubi') for n in (2, 3) for s in (0, 1)]
    + [D('b_div', n, s, m, t, v) for n in (1, 2, 3) for m in (1, 2, 3) for s, t in S2 for v in (0, 1)]
    + [D('b_div', n, s, m, t, v, contracts='ubi') for n, m in ((4, 4), (5, 1), (5, 2), (5, 4), (5, 5), (2, 5), (6, 3), (6, 6)) for s, t in S2 for v in (0, 1)]
    + [D('b_div_i32', 1, s, v) for s in (0, 1) for v in (0, 1)] + [D('b_div_i32', n, s, v, contracts='ubi') for n in (2, 3, 4, 5) for s in (0, 1) for v in (0, 1)]
    + [D('b_rem', n, s, m, t, v) for n, m in ((1, 1), (2, 2), (1, 2)) for s, t in S2 for v in (0, 1)]
    + [D('b_rem', n, s, m, t, v, contracts='ubi') for n, m in ((2, 1), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3), (4, 4), (5, 4), (5, 5)) for s, t in S2 for v in (0, 1)]
    + [D('b_rem_i32', 1, s, v) for s in (0, 1) for v in (0, 1)] + [D('b_rem_i32', n, s, v, contracts='ubi') for n in (2, 3, 4, 5) for s in (0, 1) for v in (0, 1)]
    + [D('b_un', n, s) for n in (1, 2, 3) for s in (0, 1)] + [D('b_pow', n, s, e) for n, e in ((1, 0), (1, 1), (1, 2), (1, 3), (2, 2)) for s in (0, 1)])

PROPS['C06'] = Prop('Conversions between big and machine integers are exact or refused', 'every machine integer of 8 to 128 bits, both signs; big integers of 1 to 5 limbs (wider than every machine type), all bits symbolic', 'big integers above 5 limbs (always refused by the same length test); the text in error values',
    [D('c_u_to', n, t, contracts='sci') for n in (1, 2, 3, 4, 5) for t in range(12)]
    + [D('c_b_to', n, s, t, contracts='sci') for n in (1, 2, 3, 4, 5) for s in (0, 1) for t in range(12)]
    + [D('c_b_from', t) for t in range(12)] + [D('c_b_from_named', t) for t in range(3)] + [D('c_u_from', t) for t in range(12)]
    + [D('c_bool', n, s) for n in (1, 2) for s in (0, 1)] + [D('c_sign', n, s, contracts='sci') for n in (1, 2, 3) for s in (0, 1)])

PROPS['C08'] = Prop('Shifts, powers of two and base-2 logarithms are exact', '1 to 4 limbs with every bit symbolic; word shifts by 0 to 5 and up to 300; exponents 0 to 100 including the word boundaries, and selected ones up to 65569', 'longer numbers and larger distances',
    [D('u_shift', n, k) for n in (1, 2, 3, 4) for k in (0, 1, 2, 3, 4, 5)] + [D('u_mul_pow2', n, e) for n in (1, 2, 3) for e in (0, 1, 31, 32, 33, 63, 64, 65, 100)]
    + [D('u_shift', n, k) for n in (1, 3) for k in (31, 255, 256, 300)] + [D('u_mul_pow2', n, e) for n in (1, 3) for e in (255, 256, 1000, 8191, 8192, 65535, 65536, 65569)]
    + [D('u_rem_pow2', n, e) for n in (1, 2, 3) for e in (0, 1, 5, 31)] + [D('u_log2', n) for n in (1, 2, 3)]
    + [D('b_shift', n, s, k) for n in (1, 2, 3) for s in (0, 1) for k in (0, 1, 2, 3)] + [D('b_mul_pow2', n, s, e) for n in (1, 2) for s in (0, 1) for e in (0, 1, 31, 32, 33, 64)]
    + [D('b_rem_pow2', n, s, e) for n in (1, 2) for s in (0, 1) for e in (0, 1, 7, 31)])

PROPS['C10'] = Prop('Rational arithmetic is exact and always in lowest terms', 'numerators and denominators of any size (unbounded integers through the integer contracts), every i32 operand; powers up to 7 in magnitude', 'larger exponents; the gcd itself (C09)',
    [L('r_bin', op, v) for op in range(4) for v in (0, 1)] + [L('r_int', op, v, t) for op in range(4) for v in (0, 1) for t in (0, 1)] + [L('r_un', op) for op in range(4)]
    + [L('r_pow', e, s) for e in (0, 1, 2, 3, 4, 5, 7) for s in (0, 1) if e or not s] + [L('r_new'), L('r_common'), L('r_new_i32', tactics='nia:10,lia:5', bound='all pairs of 32-bit integers')])
PROPS['C11'] = Prop('Rational comparisons agree with the order of the rationals', 'numerators and denominators of any size, every i32 operand', 'nothing beyond the integer contracts (C04, C05)', [L('r_cmp'), L('r_ord')] + [L('r_cmp_i32', w) for w in (0, 1, 2)])
PROPS['C12'] = Prop('Rounding a rational obeys floor, round, truncate and fraction', 'numerators and denominators of any size', 'nothing beyond the integer contracts (C05)', [L('r_round', w) for w in (0, 1, 2, 3)])

NI = 'nia:8,lia:4'; BIGST = ['--max-steps', '40000000']
SH = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 4)]
PROPS['C20'] = Prop('Matrix sums, products, scaling and transposition', 'shapes up to 4x4 (products up to 4x4x4), every entry an arbitrary rational (any size)', 'larger shapes (uniform index loops)',
    [R('m_add', r, c, 1) for r, c in SH] + [R('m_scale', r, c, 1) for r, c in SH] + [R('m_new', r, c) for r, c in SH]
    + [R('m_mul', r, k, c, 1) for r, k, c in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 3, 4), (3, 3, 3))] + [R('m_mul', 4, 4, 4, 0), R('m_mul', 5, 2, 3, 0)])
PROPS['C21'] = Prop('Determinants and inverses of matrices', 'rational entries of any size up to 3x3 (determinant 4x4), integer entries of any size up to 5x5', 'matrices of 6x6 and more (thorough: 6x6 determinant with one symbolic row)',
    [R('m_det', n, 1) for n in (1, 2, 3, 4)] + [R('m_det', n, 0) for n in (1, 2, 3, 4)] + [R('m_det', 5, 0, extra=BIGST, cost=5)] + [R('m_inv', n, 0, tactics=NI) for n in (1, 2, 3, 4)] + [R('m_inv', 5, 0, tactics=NI, extra=BIGST, cost=20)] + [R('m_inv', n, 1, tactics=NI, cost=n) for n in (1, 2, 3)]
    + [R('m_detrow', n, s_) for n in (2, 3, 4) for s_ in range(n)] + [R('m_detrow', 5, s_, extra=BIGST, cost=3) for s_ in range(5)] + [R('m_detrow', 6, s_, extra=BIGST, time=900, cost=90, **T) for s_ in (0, 3, 5)])
PROPS['C22'] = Prop('Polynomials: construction, evaluation, derivative, scaling, Newton step', 'up to 7 coefficients (degree 6), coefficients and argument arbitrary rationals (Newton step: arbitrary integers)', 'higher degrees',
    [R('p_new', n, 1, tactics=NI) for n in (0, 1, 2, 3, 4, 6)] + [R('p_calc', n, 1, tactics=NI) for n in (0, 1, 2, 3, 4)] + [R('p_calc', n, 0, tactics=NI) for n in (5, 6, 7)] + [R('p_diff', n, 1, tactics=NI) for n in (1, 2, 3, 4, 5, 7)] + [R('p_scale', n, 1, tactics=NI) for n in (0, 1, 2, 3, 5)] + [R('p_newton', n, tactics=NI) for n in (1, 2, 3, 4, 5)])
PROPS['C23'] = Prop('Interpolation passes through its points', 'lines through arbitrary rational points; up to 3 arbitrary integer points for interpolation, quadratics and Hermite cubics with arbitrary integer data', 'four and more points; non-integer data beyond two points',
    [R('p_line', 0, tactics=NI), R('p_line', 1, tactics=NI, cost=20), R('p_points', 1, 1, tactics=NI), R('p_points', 2, 0, tactics=NI), R('p_points', 2, 1, tactics=NI, cost=20), R('p_points', 3, 0, tactics=NI, cost=30), R('p_quad', 0, tactics=NI, cost=30), R('p_cubic', 0, tactics=NI, cost=30)])
PROPS['C24'] = Prop('Complex addition is componentwise', 'arbitrary rational parts, every i32', 'nothing beyond the rational contracts (C10)', [R('x_add')])

FT = 'nia:15,lia:10,bv:20'
def F(fn, *args, **kw): kw.setdefault('tactics', FT); kw.setdefault('keep', 2); return Job(fn, args, **kw)
def FR(fn, *args, **kw): kw.setdefault('contracts', 'rlift'); return F(fn, *args, **kw)
OFF = list(range(868, 1003))
PROPS['C15'] = Prop('F192 order, sign and scaling agree with the numbers denoted', 'every 127-bit significand and both signs; exponents symbolic over 2^59 values around the middle of the range; integrality at every exponent where fraction bits exist', 'exponents within 2^47 of either end of the 64-bit exponent range (overflow and underflow)',
    [F('f_cmp', s, t, k, d) for s, t in S2 for k, d in ((0, 0), (2, 0), (1, 1), (1, 64), (1, 127), (1, 128), (1, 300))] + [F(f, s) for f in ('f_cmp0', 'f_un', 'f_is_int_far') for s in (0, 1)] + [F('f_is_int', s, o) for s in (0, 1) for o in OFF]
    + [F('f_ilog2', o) for o in (1, 500, 872, 873, 874, 1000, 1500)] + [F('f_pow2', o) for o in (0, 936, 999, 1000, 1001, 1064, 1127, 1128, 2000)] + [F('f_consts')])
PROPS['C16'] = Prop('F192 sums, differences, products and machine-word quotients are accurate', 'every 127-bit significand, both signs, exponents symbolic over 2^59 values; exponent distances 0 to 130 sampled densely at the ends plus all larger ones; every i32 factor; divisors of up to 10 bits and selected larger ones', 'exponents within 2^47 of either end; division of two F192 (bisection loop of 128 rounds); distances between the listed ones',
    [F('f_add', s, d, w) for s in (0, 1) for d in (0, 1, 2, 3, 31, 63, 64, 65, 100, 126, 127, 128, 129) for w in (0, 1)] + [F('f_add_far', s, w) for s in (0, 1) for w in (0, 1)] + [F('f_add0', s) for s in (0, 1)]
    + [F('f_sub_opp', s, d, w) for s in (0, 1) for d in (0, 1, 64, 127, 128) for w in (0, 1)] + [F('f_mul', s, t) for s, t in S2] + [F('f_mul0', s) for s in (0, 1)] + [F('f_mul_int', s, t, i, j) for s, t in ((0, 0), (1, 0)) for i, j in ((1, 1), (2, 7), (31, 32), (33, 20), (50, 64), (63, 63), (64, 64))]
    + [F('f_mul_i32', s, b, g) for s in (0, 1) for b in range(1, 33) for g in (0, 1)] + [F('f_div_i32', s, b, g, 0) for s in (0, 1) for b in range(1, 11) for g in (0, 1)] + [F('f_div_i32', s, k, g, 1) for s in (0, 1) for k in (1 << 31, (1 << 31) - 1, 1 << 30, 1000000007, 65535, 65536, 65537, 12345678) for g in (0, 1)] + [F(f, s) for f in ('f_div_zero', 'f_div_zero2') for s in (0, 1)]
    + [FR('f_sub', s, d, w, c) for s in (0, 1) for d, c in ((0, 1), (1, 1), (2, 0), (3, 0), (31, 0), (63, 0), (64, 0), (65, 0), (126, 0), (127, 0), (128, 0), (129, 0), (135, 0)) for w in (0, 1)] + [FR('f_sub', s, d, 0, 0, cost=70) for s, d in ((0, 0), (1, 1))] + [FR('f_sub_far', s, w) for s in (0, 1) for w in (0, 1)]
    + [FR('f_add_opp', s, d, w) for s in (0, 1) for d in (2, 5, 64, 127, 128) for w in (0, 1)] + [FR('f_add_opp', s, d, 0, cost=70) for s, d in ((1, 0), (0, 1))])
PROPS['C17'] = Prop('F192 converts exactly from, and faithfully to, integers, floats and rationals', 'every value of the twelve machine integer types and of f32 and f64 (all exponent fields of f32; selected ones of f64); F192 of every significand with exponents from 2^-1100 to 2^1100 selected; rationals n/d of any size with quotient in selected binades between 2^-200 and 2^200', 'binades between the selected ones', [])
PROPS['C18'] = Prop('Rounding an F192 obeys floor, ceil, round, truncate and fraction', 'every significand, both signs, every exponent with fraction bits, and symbolic exponents beyond', 'exponents within 4 of 0 or above 2^62',
    [F('f_trunc', s, o) for s in (0, 1) for o in OFF] + [F('f_trunc_far', s) for s in (0, 1)] + [FR('f_round', s, o, 0) for s in (0, 1) for o in OFF[:8] + [930, 935, 936, 937, 968] + OFF[-8:]] + [FR('f_round', s, o, 1, cost=30) for s in (0, 1) for o in (872, 873, 874, 900, 936, 968, 990, 998, 999, 1000, 1001)])
_c17 = PROPS['C17'].jobs
_c17 += [F('f_from_int', t) for t in range(12)] + [F('f_to_int', t, s, o) for t in range(12) for s in (0, 1) for o in (860, 872, 873, 874, 879, 880, 881, 887, 888, 889, 895, 896, 903, 904, 905, 920, 935, 936, 937, 968, 998, 999, 1000, 1001)] + [F('f_to_int_far', s) for s in (0, 1)]
_c17 += [F('f_from_f', 0, x) for x in range(256)] + [F('f_from_f', 1, x) for x in (0, 1, 2, 500, 970, 1020, 1022, 1023, 1024, 1074, 1075, 1076, 1500, 2044, 2045, 2046, 2047)]
_c17 += [F('f_to_f', 0, s, 3000 - 127 + k) for s in (0, 1) for k in (-153, -152, -151, -150, -149, -148, -147, -140, -128, -127, -126, -125, -60, -1, 0, 1, 23, 24, 60, 126, 127, 128, 129)]
_c17 += [F('f_to_f', 1, s, 3000 - 127 + k) for s in (0, 1) for k in (-1080, -1076, -1075, -1074, -1073, -1060, -1024, -1023, -1022, -1021, -60, -1, 0, 1, 52, 53, 1022, 1023, 1024, 1025)]
_c17 += [F('f_to_f_far', t, s) for t in (0, 1) for s in (0, 1)] + [F('f_to_f0')]
_c17 += [FR('f_to_ratio', s, o, v) for s in (0, 1) for o in (100, 800, 872, 873, 936, 968, 999, 1000, 1001, 1032, 1100, 1200) for v in (0, 1)] + [FR('f_from_ratio', s, k, v) for s in (0, 1) for k in (800, 860, 872, 900, 967, 968, 998, 999, 1000, 1001, 1031, 1032, 1063, 1064, 1126, 1127, 1128, 1160, 1200) for v in (0, 1)] + [FR('f_from_ratio0')]
def nd(k, b=20): return (b + k, b) if k >= 0 else (b, b - k)
K32 = [-155, -152, -151, -150, -149, -148, -147, -140, -130, -128, -127, -126, -125, -124, -64, -32, -3, -2, -1, 0, 1, 2, 3, 4, 22, 23, 24, 25, 33, 64, 125, 126, 127, 128, 129, 130]
K64 = [-1080, -1076, -1075, -1074, -1073, -1050, -1024, -1023, -1022, -1021, -100, -3, -1, 0, 1, 3, 33, 51, 52, 53, 1022, 1023, 1024, 1025, 1026]
def Q14(fn, *args, **kw): kw.setdefault('contracts', 'rconv'); return F(fn, *args, **kw)
PROPS['C14'] = Prop('Rationals convert exactly from, and faithfully to, machine numbers', 'every value of the twelve machine integer types; every f32 (all exponent fields) and f64 (selected exponent fields, every fraction); rationals of any size to integers; rationals n/d of the listed bit lengths (1 to 1100 bits, quotients over the whole float range and beyond) to f32 and f64', 'other combinations of bit lengths; the text in error values',
    [F('q_from_int', t, v, tactics=J.LI) for t in range(12) for v in (0, 1)] + [Q14('q_to_int', t, v) for t in range(13) for v in (0, 1)] + [Q14('q_from_f', 0, x, 0) for x in range(256)] + [Q14('q_from_f', 0, x, v) for v in (1, 2) for x in (0, 1, 100, 150, 200, 254, 255)]
    + [Q14('q_from_f', 1, x, v) for v in (0, 1, 2) for x in (0, 1, 2, 500, 970, 1022, 1023, 1024, 1074, 1075, 1076, 1500, 2045, 2046, 2047)] + [F('q_inspect', 0, x) for x in range(256)] + [F('q_inspect', 1, x) for x in (0, 1, 2, 5, 500, 1022, 1023, 1024, 1500, 2046, 2047)]
    + [Q14('q_to_f', 0, s, *nd(k), v, cost=5) for k in K32 for s, v in ((0, 0), (1, 1))] + [Q14('q_to_f', 1, s, *nd(k), v, cost=5) for k in K64 for s, v in ((0, 0), (1, 2))] + [Q14('q_to_f', t, 0, bn, bd, 0, cost=9) for t in (0, 1) for bn, bd in ((1, 1), (2, 1), (1, 2), (5, 3), (24, 1), (25, 1), (26, 2), (54, 1), (55, 1), (60, 60), (33, 32), (64, 65), (130, 129), (200, 190))] + [Q14('q_to_f0')])
TXT = 'lia:10,nia:10,bv:10'; TBV = 'bv:5,lia:10,nia:10'
def TU(fn, *args, **kw): kw.setdefault('contracts', 'ubi'); kw.setdefault('keep', 2); kw.setdefault('tactics', TXT); return Job(fn, args, **kw)
PROPS['C07'] = Prop('Integers are parsed from and printed as text exactly', 'every ASCII string of up to 5 characters; decimal literals up to 40 digits, hexadecimal, octal and binary ones up to 20, 24 and 70 digits (every digit symbolic, underscores at listed places); decimal printing of 1 and 2 limbs completely, 3 to 5 limbs for listed digit counts of the 9-digit groups; hexadecimal, octal, binary printing of 1 to 3 limbs', 'longer text; non-ASCII text; scientific notation',
    [TU(f, n) for f in ('t_any_u', 't_any_b') for n in range(6)] + [TU('t_dec', n, 0, 0, 0) for n in (1, 2, 8, 9, 10, 11, 16, 17, 18, 19, 20, 27, 28)] + [TU('t_dec', n, m, neg, 4) for n, m, neg in ((1, 0, 1), (9, 5, 1), (12, 2049, 0), (20, 4, 1), (25, 0, 1))] + [TU('t_dec', 11, 8, 0, k) for k in range(8)] + [TU('t_dec', 11, 8, 1, k) for k in range(4, 8)] + [TU('t_dec', 40, 0, 0, 0, cost=20)]
    + [TU('t_base', b, n, c, neg, m, am, tactics=TBV) for b, ns in ((16, (1, 2, 7, 8, 9, 15, 16, 17, 20)), (8, (1, 9, 10, 11, 18, 19, 24)), (2, (1, 26, 27, 28, 31, 32, 33, 54, 70))) for n in ns for c, neg, m, am in ((0, 0, 0, 0x5a5a5), (1, 1, 5, 0xa5a5a))] + [TU('t_base', 16, 3, c, 0, 0, am, tactics=TBV) for am in range(8) for c in (0, 1)]
    + [TU('t_to_dec', 1, neg, k, 0) for neg, k in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3))] + [TU('t_to_dec', 2, 0, 0, g, cost=9) for g in (1, 2, 3, 4, 5, 6, 8, 9)] + [TU('t_to_dec', 2, 0, 0, 7, time=900, cost=90, **T)] + [TU('t_to_dec', 2, 1, k, g, cost=9) for k in (2, 3) for g in (1, 5, 9)] + [TU('t_to_dec', 3, 0, 0, g, cost=20) for g in (99, 11, 19, 91)] + [TU('t_to_dec', 3, 0, 0, 37, time=900, cost=90, **T)] + [TU('t_to_dec', 4, 0, 0, g, cost=40) for g in (999, 111)]
    + [TU('t_to_dec', 5, 0, 0, g, time=900, cost=90, **T) for g in (9999, 1111, 9191)]
    + [TU('t_to_pow2', 1, b, neg, k, p, tactics=TBV, cost=3) for b in (1, 3, 4) for neg, k in ((0, 0), (1, 1), (0, 2), (1, 3)) for p in (0, 1)] + [TU('t_to_pow2', 2, 4, 0, 0, 0, tactics=TBV), TU('t_to_pow2', 2, 4, 1, 3, 1, tactics=TBV), TU('t_to_pow2', 2, 3, 0, 0, 0, tactics=TBV, cost=30), TU('t_to_pow2', 2, 3, 1, 1, 1, tactics=TBV, cost=30), TU('t_to_pow2', 3, 4, 0, 0, 0, tactics=TBV, cost=30)])
def TR(fn, *args, **kw): kw.setdefault('contracts', 'rstr'); kw.setdefault('keep', 2); kw.setdefault('tactics', 'lia:10,nia:10,bv:10'); return Job(fn, args, **kw)
APX = 'nia:10,lia:10,bv:10'
PROPS['C13'] = Prop('Rationals are parsed exactly from, and printed faithfully as, decimal text', 'literals of up to 12 integer and 5 fraction digits (every digit symbolic), exponents between -30 and 30 listed, both signs, upper and lower case; fixed-point printing at 6 to 20 characters of n/d with n of up to 40 bits symbolic and listed d (or d of up to 10 bits symbolic); n/d printing for one-limb parts', 'exponent-notation output; literals in other bases with fractions',
    [TR('s_parse', i, 0, 0, 0, neg, 0, k) for i in (1, 2, 9, 12) for neg, k in ((0, 0), (1, 1), (0, 2), (1, 3))] + [TR('s_parse', i, 1, f, 0, neg, 0, k, cost=f * 2) for i, f in ((1, 0), (1, 1), (2, 2), (3, 3), (1, 4)) for neg, k in ((0, 0), (1, 0))] + [TR('s_parse', 2, 1, 2, 0, 0, 0, k) for k in (1, 2, 3, 8, 9)] + [TR('s_parse', 1, 1, 3, 0, 1, 0, 8), TR('s_parse', 1, 1, 2, 1001, 0, 0, 8)]
    + [TR('s_parse', i, dot, f, ex, neg, up, 0, cost=9 + f) for i, dot, f in ((1, 0, 0), (2, 0, 0), (1, 1, 1), (2, 1, 2)) for ex in (1000, 1001, 1002, 1005, 1030, 999, 998) for neg, up in ((0, 0), (1, 1))] + [TR('s_parse', 1, 1, 1, 995, 1, 0, 0, cost=30), TR('s_parse', 1, 0, 0, 990, 0, 0, 0, cost=30), TR('s_parse', 3, 1, 0, 1003, 0, 1, 0)]
    + [TR('s_approx', bn, bd, neg, w, c, tactics=APX, cost=7) for bn, bd, c in ((20, 3, 7), (5, 10, 777), (10, 1, 1), (12, 4, 8), (30, 10, 1000)) for neg, w in ((0, 12), (1, 9), (0, 6), (1, 100))] + [TR('s_approx', 40, 10, 0, 20, 777, tactics=APX, cost=7), TR('s_approx', 5, 10, 1, 6, 0, tactics=APX), TR('s_approx', 20, 3, 1, 9, 0, tactics=APX)]
    + [Job('s_ratio', (neg, w), tactics=TXT) for neg in (0, 1) for w in (0, 1)])

SQ = 'lia:5,bv:20'
def NU(fn, *args, **kw): kw.setdefault('tactics', SQ); kw.setdefault('keep', 2); return Job(fn, args, **kw)
def tl(b): return min(b // 2, 32 * ((b - 1) // 32 - 1))
PROPS['C09'] = Prop('Roots, common divisors, primes, factors, factorials and Fibonacci numbers', 'square roots: every number below 8 and windows of 2 to 2^31 consecutive numbers at every bit length from 5 to 64 (smallest, largest, around a perfect square, mixed), and windows of 2^(b/2) at selected lengths up to 640 bits; gcd: common factor of any size times listed pairs, any number against listed ones, all pairs below 16; primality and factorisation of every number below 1024 and windows up to 2^24, multiples of small primes of two and three limbs; factorials and Fibonacci numbers at every argument up to 200', 'the numbers between the windows; primality and factors of numbers whose smallest divisor exceeds some thousands (the search is linear)',
    [NU('n_sqrt64', b, 3, k) for b in range(9, 33) for k in (0, 1, 2, 3) if not (k == 2 and b in (15, 16)) and (b, k) != (10, 3)] + [NU('n_sqrt64', b, 1, k, cost=5) for b in (5, 6, 7, 8) for k in (0, 1)] + [NU('n_sqrt64', b, min(b - 29, b // 2 - 2), k, time=60) for b in range(33, 65) for k in (0, 1, 2, 3, 4)]
    + [NU('n_sqrtw', b, tl(b), k, contracts='usq', tactics='lia:10,nia:10,bv:10', bound=f'{b}-bit numbers, low {tl(b)} bits symbolic') for b in (65, 66, 80, 95, 96, 97, 98, 100, 112, 127, 128, 129, 130, 150, 159, 160, 161, 191, 192, 193, 224, 250, 256, 257, 300, 320) for k in (0, 1, 2, 3, 4)] + [NU('n_sqrtw', b, tl(b), k, contracts='usq', tactics='lia:10,nia:10,bv:10', cost=9, **T) for b in (500, 512, 640) for k in (0, 1, 2, 3)]
    + [NU('n_sqrt', 3, 2, tactics='bv:20', cost=90, time=200), NU('n_sqrt', 3, 0, tactics='bv:20', cost=90, **T)]
    + [NU('n_gcd', b, c, s_, tactics='bv:20', cost=9 + b * c) for b, c, s_ in ((4, 4, 0), (3, 4, 2), (4, 3, 1), (3, 3, 3))] + [NU('n_gcdz', a, b, s_, contracts='ulift', tactics='nia:5,lia:5', bound='common factor of any size') for a, b, s_ in ((6, 4, 0), (0, 1, 0), (1, 0, 0), (0, 0, 0), (1, 1, 3), (1000, 999, 1), (999, 1000, 0), (4294967296, 6, 0), (5, 3, 2), (8, 12, 3), (13, 21, 3), (7, 7, 0), (2, 1 << 40, 1))]
    + [NU('n_gcdc', d, s_, contracts='ulift', tactics='nia:5,lia:5', cost=d, bound='any natural') for d in (1, 2, 3, 4, 6, 8, 9, 10) for s_ in (0, 1)] + [NU('n_gcdr', d, contracts='ulift', tactics='nia:5,lia:5', cost=d, bound='naturals of any size') for d in (1, 2, 4, 6)] + [NU('n_gcdi', *a, tactics='bv:20') for a in ((6, 4, 0, 0), (3, 0, 1, 1), (5, 3, 3, 0), (4, 1, 2, 1), (0, 2, 0, 0), (2, 3, 1, 1))]
    + [NU('n_prime', b, t, k, contracts='sqrt', cost=5) for b, t, k in ((1, 10, 0), (11, 10, 0), (12, 8, 3), (14, 8, 3), (16, 8, 3), (16, 4, 1), (18, 5, 4), (20, 3, 4), (24, 3, 3), (10, 9, 0))] + [NU('n_primew', b, k, d) for b in (40, 63, 64, 65, 80, 96) for k, d in ((0, 3), (3, 5), (4, 2), (1, 7))]
    + [NU('n_primesq', k, w, contracts='sqrt', cost=5, extra=['--max-steps', '400000000'], bound='products of neighbouring primes') for k, w in ((0, 0), (1, 0), (2, 0), (3, 1), (6, 0), (8, 0), (6, 1))] + [NU('n_factorsq', k, cost=20, extra=['--max-steps', '400000000'], bound='products of neighbouring primes') for k in (0, 1, 2)]
    + [NU('n_factor', 10, 0, s_, cost=9) for s_ in (0, 1)] + [NU('n_factor', 12, 4000, 0, cost=9), NU('n_factor', 11, 1900, 1, cost=9)] + [NU('n_factorw', 40, 5, 0, 3), NU('n_factorw', 70, 0, 0, 3), NU('n_factorw', 33, 4, 0, 3)]
    + [NU(f, a, a + 10, s_) for f in ('n_fact', 'n_fib') for a in range(0, 200, 10) for s_ in ((0, 1) if a in (0, 10, 20, 120) else (0,))])
FX = 'nia:15,lia:10,bv:20'
PROPS['C19'] = Prop('F192 text and code words denote the numbers they stand for', 'decimal integers of up to 7 digits completely and up to 22 digits with listed leading digits; hexadecimal, octal and binary ones up to 9, 25 and 40 digits; fractions and exponents between -40 and 40 with up to 3 symbolic digits; every ASCII string of up to 3 characters; code words: every 13-digit word for listed exponent digits (value), listed first digits (round trip); printing: integers of 1 and 2 digits completely and of 3 to 10 digits with all but the last digit listed, divided by 2^0 to 2^10', 'longer literals; rounding of numbers that are no code words; printing beyond 10 integer digits or of numbers whose expansion is cut',
    [F('g_dec', n, m, neg, 0) for n, m, neg in ((1, 0, 0), (2, 1, 1), (3, 0, 0), (7, 0, 0))] + [F('g_dec', 4, 2, 1, 0, cost=9)] + [F('g_dec', n, m, neg, pre) for n, m, neg, pre in ((8, 0, 1, 12345), (9, 5, 0, 999999), (12, 1, 1, 9500000001), (13, 0, 0, 10000000001), (18, 0, 1, 9999999999999999), (20, 0, 0, 354123456789012345), (21, 0, 0, 1234567890123456789), (10, 0, 0, 99999999))]
    + [F('g_base', b, n, neg, up, am) for b, n, am in ((4, 1, 0), (4, 2, 1), (4, 3, 6), (4, 8, 0x55), (4, 9, 170), (3, 1, 0), (3, 4, 0), (3, 11, 0), (1, 1, 0), (1, 9, 0), (1, 33, 0)) for neg, up in ((0, 0), (1, 1))] + [F('g_base', 3, 25, 0, 0, 0, cost=9), F('g_base', 1, 40, 1, 1, 0, cost=9)] + [F('g_any', n, cost=n * n) for n in (0, 1, 2, 3)]
    + [F('g_exp', n, f, ex, neg, pre, cost=2) for n, f, ex, neg, pre in ((2, 1, 0, 0, 0), (2, 2, 0, 1, 0), (3, 3, 0, 1, 4), (3, 1, 0, 0, 0), (1, 0, 1005, 0, 0), (1, 0, 1001, 1, 0), (1, 0, 1036, 0, 0), (1, 0, 1037, 1, 0), (2, 0, 1040, 1, 3), (5, 2, 990, 0, 71), (1, 0, 999, 1, 0), (1, 0, 960, 0, 0), (2, 1, 1001, 0, 0), (2, 1, 1002, 1, 0), (2, 1, 1020, 0, 5), (9, 4, 0, 0, 1234567), (9, 8, 1008, 1, 1000000))]
    + [F('g_codeval', a, b, h, contracts='code', tactics='lia:10,nia:15,bv:20') for a, b in ((0, 1), (0, 2), (1, 0), (9, 10), (10, 3), (30, 31), (35, 36), (61, 59), (61, 60)) for h in (0, 1)] + [F('g_recode', n, a, contracts='code', tactics='lia:10,nia:15,bv:20', cost=9 if n == 13 else 1) for n, a in ((1, 3), (2, 10), (5, 3), (9, 61), (11, 36), (12, 5), (13, 1), (13, 30))]
    + [F('g_decode', n, pat) for n, pat in ((1, 0), (1, 1), (1, 2), (2, 4), (3, 6), (5, 9))] + [F('g_codebad', n, i) for n, i in ((1, 0), (2, 1), (5, 2), (13, 0), (13, 2), (13, 12), (14, 0), (20, 0))] + [F('g_code0')]
    + [F('g_show', *a, tactics='lia:20,nia:10,bv:20', cost=c) for a, c in (((1, 0, 0, 0, 0), 9), ((2, 0, 0, 0, 0), 30), ((3, 1, 99, 0, 1), 3), ((3, 0, 10, 0, 0), 3), ((4, 0, 655, 0, 0), 3), ((5, 0, 1000, 0, 1), 3), ((6, 0, 12345, 0, 0), 3), ((7, 1, 409600, 0, 0), 3), ((8, 0, 9999999, 0, 0), 3), ((9, 0, 30000000, 0, 1), 3), ((10, 0, 999999999, 0, 0), 3), ((10, 1, 100000000, 0, 0), 3), ((2, 0, 9, 1, 0), 3), ((2, 1, 1, 2, 0), 5), ((3, 0, 1, 1, 0), 30), ((4, 0, 102, 5, 1), 40), ((6, 0, 12345, 8, 1), 30), ((5, 0, 7777, 10, 0), 40))])

def Y(fn, *args, **kw): kw.setdefault('tactics', 'lia:20,nia:10,bv:10'); kw.setdefault('keep', 2); return Job(fn, args, **kw)
PROPS['C26'] = Prop('Scientific notation of integers, polynomials and matrices as text', 'scientific notation: every number of 1 to 19 digits for up to 10 shown digits (leading digits symbolic, all digits up to 10), numbers of 3 to 17 limbs with listed leading digits and everything behind them symbolic; polynomials of up to 5 coefficients and matrices of up to 4 entries with one-digit numerators (every value and sign) and denominators 1, 7, 11', 'leading digits of multi-limb numbers other than the listed ones; longer coefficients (their digits are C07 and C13)',
    [Y('y_sci', n, min(n, 6), k, via) for n in range(1, 20) for k, via in ((5, 0), (3, 2))] + [Y('y_sci', n, n, 10, v, cost=3) for n, v in ((6, 0), (8, 2), (9, 4), (10, 0))] + [Y('y_sci', n, 6, 5, v) for n in (3, 5, 12, 18) for v in (1, 3)] + [Y('y_sci', 19, 19, 10, 0, cost=20), Y('y_sci', 19, 4, 1, 4)] + [Y('y_sci0', v) for v in (0, 1, 2)]
    + [Y('y_scil', n, t, e, k, v, n, contracts='ubi', cost=5, bound=f'{n} limbs, leading digits {t}') for n, t, e, k, v in ((3, 999, 20, 3, 0), (3, 184467, 14, 6, 0), (3, 1, 20, 1, 2), (3, 10203, 20, 5, 4), (4, 100, 27, 2, 2), (4, 3402, 34, 4, 0), (5, 999, 40, 3, 0), (6, 10203, 48, 5, 0), (7, 7, 65, 1, 2), (8, 5550, 71, 4, 0), (9, 123, 80, 3, 0), (9, 90001, 79, 5, 2), (12, 10203, 108, 5, 0), (17, 999, 158, 3, 0))]
    + [Y('y_poly', n, 1, 9) for n in (0, 1, 2, 3, 4)] + [Y('y_poly', 5, 1, 2, cost=20), Y('y_poly', 3, 11, 9, cost=9), Y('y_poly', 2, 7, 6)] + [Y('y_mat', r, c, d, m_) for r, c, d, m_ in ((1, 1, 1, 9), (1, 2, 1, 9), (2, 1, 1, 9), (1, 3, 1, 9), (3, 1, 1, 9), (2, 2, 1, 9), (1, 1, 7, 6), (1, 2, 11, 9))])
