S = 'src/ubigint/'; B = 'src/bigint/'; R = 'src/ratio/'; F = 'src/fp192/'
prop('C01', 'Natural numbers add and subtract exactly',
  'For every two natural numbers the sum, the difference when it is not negative, and the absolute difference are exactly the mathematical ones, whether computed into a new value, in place, or with a machine-word operand, and the operands that are not updated keep their value. A difference that would be negative panics instead of returning a number. Every result is in the one canonical form of its value.',
  'all pairs of natural numbers and all 32-bit operands', 'carries and borrows that ripple through several limbs, or that end exactly at the top limb, occur for a vanishing share of inputs',
  [S + 'arith/add.rs', S + 'arith/sub.rs', 'src/utils.rs'], [('addition with carry', S + 'arith/add.rs'), ('subtraction with borrow', S + 'arith/sub.rs')], 'returned value and the mutated operand')
prop('C02', 'Natural numbers multiply and exponentiate exactly',
  'For every two natural numbers the product is exact and canonical, for operands of every length including those long enough to take the divide-and-conquer route, and so are products with a machine word and with a power of two. Raising a natural number to any 32-bit exponent gives the exact power, with anything to the zeroth power being one.',
  'all pairs of natural numbers, all 32-bit factors and exponents', 'the long-operand route only starts above 2048 bits and its recombination fails only for particular half values',
  [S + 'arith/mul.rs', S + 'arith/pow.rs'], [('schoolbook and Karatsuba product', S + 'arith/mul.rs'), ('square-and-multiply', S + 'arith/pow.rs')], 'returned value')
prop('C03', 'Natural-number division returns the exact quotient and remainder',
  'For every dividend and every nonzero divisor, the quotient q and remainder r of natural numbers satisfy dividend = q * divisor + r with r smaller than the divisor, in canonical form, whichever of the by-value, in-place and machine-word operations is used. Dividing by zero panics.',
  'all dividends and nonzero divisors', 'the multi-limb algorithm estimates the quotient from leading limbs and corrects it recursively; wrong corrections need rare leading-limb patterns',
  [S + 'arith/div.rs', S + 'arith/rem.rs'], [('estimate-and-correct long division', S + 'arith/div.rs'), ('remainder', S + 'arith/rem.rs')], 'returned quotient and remainder')
prop('C04', 'Integer comparisons agree with the order of the integers',
  'For all natural and signed integers, and for integers against machine integers, every comparison operation (less, greater, at most, at least, equal, not equal, three-way, and the operator traits) gives the answer of the mathematical order, without panicking.',
  'all pairs of integers of either sign and all 32-bit operands including the most negative', 'wrong answers appear for one combination of signs and lengths, or only at the most negative machine integer',
  [S + 'comp.rs', B + 'comp.rs'], [('magnitude comparison', S + 'comp.rs'), ('sign-aware comparison', B + 'comp.rs')], 'returned booleans and orderings')
prop('C05', 'Signed integer arithmetic is exact and zero is never negative',
  'For all signed integers of either sign, sum, difference, product, power, negation and absolute value are exact, in every by-value, in-place and machine-integer form (all 32-bit operands included). Division truncates toward zero, the remainder takes the sign of the dividend and is smaller in magnitude than the divisor, and division by zero panics. No operation produces a negative zero or a non-canonical magnitude.',
  'all signed operands and all 32-bit operands', 'sign cases, results that cancel to zero and the most negative machine integer are single points in the input space',
  [B + 'arith/add.rs', B + 'arith/sub.rs', B + 'arith/mul.rs', B + 'arith/div.rs', B + 'arith/rem.rs', B + 'arith/pow.rs', B + 'funcs.rs'], [('sign selection', B + 'arith')], 'returned value and the mutated operand')
prop('C06', 'Conversions between big and machine integers are exact or refused',
  'Every machine integer of every width and sign converts to a natural, signed or rational number of exactly the same value (negative values are refused for naturals). A big integer converts to a machine integer exactly when its value fits in that type, giving that value, and is refused with an error otherwise; converting between natural and signed integers keeps the value.',
  'all machine integers of 8 to 128 bits and all big integers', 'only the extreme values of each type, such as the most negative one, behave specially',
  [S + 'convert.rs', S + 'convert/from.rs', S + 'convert/into.rs', B + 'convert.rs', B + 'convert/from.rs', B + 'convert/into.rs', R + 'convert/from.rs'], [('range checks', B + 'convert.rs'), ('trait conversions', B + 'convert/into.rs')], 'returned value or error')
prop('C08', 'Shifts, powers of two and base-2 logarithms are exact',
  'Shifting an integer by whole 32-bit words multiplies or (truncating) divides its magnitude by that power of 2^32, keeping the low words gives the magnitude modulo it, and the sign is kept unless the result is zero. Multiplying by a power of two and reducing modulo a power of two are exact, and the base-2 logarithm of a positive natural is the position of its highest set bit.',
  'all integers, all shift distances and exponents', 'distances at or past the length of the number and exponents on word boundaries are special cases',
  [S + 'funcs/shift.rs', S + 'funcs/log.rs', S + 'arith/mul.rs', B + 'funcs.rs'], [('word shifts', S + 'funcs/shift.rs'), ('logarithm', S + 'funcs/log.rs')], 'returned value and the mutated operand')
prop('C10', 'Rational arithmetic is exact and always in lowest terms',
  'For all rationals, sum, difference, product, quotient, negation, absolute value, reciprocal and integer powers equal the mathematical result exactly, in every form (by value, in place, with a big-integer or 32-bit operand). Every result is in canonical form: positive denominator, numerator and denominator coprime, zero as 0/1. Dividing by zero or inverting zero panics.',
  'all rationals (numerators and denominators of any size), all integer operands', 'a missed reduction or sign normalisation needs a particular common factor or sign combination',
  [R + 'arith/add.rs', R + 'arith/sub.rs', R + 'arith/mul.rs', R + 'arith/div.rs', R + 'arith/pow.rs', R + 'funcs.rs', R + 'convert.rs'], [('cross-multiplication and reduction', R + 'arith'), ('normalisation', 'src/ratio.rs')], 'numerator and denominator of the result')
prop('C11', 'Rational comparisons agree with the order of the rationals',
  'For all rationals, and for a rational against a 32-bit integer, every comparison operation and the operator traits give the answer of the mathematical order, and equality holds exactly for equal values.',
  'all pairs of rationals and all 32-bit operands', 'cross-multiplied comparison goes wrong only for particular signs or for values closer than any sampled pair',
  [R + 'comp.rs'], [('cross-multiplied comparison', R + 'comp.rs')], 'returned booleans and orderings')
prop('C12', 'Rounding a rational obeys floor, round, truncate and fraction',
  'For every rational, floor is the largest integer not above it, truncation drops the fraction toward zero, rounding gives the nearest integer with halves away from zero, and truncated part plus fraction gives back the number. Each holds for the integer-valued and rational-valued forms and in place, for negative values and exact integers alike.',
  'all rationals', 'negative values, exact integers and exact halves are measure-zero cases for sampled inputs',
  [R + 'funcs.rs'], [('floor, round, truncate, frac', R + 'funcs.rs')], 'returned value')
M = 'src/matrix/'
prop('C20', 'Matrix sums, products, scaling and transposes are entrywise exact',
  'For matrices of rationals of every shape, sums, scalar multiples, products and transposes, by value and in place, have exactly the entries linear algebra defines, and the result has the right shape. Adding matrices of different shape, multiplying matrices whose inner dimensions differ and building a matrix from rows of different length return an error and leave the operands unchanged.',
  'all shapes and all rational entries', 'a swapped index or dimension shows only for non-square or non-symmetric operands',
  ['src/matrix.rs'], [('entrywise operations', 'src/matrix.rs')], 'entries and shape of the result')
prop('C21', 'Determinant and inverse satisfy their defining equations',
  'For every square matrix of rationals the determinant is the exact Leibniz (cofactor) determinant. The inverse exists exactly when the determinant is not zero and multiplied by the matrix gives the identity; otherwise an error is returned, as it is for matrices that are not square.',
  'all square matrices of rationals', 'sizes 1 to 4 have separate hand-expanded formulas in which one wrong term is easily missed by sample matrices',
  [M + 'det.rs', M + 'inv.rs', M + 'utils.rs'], [('expanded and recursive determinants', M + 'det.rs'), ('adjugates', M + 'inv.rs')], 'returned determinant, inverse or error')
prop('C22', 'Polynomials evaluate, differentiate and scale exactly',
  'A polynomial built from a list of rational coefficients is stored without leading zeros, evaluates to the exact value at every rational, and has the exact derivative and scalar multiples, by value and in place, again without leading zeros. A Newton step returns x - f(x)/f\'(x).',
  'all coefficient lists, scalars and arguments', 'leading or interior zero coefficients and the zero polynomial are special cases',
  ['src/poly.rs'], [('coefficient list', 'src/poly.rs')], 'coefficients and values')
prop('C23', 'Interpolating polynomials pass through the given points',
  'The polynomial through n points with distinct abscissae has degree below n and takes the given value at every point, and interpolation is refused when two abscissae coincide. The linear, quadratic and cubic (two values, two slopes) constructions satisfy all their conditions when abscissae differ, and the documented fallback when they coincide.',
  'all point sets', 'each special construction has its own formula and its own degenerate cases',
  ['src/poly/from_points.rs', M + 'inv.rs'], [('linear systems', 'src/poly/from_points.rs')], 'value of the polynomial at the points')
prop('C24', 'Complex addition is exact in both parts',
  'Adding complex numbers, or a 32-bit integer to a complex number, by value and in place, adds real and imaginary parts exactly (an integer changes the real part only) and leaves the other operand unchanged.',
  'all complex numbers with rational parts and all 32-bit integers', 'mixed-up parts are invisible for real operands',
  ['src/complex/arith/add.rs', 'src/complex/convert.rs'], [('componentwise addition', 'src/complex/arith/add.rs')], 'real and imaginary part')
prop('C07', 'Integers are parsed from and printed as text exactly',
  'A decimal, 0x, 0o or 0b literal (either letter case, underscores between digits ignored, a leading minus sign for signed integers) parses to exactly the integer it denotes through every entry point, and text that is no such literal is refused. Printing gives the digits of exactly that value in base 10, 2, 8 or 16, without superfluous leading zeros, with a minus sign for negative values and the base prefix when asked for.',
  'all strings and all integers', 'digits are processed in groups of several per limb, so errors appear only at particular lengths or for groups that start with zeros',
  [S + 'convert.rs', S + 'convert/from.rs', S + 'convert/into.rs', B + 'convert.rs', B + 'convert/from.rs'], [('parser and printer', S + 'convert.rs'), ('signed forms', B + 'convert.rs')], 'parsed value, error, or printed text')
prop('C13', 'Rationals are parsed exactly from, and printed faithfully as, decimal text',
  'A decimal literal with an optional sign, fraction and exponent (underscores after the first digit are ignored) parses to exactly the rational it denotes, in lowest terms. Printing in fixed-point form at a given width gives the exact decimal expansion truncated toward zero, within the width and without trailing zeros, and printing as a fraction gives numerator and denominator exactly.',
  'all literals, all rationals and widths', 'rare combinations of exponent, number of fraction digits and trailing zeros take separate branches',
  [R + 'convert.rs', R + 'convert/from.rs', 'src/ratio.rs'], [('parser and printer', R + 'convert.rs')], 'parsed numerator and denominator, or printed text')
prop('C14', 'Rationals convert exactly from, and faithfully to, machine numbers',
  'Every machine integer and every finite f32 and f64 converts to the rational of exactly that value; infinities and NaN are refused. A rational converts to an integer type by truncation toward zero, refused exactly when that does not fit, and to f32 or f64 as a nearest representable value (subnormals included), refused only when its magnitude exceeds the largest finite value.',
  'all rationals, all machine integers and all floats', 'subnormals, rounding carries into the next binade and values next to the ends of the range are a vanishing share of inputs',
  [R + 'convert/ieee754.rs', R + 'convert/from.rs', R + 'convert/into.rs'], [('IEEE 754 decomposition and rounding', R + 'convert/ieee754.rs')], 'returned value or error')
prop('C15', 'F192 order, sign and scaling agree with the numbers denoted',
  'For all F192 numbers, equality, every comparison and ordering, the sign tests, negation, absolute value, the integrality test, the base-2 logarithm and construction of powers of two agree with the real numbers that the significand, exponent and sign denote. Zero has one representation and behaves as zero in each of them.',
  'all pairs of F192 numbers with exponents away from the ends of the exponent range', 'negative operands with equal exponents, and numbers that differ only in the last significand word',
  [F + 'comp.rs', 'src/fp192.rs', F + 'funcs.rs', F + 'consts.rs'], [('comparison', F + 'comp.rs'), ('sign handling', F + 'funcs.rs')], 'returned booleans, orderings and numbers')
prop('C16', 'F192 sums, differences and products are accurate to the last places',
  'For all F192 numbers the sum, the difference and the product or quotient with a 32-bit integer differ from the exact result by less than one unit in its last place, and the product of two F192 numbers by less than sixteen; signs are always right, operands too far apart leave the larger one unchanged, and products of 64-bit integers are exact. Division by zero panics.',
  'all pairs of F192 numbers with exponents away from the ends of the exponent range, all 32-bit integers', 'carries between the 32-bit words of the significand and alignment at particular exponent distances occur for few operand pairs',
  [F + 'arith/add.rs', F + 'arith/sub.rs', F + 'arith/mul.rs', F + 'arith/div.rs'], [('aligned addition', F + 'arith/add.rs'), ('subtraction', F + 'arith/sub.rs'), ('multiplication', F + 'arith/mul.rs')], 'sign, exponent and significand of the result')
prop('C17', 'F192 converts exactly from, and faithfully to, integers, floats and rationals',
  'Every machine integer and every finite f32 and f64 converts to the F192 of exactly that value (infinities and NaN refused), and every F192 converts to the rational of exactly its value. An F192 converts to an integer type by truncation toward zero, refused exactly when that does not fit, to f32 or f64 as a nearest representable value (infinity beyond the range), and a rational converts to a nearest F192.',
  'all machine numbers, all F192 numbers and all rationals', 'subnormals, the most negative integers and rounding carries into the next binade are corner cases',
  [F + 'convert.rs', 'src/fp192.rs'], [('bit-level conversions', F + 'convert.rs')], 'returned value or error')
prop('C18', 'Rounding an F192 obeys floor, ceil, round, truncate and fraction',
  'For every F192 number, truncation drops the fraction toward zero, floor and ceiling are the nearest integers below and above, rounding gives the nearest integer with halves away from zero, and integer part plus fraction gives back the number. Numbers that are integers already are returned unchanged.',
  'all F192 numbers', 'the fraction boundary may lie inside any of the four significand words, and carries may reach the exponent',
  [F + 'funcs.rs', F + 'convert.rs'], [('bit-level truncation', F + 'funcs.rs')], 'returned number')
prop('C09', 'Roots, common divisors, primes, factors, factorials, Fibonacci numbers',
  'The integer square root is the largest integer whose square does not exceed the number (with the sign kept for signed numbers), and the greatest common divisor divides both numbers and is divisible by every common divisor, never negative. Primality is decided exactly, factorisation yields primes in ascending order whose product is the number, and factorials and Fibonacci numbers are exact.',
  'all integers', 'the root search starts from an approximation whose error depends on every leading bit, so wrong results or endless loops show at few numbers',
  [S + 'funcs.rs', B + 'funcs.rs', 'src/utils.rs'], [('root search, trial division, Euclid', S + 'funcs.rs')], 'returned integers and booleans')
prop('C19', 'F192 text and code words denote the numbers they stand for',
  'A decimal, 0x, 0o or 0b integer literal that fits the significand parses to exactly that F192, literals with fraction or exponent to within a relative error of 2^-120, with the right sign, and malformed text is refused. An integer below 10^10, or a number with a short exact decimal expansion, prints as exactly that expansion. Every 13-character code word other than the reserved word for zero denotes exactly one nonzero number, decoding and encoding again gives the same word, and characters outside the alphabet or words that are too long are refused.',
  'all strings and all code words', 'digits are accumulated in groups and the significand is renormalised at each step, so errors depend on the digits',
  [F + 'convert/string.rs'], [('literal parser', F + 'convert/string.rs'), ('13-character code', F + 'convert/string.rs')], 'parsed number, error or code word')
prop('C26', 'Scientific notation, polynomials and matrices print what they denote',
  'Scientific notation of an integer with at most k digits (k up to ten) shows its leading digits truncated toward zero, without trailing zeros, with the exact decimal exponent and the sign. A polynomial prints as the sum of its nonzero terms from the highest power down, coefficients in lowest terms and a coefficient of one left out before a power, and zero as 0; a matrix prints every entry, row by row, in brackets.',
  'all integers, polynomials and matrices', 'digits are cut in several division stages depending on the length, and every combination of signs, ones and zeros prints differently',
  [S + 'convert.rs', B + 'convert.rs', 'src/poly.rs', 'src/matrix.rs'], [('scientific notation', S + 'convert.rs'), ('polynomial text', 'src/poly.rs'), ('matrix text', 'src/matrix.rs')], 'returned text')
prop('C25', 'Roots, logarithms, exponentials and trigonometric series are accurate',
  'The square root, logarithm, exponential, trigonometric, pi and e functions of rationals and F192, F192 division by another F192, and the scaled base-2 logarithm and exponential of integers approximate the real function value to the documented precision.',
  'all arguments in the domain', 'the error varies with the argument and accumulates over iterations',
  [F + 'funcs.rs', R + 'funcs.rs', S + 'funcs/log.rs', S + 'funcs/exp.rs', F + 'arith/div.rs'], [('series and bisection loops', F + 'funcs.rs')], 'returned number')
NA.append(('C25', 'the specification is a transcendental function, which no decision procedure available here handles, and the code is iteration over products of symbolic 127-bit significands or growing rationals (128-round bisection, series whose length depends on the value): each step multiplies symbolic by symbolic, beyond bit-vector and nonlinear integer solving even for a single iteration; the exact parts they are built on (sums, products, comparisons, rounding) are decided by C01 to C18'))
