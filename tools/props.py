prop('C01', 'Natural-number addition, subtraction and multiplication are exact',
     'For all unsigned big integers, adding, subtracting (when the result is not negative), taking the absolute difference, multiplying, raising to a power, multiplying by a power of two and shifting left by whole words return exactly the mathematical result, and never panic when it is defined. This holds for every operand length, including those where another algorithm is selected for large operands.',
     'every pair of operands, every carry/borrow pattern, every word-length combination',
     'the tests multiply and add a few hand-picked and a few random numbers; carries that ripple through all words, words equal to the maximum, and length combinations around the algorithm switch are not enumerated',
     [U + '/arith/add.rs', U + '/arith/sub.rs', U + '/arith/mul.rs', U + '/arith/pow.rs', U + '/funcs/exp.rs', U + '/funcs/shift.rs', 'src/utils.rs'],
     [('carry propagation', 'src/utils.rs v64_to_v32; add_mut/sub_mut loops'), ('schoolbook / Karatsuba switch', U + '/arith/mul.rs'), ('square and multiply', U + '/arith/pow.rs')],
     state=[('limbs', 'little-endian base 2^32 digits', U + '.rs')], observe=['return value', 'the mutated receiver'], level_note=LN_U)
prop('C02', 'Natural-number division, remainder, word shifts, log2 and gcd are exact',
     'For all unsigned big integers, the quotient is the floor of the exact quotient, the remainder completes it, a right shift by words drops exactly the low words, keeping the low words yields the exact residue, log2 is the index of the highest set bit, and gcd is the greatest common divisor. No input with a nonzero divisor panics.',
     'every dividend and divisor, every length combination, in particular quotient estimates that are off by one',
     'long division estimates the quotient from the leading words and corrects it; only specific leading-word patterns reach each correction path and tests sample a handful',
     [U + '/arith/div.rs', U + '/arith/rem.rs', U + '/funcs/shift.rs', U + '/funcs/log.rs', U + '/funcs.rs'],
     [('quotient estimation and correction', U + '/arith/div.rs'), ('remainder by multiply-back', U + '/arith/rem.rs'), ('Euclidean loop', U + '/funcs.rs gcd_ubi')],
     observe=['return value', 'the mutated receiver'], level_note=LN_U + ' gcd: all pairs whose Euclidean remainder sequence has length at most five.')
prop('C03', 'Signed integer arithmetic is exact with truncated division',
     'For all signed big integers, addition, subtraction, multiplication, negation, absolute value and powers return the exact integer; division truncates toward zero and the remainder is what is left of the dividend. Word shifts act on the magnitude and keep the sign.',
     'every sign combination and magnitude relation, including zero, equal magnitudes and the extreme 32-bit operands',
     'sign handling is a case table over signs and magnitude order; tests sample points and the extreme 32-bit operand is not among them',
     ['src/bigint/arith', 'src/bigint/funcs.rs', 'src/bigint.rs'],
     [('sign tables', 'src/bigint/arith/{add,sub,mul,div,rem}.rs'), ('magnitude arithmetic', 'src/ubigint/arith')], observe=['return value', 'the mutated receiver'])
prop('C04', 'Rational arithmetic equals the field operations',
     'For all rationals, sum, difference, product, quotient, negation, reciprocal, absolute value and integer powers (negative exponents included) denote exactly the value the field of rationals defines, whichever operand kind (rational, big integer, machine integer) is used. Building a rational from a numerator and a denominator denotes that quotient.',
     'every pair of rationals / integers and every exponent',
     'values are unbounded; tests sample a few fractions and cannot cover sign/zero/common-factor combinations',
     ['src/ratio/arith', 'src/ratio/convert.rs', 'src/ratio.rs'],
     [('cross multiplication and reduction', 'src/ratio/arith/*.rs'), ('construction and fit', 'src/ratio.rs')], observe=['return value', 'the mutated receiver'])
prop('C05', 'Every produced number is in canonical form',
     'Every unsigned integer returned or left behind by a public operation has no superfluous leading zero word, every signed integer has no negative zero, and every rational has a positive denominator coprime to its numerator. Structural equality therefore coincides with numeric equality.',
     'every public operation applied to every canonical input, hence every history of operations',
     'tests check validity only on the values they compute; a missing normalisation shows only when a result happens to shrink, become zero or share a factor',
     ['src/ubigint', 'src/bigint', 'src/ratio', 'src/utils.rs'],
     [('leading zero removal', 'src/utils.rs remove_suffix_0'), ('sign of zero', 'src/bigint.rs from_ubi / sign resets'), ('reduction', 'src/ratio.rs fit')], over=('inputs', 'histories'), observe=['return value', 'the mutated receiver'])
prop('C06', 'All comparison forms agree with the numeric order',
     'Less, greater, less-or-equal, greater-or-equal, equal, not-equal, three-way comparison, the comparison operators and the machine-integer forms all answer according to the numeric order of the two numbers, for unsigned, signed and rational numbers alike, and never panic.',
     'every pair of numbers',
     'comparison walks words from the top; each form is a separate function and tests compare few pairs in few forms',
     ['src/ubigint/comp.rs', 'src/bigint/comp.rs', 'src/ratio/comp.rs'],
     [('lexicographic comparison', 'src/ubigint/comp.rs'), ('sign cases', 'src/bigint/comp.rs'), ('cross multiplication', 'src/ratio/comp.rs')], observe=['return value'])
prop('C07', 'Undefined operations always panic and never return a number',
     'Dividing or taking a remainder by zero, inverting zero, raising zero to a negative power, building a rational with a zero denominator, and subtracting a larger unsigned number from a smaller one never return a value: they panic, in every operand form.',
     'every dividend / minuend and every operand form, including a zero dividend',
     'should_panic tests exist for few forms; early returns for a zero dividend or for short operands can skip the check',
     ['src/ubigint/arith', 'src/bigint/arith', 'src/ratio/arith', 'src/ratio.rs'],
     [('division by zero guards', 'src/*/arith/{div,rem}.rs'), ('zero denominator rejection', 'src/ratio.rs fit'), ('borrow past the top word', 'src/ubigint/arith/sub.rs')], observe=['return or panic'])
prop('C08', 'Integer conversions are lossless or report an error',
     'Converting between machine integers, booleans, unsigned, signed and rational numbers yields exactly the same value (rationals are truncated toward zero when an integer is asked for), and whenever the target type cannot hold it the conversion reports an error instead of wrapping or panicking. This covers every width from 8 to 128 bits and both by-value and by-reference forms.',
     'every value of the source type, in particular the boundaries of the target type',
     'there are about two hundred conversion functions generated by macros; boundary values of each are not sampled',
     ['src/ubigint/convert.rs', 'src/bigint/convert.rs', 'src/ratio/convert.rs', 'src/impl_macros.rs'],
     [('range checks', 'to_u32/to_u64/to_u128/to_i32/to_i64/to_i128'), ('macro-generated impls', 'src/impl_macros.rs')], observe=['Ok value or error'])
prop('C09', 'Truncation, fractional part, floor and rounding of rationals are exact',
     'For every rational, truncation drops the fraction toward zero, the fractional part is what truncation dropped, floor is the greatest integer not above it, and rounding goes to the nearest integer with halves away from zero. Truncation plus fractional part always restores the number.',
     'every rational, in particular negative ones, integers and exact halves',
     'few negative and half-way values are sampled',
     ['src/ratio/funcs.rs'], [('truncate / floor / round', 'src/ratio/funcs.rs')], observe=['return value', 'the mutated receiver'])
prop('C10', 'In-place and small-operand variants agree with the plain operation',
     'For every operation offered in several forms (returning a new number, updating in place, taking a machine-integer or big-integer operand instead of a full number), all forms produce the same number for the same operands. Extreme machine-integer operands are included.',
     'every operation, every variant, every operand',
     'each variant is separate code; tests only cross-check sampled values inside test builds',
     ['src/ubigint/arith', 'src/bigint/arith', 'src/ratio/arith', 'src/*/funcs.rs'],
     [('sibling implementations', '*_mut, *_u32, *_i32, *_bi functions')], observe=['return value', 'the mutated receiver'])
prop('C11', 'Matrix algebra over the rationals is exact',
     'For every rational matrix, sum, difference, product, scalar product, transpose, sub-matrix, determinant, cofactors, adjugate and inverse equal the results of linear algebra, in-place and operator forms included. A dimension mismatch, a non-square operand or a singular matrix is reported as the documented error and never yields a wrong matrix or a panic.',
     'every matrix dimension, every entry (zero pivots and singular matrices included), every mismatch of dimensions',
     'tests invert random small integer matrices; index arithmetic for non-square shapes, each error path and zero entries in the expansion are not enumerated',
     ['src/matrix.rs', 'src/matrix/det.rs', 'src/matrix/inv.rs', 'src/matrix/utils.rs'],
     [('cofactor expansion', 'src/matrix/det.rs'), ('adjugate over determinant', 'src/matrix/inv.rs'), ('dimension checks', 'src/matrix.rs')],
     observe=['return value or error', 'the mutated receiver'],
     level_note='Sound for all rational entries per matrix shape: dimensions up to 4x4 (products up to 3x3; determinant/inverse up to 4x4 in the thorough tier). Larger dimensions are not covered. Rational arithmetic enters through summaries that C04 checks. Trusts rustc MIR, the transfer functions for std, and that calls terminate.')
prop('C12', 'Polynomial operations and curve fitting are exact',
     'For every polynomial, evaluation, scaling, differentiation, construction from coefficients and a Newton step give exactly the polynomial or value algebra defines, with no superfluous leading zero coefficient. Fitting a line, a quadratic or a cubic returns the polynomial through the given points (and slopes), or nothing exactly when no such unique polynomial exists.',
     'every coefficient list, every evaluation point, every set of points (repeated and collinear ones included)',
     'tests fit a few point sets; coincident abscissae, vanishing leading coefficients and zero derivative at the starting point are rare in samples',
     ['src/poly.rs', 'src/poly/from_points.rs'],
     [('Horner evaluation', 'src/poly.rs calc'), ('leading coefficient trimming', 'src/poly.rs'), ('interpolation', 'src/poly/from_points.rs')],
     observe=['return value'],
     level_note='Sound for all rational coefficients and points per degree: degrees up to 4. Larger degrees are not covered; addition and multiplication of polynomials are unimplemented in the library (todo!) and outside the property. Rational arithmetic enters through summaries that C04 checks.')

prop('C13', 'F192 sign, order, scaling, rounding and integer conversions are exact',
     'For every F192 number in the usable exponent range: negation, absolute value, scaling by powers of two, truncation, floor, ceiling, rounding to nearest (halves away from zero), fractional part, the integer test, ilog2, equality and ordering are exactly those of the number it denotes. Conversion from every primitive integer type and to Ratio is exact; conversion to a primitive integer truncates toward zero and fails exactly when the truncated value does not fit.',
     'every mantissa and sign, every exponent at which the operation behaves differently (no fractional bits, some, all), every primitive integer',
     'the mantissa has 2^127 values per exponent; boundary mantissas (all ones, exact halves, the most negative integer) are hit by samples almost never',
     ['src/fp192.rs', 'src/fp192/comp.rs', 'src/fp192/convert.rs', 'src/fp192/funcs.rs', 'src/fp192/funcs/ln.rs', 'src/fp192/funcs/pow.rs'],
     [('sign and magnitude', 'src/fp192.rs neg, abs, shl, shr, step_epsilon, is_integer'), ('order', 'src/fp192/comp.rs'), ('rounding', 'src/fp192/funcs.rs floor, ceil, round, truncate, frac'), ('integers', 'src/fp192/convert.rs from_u128, to_u128, to_i128')],
     observe=['return value'],
     level_note='Sound for all mantissas; exponents: one cell per exponent for -131..2 (selected ones for round, frac and the integer conversions on the quick tier), and symbolic classes beyond. Exponents outside +-2^40 (where the 64-bit exponent field itself could overflow) are not covered.')

prop('C14', 'F192 addition, subtraction, multiplication and scaling stay within a fixed error',
     'For all F192 numbers in the usable exponent range, the result is a normal form of the right sign: addition and subtraction are within 1 unit in the last place of the exact sum or difference (exact zero when the operands cancel), multiplication within 8 units, multiplication and division by an i32 within 2 units, conversion from Ratio within 1 unit; zero operands give exact results; division by the integer zero panics and nothing else does.',
     'every pair of mantissas and signs, every alignment of the exponents, every i32 operand',
     'rounding carries out of the top bit and full cancellation need particular pairs of 127-bit mantissas',
     ['src/fp192/arith/add.rs', 'src/fp192/arith/sub.rs', 'src/fp192/arith/mul.rs', 'src/fp192/arith/div.rs', 'src/fp192/convert.rs'],
     [('aligned addition with carry', 'src/fp192/arith/add.rs'), ('128x128 product from halves', 'src/fp192/arith/mul.rs'), ('small operands', 'src/fp192/arith/mul.rs mul_i32, src/fp192/arith/div.rs div_i32'), ('rounding of rationals', 'src/fp192/convert.rs From<&Ratio>')],
     observe=['return value', 'panic'],
     level_note='Sound for all mantissas and signs; exponent differences -129..129 (selected ones on the quick tier) and symbolic beyond for addition; subtraction of like signs and conversion from Ratio at selected exponents and magnitudes; multiplication and division by i32 for all exponents. F192::div (bisection) is not covered: its loop has no static bound.')

prop('C15', 'Conversions between IEEE 754 floats and exact numbers keep the value',
     'Every finite f32 or f64 (denormals and both zeros included) converts to exactly the number it denotes as Ratio and F192, and to its integer part as BigInt and, when not negative, UBigInt; NaN and infinities give the conversion error. Back, a Ratio, BigInt or UBigInt becomes the nearest float (among denormals one of the two floats next to it, itself when representable) with the right sign, and an error beyond the largest float; an F192 becomes the nearest float, infinity beyond the largest and zero below the smallest normal one. No conversion panics.',
     'every bit pattern of f32 and f64, every rational and every F192 around each change of exponent (denormal boundary, powers of two, largest float)',
     'there are 2^32 and 2^64 patterns; rounding that carries into the next exponent and the denormal and overflow boundaries occupy a vanishing fraction of them',
     ['src/ratio/convert/ieee754.rs', 'src/ratio/convert/from.rs', 'src/ratio/convert/into.rs', 'src/bigint/convert', 'src/ubigint/convert', 'src/fp192/convert.rs'],
     [('field decomposition', 'src/ratio/convert/ieee754.rs inspect_ieee754_*'), ('rounding and carry', 'src/ratio/convert/ieee754.rs to_ieee754_*'), ('F192 rounding', 'src/fp192/convert.rs From<F192> for f32, f64')],
     observe=['return value', 'error value', 'panic'],
     level_note='Sound for every significand per exponent cell: float to number with one cell per exponent field (all 256 of f32 and all 2048 of f64 for the functions that look at the bits, selected ones for their wrappers on the quick tier); number to float per binary magnitude, dense around the denormal, unit and overflow boundaries and around every constant the code compares exponents with, the operand symbolic inside a magnitude. Wrappers are covered at fewer magnitudes. Transfer functions for bit casts trust the IEEE layout.')

prop('C16', 'Numbers are written and read back as exactly the digits they denote',
     'The decimal, hexadecimal, octal and binary text of an integer consists of its sign, the prefix if asked for, and its digits with no leading zeros (zero is a single 0), through the methods and through Display, LowerHex, Octal and Binary alike; the ratio text of a rational is its reduced numerator, followed by a slash and the denominator unless that is one. Reading accepts the documented grammar (decimal, or 0x/0o/0b in either case, underscores between digits; a minus sign for signed numbers; a fraction and a decimal exponent for rationals) and yields exactly the number written, in canonical form; an empty text, a stray character, a digit too large for the base, a missing digit or exponent, or an exponent that does not fit is an error and never a panic or another number.',
     'every number of every length, every text of the grammar and every malformed one',
     'groups of nine or ten digits with leading zeros inside, chunk boundaries of the reader, and malformed positions are rarely sampled',
     ['src/ubigint/convert.rs', 'src/bigint/convert.rs', 'src/ratio/convert.rs', 'src/ubigint/convert/from.rs', 'src/bigint/convert/from.rs', 'src/ratio/convert/from.rs'],
     [('digit groups with zero padding', 'src/ubigint/convert.rs to_string_dec, to_string_hex, to_string_oct, to_string_bin'), ('reader state machine', 'src/ubigint/convert.rs from_string'), ('fraction and exponent', 'src/ratio/convert.rs from_string'), ('formatting traits', 'src/ubigint/convert.rs, src/bigint/convert.rs')],
     observe=['returned text', 'text written to the formatter', 'number read or error'],
     level_note='Sound for every value of the limbs per limb count (1-5 quick, 1-9 thorough; any length for wrappers), and for every choice of the symbolic characters per pattern of character classes: digit runs of 1-26 (60) decimal and up to 17 (28) hexadecimal/octal or 65 binary digits, underscores, signs, prefixes and malformed characters at listed positions; rationals with up to 8 (20) fraction digits, decimal exponents up to 11 in magnitude with the trailing digits fixed. Approximate decimal texts (to_approx_string, to_scientific_notation, Display of Ratio) and F192 texts are not covered. Transfer functions for str, String, char and the format machinery are trusted.')
