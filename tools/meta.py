#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run it after editing the list)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

F, M, N, R, D, IOF, IOP, CO, SI, UT, EH = ("include/eirin/" + x for x in ("fixed.hpp", "math.hpp", "numbers.hpp", "random.hpp", "detail/distribution.hpp", "io/format.hpp", "io/parse.hpp", "ext/cordic.hpp", "ext/simd_math.hpp", "detail/util.hpp", "error.hpp"))
INP, CONF, HIST = "inputs", "configurations", "histories"

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


PB = "property-based testing against an exact reference model"

prop("C01", "Addition, subtraction, negation, ++ and -- are exact",
     "For every fixed point type and all numbers a, b for which the mathematical result is representable, a + b, a - b, -a, their compound forms and the prefix and postfix ++ and -- give exactly that result, without rounding. Compound forms change only their left operand and return it; postfix forms return the old value; operands may be the same object.",
     [INP, CONF], "all pairs of numbers with a representable result, every storage type and number of fraction bits, rounding on or off, both main types",
     "The tests add a few decimal literals of fixed32 and fixed64; they do not reach other configurations, the ends of the range, or aliased operands.",
     [F], ["operator+, operator-, operator+=, operator-=, operator++, operator--"], PB, "")
prop("C02", "Multiplication is the exact product rounded down",
     "For every type without rounding and all numbers a, b whose product is representable, a * b and a *= b give the greatest multiple of one ulp (2^-fraction bits) that is not greater than the exact product. In particular it is commutative, a * 1 == a, and the intermediate product never overflows, even when a and b use all bits.",
     [INP, CONF], "all pairs of factors with a representable product, every configuration without rounding",
     "The tests multiply a handful of literals with a tolerance; they do not fix the rounding of negative products or the widest operands.",
     [F], ["operator*, operator*= through the intermediate type"], PB, "")
prop("C03", "Division truncates the exact quotient; the remainder is exact",
     "For every type without rounding and all a, b with b not zero, a / b and a /= b give the exact quotient truncated toward zero to a multiple of one ulp whenever it is representable. a % b and a %= b always give the exact remainder of the truncated integer division of the values, with the sign of a.",
     [INP, CONF], "all pairs with non-zero divisor, including the minimum divided by the smallest negative number for the remainder",
     "The tests divide a few literals; signs, tiny divisors, the ends of the range and the remainder are not covered.",
     [F], ["operator/, operator/=, operator%, operator%="], PB, "")
prop("C04", "Mixed arithmetic with integers of any type is exact",
     "For a fixed point number a and an integer n of any built-in integer type (signed or unsigned, narrower or wider than the number), a + n, n + a, a - n, n - a, a * n, n * a, a % n, n % a and the compound forms give exactly the mathematical result whenever it is representable (for +, - and %: with n representable in the type and, for unsigned types, n not negative). For types without rounding a / n is the exact quotient truncated toward zero to a multiple of one ulp for every non-zero n; n / a is the quotient of the number n and a (truncated, or rounded to nearest for rounding types).",
     [INP, CONF], "all numbers, all eleven standard integer types and their values, every operation",
     "The tests combine a few numbers with int literals only; no unsigned or wide integers and no negative values with unsigned integers.",
     [F], ["operator+=(integral) ... operator%=(integral), free operators between fixed point and integral"], PB, "")
prop("C05", "Rounding types round to nearest, halves away from zero",
     "For every type with rounding enabled, products (*, *=), quotients of two numbers (/, /=, divide, divide_by), construction from float, double and long double, and conversion from a fixed point type with more fraction bits give the multiple of one ulp nearest to the exact result, exact halves away from zero, whenever it is representable.",
     [INP, CONF], "all operands with a representable result, every configuration with rounding; in particular results on and next to a tie",
     "The rounding tests use a few literals and one direction; ties, negatives and values whose rounding needs exact arithmetic are not reached.",
     [F], ["operator*, operator/, floating point constructor, from_fixed_num_value with rounding = true"], PB, "")
prop("C06", "Checked division throws exactly for zero divisors",
     "divide and divide_by, with a fixed point or any integer divisor, throw divide_by_zero (a std::domain_error) if and only if the divisor is zero, and then leave the number unchanged. Otherwise they give the same value as the division operator, divide leaving its operand unchanged and divide_by returning the updated number.",
     [INP, CONF], "all dividends and divisors including zero of every integer type; state after the exception",
     "The tests do not call the checked division.",
     [F, EH], ["divide, divide_by"], PB, "")
prop("C07", "Comparison, min, max, sign bit and hash follow the value",
     "For all numbers a, b of one type ==, !=, <, <=, >, >= and <=> agree with the order of the real values (also when the difference is not representable), min and max return the smaller and the greater one, signbit is true exactly for negative numbers, and equal numbers have equal hashes. Consequently sorting, ordered and unordered containers behave as for the values.",
     [INP, CONF, HIST], "all pairs, and lists of numbers put into sorted and hashed containers, every configuration including unsigned types",
     "The tests compare a few literals.",
     [F, M], ["operator==, operator<=>, min, max, signbit, fixed_hash"], PB, "")
prop("C08", "Nearly-comparisons have a tolerance of exactly 5/65536",
     "For all numbers a, b nearly_eq holds exactly when |a - b| <= 5/65536 as real numbers (for rounding types with fewer than 16 fraction bits: 5/65536 rounded to a multiple of one ulp), nearly_ne is its negation, nearly_gt and nearly_lt hold exactly when a > b respectively a < b and not nearly_eq, and nearly_gt_eq and nearly_lt_eq are the negations of nearly_lt and nearly_gt. This also holds when a - b is not representable and for unsigned types.",
     [INP, CONF], "all pairs, in particular at and one ulp beside the tolerance and at opposite ends of the range",
     "The tests use the nearly-comparisons only as a tool to compare near values.",
     [F], ["nearly_eq, nearly_ne, nearly_gt, nearly_lt, nearly_gt_eq, nearly_lt_eq, nearly_compare_epsilon"], PB, "")
prop("C09", "Conversions to and from integers and floating point numbers",
     "A representable integer of any integer type converts to exactly that number and back; a number casts to an integer as its floor whenever that fits the integer type. A floating point number inside of the range converts by truncation toward zero to a multiple of one ulp (types without rounding), and a number casts to float, double and long double as the nearest floating point number, hence exactly if the mantissa is wide enough and back to the same number.",
     [INP, CONF], "all integers of sixteen types, all numbers, floating point numbers of any exponent and next to representable numbers",
     "The tests convert a few literals.",
     [F], ["constructors from integral and floating point types, explicit conversion operators"], PB, "")
prop("C10", "Conversions between fixed point types keep the value or truncate it",
     "Converting a number to a fixed point type with at least as many fraction bits, whose range contains it, keeps the value exactly (and converting back returns the original); converting to a type with fewer fraction bits and without rounding truncates toward zero to a multiple of its ulp. The same holds for building a number from a raw value with a given number of fraction bits; reading the raw value and building a number from it again is the identity.",
     [INP, CONF], "all pairs of types out of fifteen storage/fraction combinations and all values inside of both ranges",
     "The tests convert between fixed32 and fixed64 for a few literals.",
     [F], ["converting constructor, from_fixed_num_value, from_internal_value, internal_value"], PB, "")
prop("C11", "floor, ceil, trunc, round, abs, modf and the parts of a number",
     "For every number x, floor, ceil and trunc give the greatest integer not greater than x, the smallest integer not less than x (the maximum of the type if that is not representable) and the integer part toward zero; round gives the nearest integer with halves away from zero and abs the magnitude, when representable. modf stores floor(x) and returns x - floor(x); integral_part is the integral part of |x| and fractional_part the remaining raw fraction with the sign of x.",
     [INP, CONF], "every number of every configuration (8 and 16 bit types exhaustively; fixed32 exhaustively in the thorough tier)",
     "The tests check a few literals per function.",
     [M, F], ["ceil, floor, trunc, round, abs, modf, integral_part, fractional_part"], PB + ", exhaustive for small types", "")
prop("C12", "Stream output prints the exact value in base 10, 16, 8 and 2",
     "Writing any number to an output stream prints its exact value: an optional minus sign, the integral part without leading zeros, and, if there is a fraction, a point and all its digits up to the last non-zero one. The base is 10, 16 or 8 as selected by the stream's base flags (2 when none is set), digits above nine are lower case or, with the uppercase flag, upper case; the width of the stream pads the whole text with its fill character, on the right if left adjusted, else on the left; other flags, precision and locale have no effect. If the stream's buffer takes only the first characters of the text (it is full or throws), it has got exactly those and badbit is set, so that an exception is thrown if the stream asks for that. The same characters are produced through the output iterator interface for any of these bases.",
     [INP, CONF], "every number of every configuration and all base and case flags, including the minimum, unsigned types and types without integral bits",
     "The tests print a few values in base 10.",
     [F], ["operator<<, copy_as_chars_to"], PB + " (exact digit generation in big integers)", "")
prop("C13", "std::format honours the whole format specification",
     "std::format of a number with [[fill]align][sign][#][0][width][.precision][type] for char and wchar_t prints: for f, F, g, G and no type the decimal value truncated to the precision (default 6; f and F pad with zeros to the precision; g, G and none print fewer digits only when the exact value has fewer), for d, x, X, o, b, B the sign of the number and the integral part of its magnitude in base 10, 16, 8, 2 with the # prefix 0x, 0X, 0, 0b, 0B, and for ? the signed raw value in hexadecimal; sign is -, + or space. Results shorter than the width are padded with zeros after sign and prefix if 0 is given, else with the fill character (default space) on the side chosen by the alignment (default right aligned, ^ puts the odd character right). An unknown type or an overflowing width or precision throws std::format_error.",
     [INP, CONF], "all combinations of the fields of the specification with every kind of number, several fields in one format string with text between",
     "The tests format a few numbers with a few specifications.",
     [IOF], ["formatter::parse, fixed_num_formatter::format_to"], PB + " (independent formatter on exact digits)", "")
prop("C14", "Parsing a decimal string gives its value rounded toward zero",
     "For every string -?digits[.digits] (either digit run may be empty, any length) whose value truncated toward zero to a multiple of one ulp is representable, all parsing functions (fixed_from_cstring, f32_from_cstring, io::parse with an end pointer or a string_view, and the _f32 and _f64 literals) succeed and give exactly that number, including the minimum of the type. Parsing functions agree with each other, and never look at characters beyond the given length.",
     [INP, CONF], "all well-formed decimal strings, with up to hundreds of digits, next to representable values and to the ends of the range",
     "The tests parse a few literals.",
     [F, IOP], ["fixed_from_cstring, f32_from_cstring, io::parse, literals"], PB + " (arbitrary precision decimal arithmetic)", "")
prop("C15", "Invalid and out-of-range text is rejected without side effects",
     "If a decimal string has a value outside of the range of the type, every parsing function reports it (false, the start pointer, or a failed stream) and leaves the output unchanged, however long the string is. A text without any digit (such as an empty one, - or .) counts as 0 for the parsing functions, while stream extraction fails on it. f32_from_cstring and io::parse also reject strings with any character other than one leading minus, digits and one point, while fixed_from_cstring reads the longest valid prefix; no parsing function reads outside of the given characters or has undefined behaviour on any input.",
     [INP, CONF], "arbitrary byte strings, near-valid strings and numbers around the ends of the range, in buffers with guarded ends",
     "The tests parse valid strings only.",
     [F, IOP], ["parse_result, parse_int_digit, fixed_from_cstring, f32_from_cstring, io::parse"], "property-based testing and coverage-guided fuzzing with sanitizers against a reference parser", "")
prop("C16", "Stream extraction reads one number and leaves the rest",
     "Extracting a number from an input stream skips leading white space (unless skipws is off), consumes exactly the longest prefix of the form -?digits[.digits], and stores its value truncated toward zero to a multiple of one ulp. If there is no digit or the value is out of range it sets failbit and keeps the number unchanged; if the source itself fails in the number or at the character behind it, badbit is set and the number unchanged; farther characters are not asked for and stay in the stream so that several numbers and other data can be read in sequence. This holds for any buffering of the source; base and width of the stream have no effect, and with exceptions enabled a failing extraction throws.",
     [INP, CONF, HIST], "streams with several numbers, separators, other text, signs, white space and end of file in any position",
     "The tests do not use stream extraction.",
     [F], ["operator>>"], PB + " over generated token sequences", "")
prop("C17", "Printing and parsing round-trip",
     "For every number of every signed type, the text written by stream output in base 10, by std::format with enough precision, or by the character output interface, parses back to the same number with every parsing function and with stream extraction. Numbers written to one stream with separators are read back as the same sequence.",
     [INP, CONF, HIST], "every number (fixed32 exhaustively in the thorough tier), every printing/parsing pair, sequences of numbers",
     "No test reads back what was printed.",
     [F, IOP, IOF], ["operator<<, operator>>, copy_as_chars_to, formatter, fixed_from_cstring, f32_from_cstring, io::parse"], "property-based round-trip testing", "")
prop("C18", "Square root and hypotenuse",
     "For every non-negative fixed32 x, sqrt(x) is the greatest multiple of one ulp whose square is not greater than x; for every non-negative number of the other types (8 to 64 bits, signed and unsigned, if the type can represent 1) the result r is non-negative and |r*r - x| <= 5/65536 + (2r + 3) ulp. sqrt(0) is 0; hypot of two or three numbers, with a representable sum of squares S, gives r >= 0 with |r*r - S| <= 5/65536 + (2r + 6) ulp, whatever the order and the signs of the arguments.",
     [INP, CONF], "all non-negative numbers (fixed32 exhaustively in the thorough tier) and all pairs and triples with representable sum of squares",
     "The tests check a few square roots with a tolerance.",
     [M, F], ["sqrt, hypot, the table of initial values"], "property-based testing against exact integer inequalities", "")
prop("C19", "Cube root",
     "For every number x of the 8 to 64 bit types with an intermediate type of twice the width, with c the real cube root, |cbrt(x) - c| <= (3 + 1/(3|c|)) ulp; cbrt(0) is 0. cbrt(-x) == -cbrt(x) for signed types.",
     [INP, CONF], "all numbers including the minimum (fixed32 exhaustively in the thorough tier), several configurations",
     "The tests check a few cube roots with a tolerance.",
     [M], ["cbrt"], "property-based testing against high precision reference values", "")
prop("C20", "Sine, cosine and tangent stay within a bound of the real functions",
     "For every angle x (in radians) of a signed type with at least 4 integral bits (besides the sign), |sin(x) - real sine| and |cos(x) - real cosine| are at most E(x) = 5e-6 + (12 + |x|/5) ulp. tan(x) throws std::domain_error only if |real cosine| <= E(x) + 2 ulp; whenever |real cosine| > 2 E(x) + 4 ulp and the real tangent is inside of a third of the range it returns t with |t * cosine - sine| <= (1 + |t|) E(x) + 2 ulp.",
     [INP, CONF], "all angles of the range (fixed32 exhaustively in the thorough tier), positive and negative, next to multiples of pi/4",
     "The tests evaluate a few angles.",
     [M], ["sin, cos, tan"], "property-based testing against high precision reference values", "")
prop("C21", "Arc tangent, arc sine and arc cosine stay within a bound",
     "For every number x of a signed type with at least 3 integral bits (besides the sign) |atan(x) - real value| <= 2.2e-4 + 6 ulp and atan(-x) == -atan(x). For -1 <= x <= 1 and types with at most 16 fraction bits and more than half as many integral bits, or with at most 40 fraction and at least 23 integral bits, |asin(x) - real value| and |acos(x) - real value| are at most 2.8e-4 + 6 ulp for |x| <= 0.9 and 1.5e-3 + 6 ulp above (for fixed32 at most 3.2e-4 everywhere); asin and acos of -1, 0 and 1 are within 2 ulp for every type. asin and acos throw std::domain_error exactly outside of [-1, 1].",
     [INP, CONF], "all numbers (fixed32 exhaustively in the thorough tier), in particular around -1, 0 and 1 and huge arguments",
     "The tests evaluate a few arguments with a tolerance.",
     [M], ["atan, asin, acos"], "property-based testing against high precision reference values", "")
prop("C22", "Logarithms",
     "For every positive x of a signed type with at least 6 integral bits (besides the sign) and at most 50 fraction bits log2 is within 5 ulp, log within (6 + 0.8 |ln x|) ulp and log10 within (4 + |log10 x|/3) ulp of the real logarithm; log2 of a representable power of two is exact. For types with one to five integral bits log2 is within 5 ulp for every positive x whose logarithm is representable. All three throw std::domain_error for zero and every negative number and for nothing else.",
     [INP, CONF], "all numbers (fixed32 exhaustively in the thorough tier), every configuration",
     "The tests evaluate a few arguments with a tolerance.",
     [M], ["log2, log, log10"], "property-based testing against high precision reference values", "")
prop("C23", "Exponential function",
     "For every x of fixed32, fixed64 and other signed types with at least 5 integral bits (besides the sign), for which e^x is at most a quarter of the maximum, |exp(x) - e^x| <= e^x (1.3e-6 + (3 + |floor x|) ulp) + 5 ulp, also for arbitrarily small negative x, where it tends to 0. exp(0) == 1 and exp(x) is never negative there.",
     [INP, CONF], "all numbers of the domain (fixed32 exhaustively in the thorough tier), every configuration",
     "The tests evaluate a few arguments with a tolerance.",
     [M], ["exp"], "property-based testing against high precision reference values", "")
prop("C24", "Powers",
     "pow(b, n) with an integer n of any integer type or an integral fixed point exponent gives 1 for n = 0, b for n = 1, 0 for b = 0 and n > 0, the exact power for integral b and n > 0 with representable result, and otherwise a result within the error of repeated squaring with every intermediate result rounded to one ulp. For b > 0 and fractional exponent the result agrees with b^e within the errors of exp, log and these powers; a negative b with fractional exponent throws std::domain_error and with an integral one does not.",
     [INP, CONF], "all bases and exponents with representable intermediate results, negative bases, negative exponents and fractional exponents",
     "The tests evaluate a few powers with a tolerance.",
     [M], ["pow(fixed, integral), pow(fixed, fixed)"], "property-based testing against high precision reference values with propagated error bounds", "")
prop("C25", "fmod, degrees and radians",
     "For a, b with b not zero and representable a / b and b * floor(a / b), fmod(a, b) is a minus an exact integer multiple of b and lies in [0, b) for b > 0 and in (b, 0] for b < 0, except that it may exceed the end at 0 or b by less than |b| ulp. degrees(x) is within (181.5 + |degrees|/3) ulp and radians(x) within (4.5 + |radians|/3) ulp of the real value, as long as numbers of this error are representable.",
     [INP, CONF], "all pairs with non-zero divisor and representable quotient, all angles",
     "The tests evaluate a few values.",
     [M], ["fmod, degrees, radians"], "property-based testing against exact and high precision reference values", "")
prop("C26", "Mathematical constants are correct in every type",
     "For every signed 16, 32 and 64 bit type with up to 45 fraction bits that can represent it, each constant (pi, e, log2e, log10e, inv_pi, inv_sqrtpi, ln2, ln10, sqrt2, sqrt3, inv_sqrt3, egamma, phi, and the members e, pi, pi_2, pi_4, double_pi) is the real constant truncated to a multiple of one ulp (to nearest for rounding types). The predefined fixed32 and fixed64 constants equal these.",
     [CONF], "all fraction counts from 1 to 45 for 16, 32 and 64 bit storage, with and without rounding",
     "The tests compare the constants of two types with a tolerance.",
     [N, F], ["*_v variable templates, e(), pi(), pi_2(), pi_4(), double_pi()"], "generated sweep over configurations against high precision reference values", "")
prop("C27", "numeric_limits, maximum and minimum describe the type",
     "For every type max() and min()/lowest() of numeric_limits, max_value and min_value (and the predefined f32 and f64 limits) are numbers of the type such that every number lies between them, they are attained, and the next step beyond them in either direction is not a greater or smaller number of the type. numeric_limits is specialised and reports an exact, bounded, non-integer type without infinity and NaN, signed exactly for signed storage; radix, digits and digits10 (where the type can represent them) are 2, the count of bits without the sign and the decimal digits these hold; epsilon is 5/65536 truncated (for rounding types: rounded) to a multiple of one ulp.",
     [INP, CONF], "all numbers of many configurations",
     "The tests print the limits.",
     [F, M], ["numeric_limits specialisation, max_value, min_value, f32_max, f32_min, f64_max, f64_min"], "property-based testing over configurations and numbers", "")
prop("C28", "Random engines are deterministic, seekable and cover their range",
     "For every history of seeding (integer, seed sequence or default), generating, discarding, copying and comparing, an engine's outputs depend only on the last seed and the number of outputs since: reseeding restarts the sequence, discard(n) equals n calls, copies continue identically, and engines compare equal when in the same state; the default state equals the state after default seeding. Outputs lie in [min(), max()] and in 4096 consecutive outputs every bit of the 32 and 64 bit engines is set 1536 to 2560 times, whatever the seed; engines with different seeds give different outputs; the sequence of a seed is the one that the parameters of the engine define (so a recorded seed replays): output n mixes (state + n) * multiplier + seed by fixed shifts, the increment and the two multipliers. An engine prints as its seed and position in decimal, whatever the flags of the stream, which stay as they were; the fixed point engine adapter yields the number whose raw value is the underlying engine's next output.",
     [HIST, INP, CONF], "all histories of engine operations of the 32 and 64 bit engines and of adapters over them and over standard engines",
     "The test prints ten values.",
     [R], ["permuted_congruential_engine, fixed_random_engine_adapter"], "stateful property-based testing against a model (seed, position)", "")
prop("C29", "Distributions stay inside of the requested closed range",
     "For every range a <= b of numbers, every supported engine and every history of calls, both distribution adapters return numbers in [a, b] (the range of the construction, of the last param call, or of the parameters passed to that call), can return every number of a small range including both ends, and give equal sequences for equal engines and ranges: the numbers whose raw values the underlying distribution over the raw ends gives. a(), b(), min(), max(), param() report the current range, parameters being equal exactly when both ends are; passing parameters to one call does not change it.",
     [HIST, INP, CONF], "all ranges including empty width and the full range, engines of 32 and 64 bits, histories of calls",
     "The test prints ten values of the full range.",
     [D, R], ["fixed_int_distribution_adapter, fixed_distribution_adapter"], "stateful property-based testing against a model of the range", "")
prop("C30", "CORDIC and table sine agree with the real sine",
     "For every angle x the CORDIC sine differs from the real sine by at most (14 + |x|/3) ulp for fixed32 and (32 + |x|/3) ulp for fixed64, and the lookup table sine of fixed64 with N entries (512 by default) by at most (pi/(N-1))^2/8 + (8 + |x|/3) ulp. Both are odd functions (f(-x) == -f(x) for x not zero) and have no state: repeated calls give equal results.",
     [INP, CONF], "all angles (fixed32 exhaustively in the thorough tier)",
     "The tests do not use these functions.",
     [CO, UT], ["cordic_sine, lut_calc_sin"], "property-based testing against high precision reference values", "")
prop("C31", "Vectorised angle reduction keeps the angle modulo 2 pi",
     "For every vector of four or two fixed64 angles, each lane of the vectorised angle reduction differs from its input x by an exact integer multiple of 2*pi (as represented: twice the fixed64 constant pi), has the sign of x or is zero, has magnitude at most 2*pi (1 + (|x| + 2) ulp) + 1 ulp, and depends only on its own lane and not on its position. This holds for the AVX2 and, where available, AVX-512 builds.",
     [INP, CONF], "all lane values in all positions, with any values beside them",
     "No test calls the vectorised functions.",
     [SI], ["simd_reduce_angle, simd_reduce_angle_2"], "property-based testing against exact integer arithmetic, differential between instruction sets", "")
prop("C32", "Results are bit-identical across compilers, options and FP modes",
     "For every operation of the library that neither takes nor returns floating point numbers (arithmetic, comparisons, conversions, all mathematical functions including the CORDIC sine, parsing, printing and formatting) the result bits, text and exceptions are the same whether compiled with GCC or Clang, with or without optimisation, with fast-math, with signed or unsigned char, as C++20 or C++23, with or without assertions, under every floating point rounding mode of the process, with flush-to-zero or without, and in every order of calls.",
     [INP, CONF], "generated inputs for every operation, over ten builds of the same source and five floating point modes",
     "The tests run one build on one machine.",
     [F, M, CO], ["pure integer implementation of all operations"], "property-based differential testing between builds", "")
prop("C33", "No undefined behaviour inside of the documented domains",
     "For all inputs whose mathematical result (and for division, whose divisor) is inside of the domains stated in the other properties, no operation of the library reads outside of objects, overflows signed arithmetic, shifts by more than the width, divides by zero or executes other undefined behaviour detectable by the address and undefined-behaviour sanitizers, and no unexpected exception or abort happens.",
     [INP, CONF], "inputs of all properties, with sanitizers",
     "The tests run without sanitizers.",
     [F, M, IOF, IOP, R, D], ["all"], "property-based testing under address and undefined behaviour sanitizers", "")
prop("C34", "Compile-time evaluation gives the same results as run time",
     "Every constexpr operation (all arithmetic but ++ and --, comparisons, conversions from and to integers, floating point and fixed point numbers, rounding and parts, printing through copy_as_chars_to, fixed_from_cstring, literals, constants, limits and all mathematical functions including the CORDIC sine) is accepted in a constant expression for arguments in its domain, with GCC and Clang, and gives bit for bit the result of the same call at run time. Decimal numeric literals (without exponent; digit separators have no effect) and string literals with the suffixes _f32 and _f64 equal the number parsed from the same text at run time.",
     ["programs", INP], "generated programs of constant expressions over all operations, eight types and both compilers",
     "The tests evaluate some literals at compile time.",
     [F, M, N], ["constexpr functions, user defined literals"], "generated programs, compile time versus run time differential testing", "")
prop("C35", "Numbers behave as values over any history of operations",
     "Over every sequence of operations on a set of variables (assignment, compound assignment with other variables, itself and integers, chained assignments, increments, rounding functions, modf with any output, swap, sort, byte copies, conversions to other types and back, checked division, printing and parsing, failing operations) each variable holds exactly the value an exact model computes after every step: an operation changes only its target, a failing one changes nothing, and a function called again after the history gives the same result.",
     [HIST, INP, CONF], "all operation histories whose intermediate results are representable, ten types",
     "The tests never run more than a few operations on one variable.",
     [F, M], ["fixed_num as a regular, trivially copyable value type"], "stateful model-based testing", "")
prop("C36", "Concurrent use from several threads is free of races",
     "When several threads call any operations of the library at the same time (arithmetic, conversions, functions, printing, parsing, formatting, engines and distributions of their own, tables, vectorised functions and feature queries) on numbers of their own, from the first calls of the process on, there is no data race and every call gives the result it gives alone.",
     ["schedules", INP], "generated lists of operations for two to four threads, all calling the same or different ones",
     "The tests use one thread.",
     [F, M, CO, R, IOF, IOP], ["no mutable static state in the library"], "property-based testing of concurrent calls under the thread sanitizer", "")
prop("C37", "Helpers calculate constants, tables and errors correctly",
     "For every non-negative double v and every number of fraction bits for which it fits, eval_value is floor(v * 2^fraction); angels_lut<N> holds i*pi/N and func_ptr_lut<N> the function at i*pi/(N-1), for every entry i within (1.25 i + 1) ulp; bbp_calc_pi with N terms is within (8N + 1) ulp + 16^-N of pi for 16, 32 and 64 bit storage; print_constants prints each constant's double value in 61 fraction bits. measure_esp returns the greatest and the least absolute difference of two functions over the inputs start, start + step and so on up to end (the least starting from 255), each with the first input where it occurs.",
     [INP, CONF], "all doubles and fraction counts, table sizes, term counts and storage types, generated functions",
     "No test calls these functions.",
     [UT, "include/eirin/detail/perf.hpp"], ["eval_value, angels_lut, func_ptr_lut, bbp_calc_pi, print_constants, measure_esp"], "property-based testing against exact and high precision reference values", "")

prop("C38", "Processor feature queries report the processor, from the first call on",
     "For every order and number of calls, from any number of threads of one process at once and from the first call on, platform_support::supports_sse2, supports_sse4_2, supports_avx, supports_avx2, supports_avx512_f and supports_avx512_dq each report whether the processor has that feature (as the cpuid instruction tells), without a data race.",
     [HIST, "schedules"], "all sequences of queries of up to four threads in a fresh process",
     "No test calls the queries; a race of the first calls needs several threads.",
     [SI], ["platform_support"], "property-based testing of generated call histories in fresh processes, thread sanitizer", "")
prop("C39", "Without exceptions the results are the same and errors terminate",
     "Compiled with exceptions disabled (-fno-exceptions), the library compiles, every operation gives the same result as with exceptions, and every call which throws with exceptions (division by zero with the checked functions, arguments outside of the domain of tan, asin, acos, log2, log, log10 and pow) calls std::terminate instead of returning.",
     [INP, CONF], "all operations and arguments, GCC and Clang, with and without optimisation",
     "The tests are only built with exceptions.",
     [EH, "include/eirin/macro.hpp", F, M], ["EIRIN_NO_EXCEPTIONS, detail::throw_exception"], "property-based differential testing between builds with and without exceptions", "")
prop("C40", "Headers work alone, in any order, in several translation units and before main",
     "Every header can be included alone, repeatedly and together with any others in any order, before or after standard headers, in one or several translation units of one program, with GCC and Clang, as C++20 or later; such programs compile and link, and every call gives the same result in each of them, also when it is made by the initialiser of a static object before main, whatever the order of the translation units.",
     [CONF, "schedules"], "programs of one to three translation units with any selection and order of the headers, compilers, language versions and options",
     "The tests are two translation units that include everything in one order and call the library from main only.",
     ["include/eirin"], ["include directives, inline functions and variables, constant initialisation"], "property-based testing over generated programs, compared with a reference program", "")

prop("C41", "Constants passed as template arguments are used",
     "For the functions that take a constant as a template argument, with the constant p of the same type: degrees(x) is x / p * 180 within 183 ulp and radians(x) x / 180 * p within (|p| + 2) ulp; asin(1), -asin(-1) and acos(0) are p / 2 and acos(-1) is p within one ulp; atan(x) differs from the one with the default pi by nothing for |x| <= 1 and by half the difference of the constants outside, within 2 ulp; log(x) and log10(x) are log2(x) / p within 2 ulp; sin, cos, asin and acos with p next to pi stay next to their default results, in proportion to the difference. Passing the default pi explicitly changes no result of sin, cos, atan, degrees and radians. The limit of the iterations of cbrt does not change the result from 100 on.",
     [INP, CONF], "twenty constants per type (pi, its neighbours, rough values, integers, negative and arbitrary ones), all arguments with representable results, eight signed types",
     "The tests never pass a template argument.",
     [M], ["the template parameters pi, log2_e, log2_10 and iter_max"], "property-based testing against the formulas with the passed constant", "")
prop("C42", "The 128 bit integer extension adds and converts exactly",
     "An ext::int128 has the value high_bits * 2^64 + low_bits with signed parts. Constructed from any integer type it has that number as its value, from a floating point number below 2^63 in magnitude the number truncated toward zero, from two integers these parts. a + b has the exact sum for all a, b whose sum can be represented, in any history of additions, without undefined behaviour, and changes neither operand. The conversion to int64_t gives the value, or the nearest end of the range of int64_t if it does not fit.",
     [INP, HIST], "all numbers and all histories of additions with representable sums",
     "No test includes the header.",
     ["include/eirin/ext/builtin_ints.hpp"], ["constructors, operator+, explicit operator int64_t"], "property-based testing against the built-in 128 bit integer, undefined behaviour sanitizer", "")


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in CHECKS and "--all" not in sys.argv:
                continue
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": ", ".join(p["files"])} for m in p["mech"]], "observe_at": ["return values, printed text and exceptions of the public interface"], "hook_needed": None},
            }) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"] or ("Generated cases (counts in the evidence file) decided by: " + CHECKS[p["id"]]["oracle"] + ". Trusts the oracle, the compiler and the generators; it explores and does not prove."),
    } for p in P if p["id"] in CHECKS]
    doc = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: every check uses the public interface. VERIF_SEED selects the generated cases. Replay a failure with: python3 run.py <id> --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
