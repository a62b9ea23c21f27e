# writes properties.jsonl (kept as a script so that the statements stay reviewable)
import json
F="include/ieme/"
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=[F+f for f in files],mechanism=[dict(name=n,where=F+w) for n,w in mech],
                   observe_at=observe or ["public API of the header"],hook_needed=None)))
DOM="all numerators and denominators (any signs, denominator zero excluded unless said) of at most half the representation's width, so that every intermediate product fits"
p("C01","Fraction arithmetic is exact",
 "For two defined fractions, +, -, * and / return a fraction whose value is exactly the mathematical sum, difference, product or quotient, under every operation policy, whatever the signs of the numerators and denominators and whether or not the operands are in lowest terms; dividing by zero gives an undefined fraction. No such operation overflows or traps. Unary minus likewise gives exactly the negated value.",
 DOM+"; all 8 operation policies; signed and unsigned representations of 32 and 64 bits",
 "Tests compute a few dozen hand-picked sums; exactness is a statement over all quadruples of integers for each of 8 policies x 4 operators, including non-reduced operands, negative denominators and sign combinations that no test tries.",
 ["ops.hpp","fraction.hpp","raw_fraction_math.hpp"],
 [("policy plus/minus/multiplies/divides/negate","ops.hpp"),("operator dispatch","fraction.hpp")])
p("C02","Arithmetic between a fraction and an integer is exact",
 "For a defined fraction and a plain integer, in either order, +, -, * and / give exactly the mathematical result, under every operation policy and any sign of the denominator; a division by zero gives an undefined fraction. No such operation overflows or traps when the products of the components and the unreduced result fit in the representation.",
 DOM+"; all 8 policies, both operand orders, signed and unsigned representations",
 "The mixed fraction/integer overloads are separate code per policy and operand order; tests call each at one or two points with positive denominators.",
 ["ops.hpp","fraction.hpp"],[("raw-and-Rep overloads of every policy operation","ops.hpp"),("operator dispatch","fraction.hpp")])
p("C03","Fraction modulus is the truncated remainder",
 "For defined x and y with y nonzero, x % y equals exactly x - y*trunc(x/y), for fraction-by-fraction, fraction-by-integer and integer-by-fraction operands, all signs and all operation policies. When y is zero or an operand is undefined the result is an undefined fraction and nothing traps.",
 DOM+"; all 8 policies; all operand kinds",
 "The remainder's sign and magnitude depend on operand signs and on the common denominator; tests cover a handful of positive values and never a zero divisor.",
 ["ops.hpp","fraction.hpp"],[("policy modulus","ops.hpp")])
p("C04","Comparisons agree with the order of rational numbers",
 "For defined fractions and integers in any combination, ==, !=, <, <=, > and >= return exactly what comparing the exact rational values gives, under every operation policy, whatever the signs of the denominators and whether or not the operands are reduced. Hence exactly one of <, == and > holds for any two defined values.",
 DOM+"; six operators x three operand kinds x 8 policies; signed and unsigned representations",
 "Order laws are universally quantified over pairs; tests compare a few positive-denominator pairs, so sign errors with negative denominators or unreduced operands stay invisible.",
 ["ops.hpp","fraction.hpp"],[("policy equal_to/less/less_equal and derived comparisons","ops.hpp"),("comparison dispatch","fraction.hpp")])
p("C05","Undefined fractions behave as quiet NaNs",
 "Every arithmetic operation with an undefined operand (denominator zero), in either position and combined with a fraction or an integer, returns an undefined fraction without trapping, and negation, reduction and conversion between policies keep it undefined. Every comparison involving an undefined operand is false, except != which is true.",
 "all numerators with denominator zero against all other operands of at most half width (including undefined ones), all operators, all 8 policies",
 "Tests check undefined operands for a few comparisons only; propagation through every operator and policy, and absence of a division trap, is a statement over all operand pairs.",
 ["ops.hpp","raw_fraction_math.hpp","raw_fraction_queries.hpp"],[("is_undefined guards and reduction of undefined values","ops.hpp")])
p("C06","Reduced-output policies return canonical fractions",
 "Under the policies that reduce their output, the result of +, -, *, /, % and unary minus on any defined operands (fractions or integers) with a defined result is in lowest terms with a positive denominator, and zero is 0/1. So two equal results are always componentwise identical.",
 DOM+"; the four policies that reduce outputs; all operators and operand kinds",
 "Canonical form is a gcd statement over all results; tests look at a few results whose components happen to be small.",
 ["ops.hpp","raw_fraction_math.hpp"],[("reduced_output wrapper","ops.hpp"),("reduce_normalize_signs","raw_fraction_math.hpp")])
p("C07","Reducing, sign-normalising and inverting preserve the value",
 "Reducing a defined fraction returns the same value in lowest terms with a positive denominator (or, in the sign-ignoring mode, lowest terms with each component keeping its own sign), sign normalisation returns the same value with a positive denominator, and both are idempotent; reducing an undefined fraction gives 0/0. The reciprocal of a nonzero value is its exact inverse, the reciprocal of zero is undefined. A defined fraction is reported as reduced exactly when reducing it leaves both components unchanged.",
 "all components over the full width of the representation except its minimum; raw fractions and fractions; both reduction modes; signed and unsigned representations",
 "Lowest-terms and idempotence statements quantify over all integer pairs; tests use about ten pairs.",
 ["raw_fraction_math.hpp","fraction_math.hpp","raw_fraction_queries.hpp","fraction_queries.hpp"],
 [("reduce*, normalize_signs, reciprocal","raw_fraction_math.hpp"),("is_reduced, is_reduced_ignore_signs","raw_fraction_queries.hpp")])
p("C08","Classification queries match their mathematical meaning",
 "For every defined value the queries positive, non-negative, zero, non-positive and negative agree with the sign of the exact value; integer holds exactly when the value is an integer, unit fraction exactly when the value is nonzero and its reciprocal is an integer, proper exactly when |value| < 1, and improper is its complement. Definedness is exactly a nonzero denominator, an undefined fraction satisfies none of the sign, integer, unit or reducedness queries, and two fractions are identical exactly when both components are equal.",
 "all components over the full width of the representation except its minimum; signed and unsigned; raw fractions and fractions",
 "Each query is a predicate over two unrestricted integers with sign cases; tests sample single points per branch.",
 ["raw_fraction_queries.hpp","fraction_queries.hpp"],[("is_* queries","raw_fraction_queries.hpp"),("forwarders","fraction_queries.hpp")])
p("C09","Rounding to whole numbers is correct",
 "For every defined fraction trunc rounds toward zero, ceil gives the least integer not below it, floor the greatest integer not above it, and round the nearest integer (exact ties may go to either neighbour), for any signs of numerator and denominator and every operation policy. Rounding by mode gives exactly the result of the named function, round being the default.",
 "all components of at most half width, any signs; all 4 modes; all 8 policies; signed and unsigned",
 "Correct rounding is an inequality over all integer pairs; tests miss values between -1 and 0 and negative denominators.",
 ["fraction_math.hpp"],[("trunc, ceil, floor, round, to_whole","fraction_math.hpp")])
p("C10","Redenominating rounds to the requested grid",
 "Changing a defined fraction to a given nonzero denominator returns a fraction with exactly that denominator whose value is the original rounded onto multiples of 1/denominator: never above for floor, never below for ceil, toward zero for trunc, nearest for round (exact ties may go either way, default mode round), always less than one grid step away. If the value is representable on the grid the result is equal to it.",
 "all values and new denominators with |components| within a third of the width, any signs; all modes; all policies",
 "Combines rounding, sign of the new denominator and multiplication; tests cover one value per mode and sign.",
 ["fraction_math.hpp"],[("redenominate family","fraction_math.hpp")])
p("C11","Integer powers are exact",
 "Raising an integer base to any integer exponent returns exactly base^exponent as a fraction, with negative exponents giving 1 over the positive power and exponent zero giving one; powers of two agree with it. No overflow or trap occurs as long as the result fits in the representation.",
 "all exponents whose result fits in 32/64 bits, all bases (symbolic), signed and unsigned",
 "Recursion by halving has parity- and exponent-dependent paths; tests check a few exponents.",
 ["fraction_math.hpp","math_utilities.hpp"],[("pow, pow2","fraction_math.hpp"),("pow, pow2","math_utilities.hpp")])
p("C12","Floating-point to fraction conversion is exact",
 "Converting a finite float or double to a fraction gives exactly the same value whenever that value, in lowest terms, fits in the representation (components of magnitude at most the representation's maximum): including zero of either sign, subnormals, negative values and large integers. NaN and infinities give an undefined fraction, and the conversion never overflows or shifts out of range for such inputs.",
 "all bit patterns of float and double whose exact value fits the 32- or 64-bit representation, plus all NaNs and infinities; all 8 policies",
 "2^32 / 2^64 bit patterns; tests convert a few powers and decimals, none is zero, subnormal, infinite or large.",
 ["floating_point.hpp"],[("floating_point_to_fraction","floating_point.hpp")])
p("C13","Fraction to floating-point conversion is correctly rounded",
 "Converting a defined fraction whose reduced components are exactly representable in the target floating-point type gives the exact value rounded once, so equal fractions convert to equal floating-point numbers and a fraction obtained from a floating-point number converts back to that number. An undefined fraction converts to NaN.",
 "all components up to the float/double mantissa width; float, double and long double; all policies; round trip over float bit patterns",
 "A statement over all pairs of components; tests compare three or four values with tolerance.",
 ["floating_point.hpp"],[("fraction_to_floating_point","floating_point.hpp")])
p("C14","Decimal-string grammar is accepted exactly and safely",
 "Text is accepted exactly when it is a C++ floating-point literal without suffix (decimal or hexadecimal, digit separators only between digits, a radix point or an exponent, at least one digit, hexadecimal requires an exponent); anything else gives an undefined fraction. Scanning text never reads outside it, traps or fails to return, whatever the bytes.",
 "all byte strings up to the stated length bound (every byte value at every position), and longer structured strings",
 "The grammar has many interacting cases (separators, prefixes, exponents, empty parts); tests list some 30 strings while there are 256^n strings of each length.",
 ["parse_utilities.hpp","floating_point.hpp"],[("scan_floating_point_string, is_valid_digit_sequence","parse_utilities.hpp"),("floating_point_string_to_fraction","floating_point.hpp")])
p("C15","Decimal strings convert to their exact value",
 "An accepted decimal or hexadecimal floating-point literal converts to exactly the rational number it denotes: whole part, fractional part, digit separators, upper- or lower-case digits, and positive or negative exponent of ten (decimal) or two (hexadecimal). This holds without overflow whenever the unreduced value fits the representation: all digits read as one integer, times the power of the exponent's base if positive, over the scale of the fractional digits, times that power if negative.",
 "all digit values at every digit position of each literal shape within the stated length bounds, as long as the value fits",
 "Exact value is universally quantified over digits and shapes; tests convert about twenty literals.",
 ["parse_utilities.hpp","floating_point.hpp","fraction_literals.hpp"],[("digit_sequence_to_int","parse_utilities.hpp"),("floating_point_string_to_fraction","floating_point.hpp"),("operator\"\"_dec","fraction_literals.hpp")])
p("C16","Mixed numbers normalise without changing the value",
 "A mixed number built from a whole and a defined fraction, or from a defined fraction, has exactly the value of their sum, a proper fractional part, and a whole part and fractional part that never have opposite signs. Converting back to a fraction and negating are exact too, whatever the signs of the components and the operation policy.",
 "all whole numbers and fractions within the stated range, any signs (denominator included); all policies",
 "Normalisation has sign- and magnitude-dependent branches; tests construct a handful of values.",
 ["mixed_number.hpp"],[("constructors, fix, as_fraction, operator-","mixed_number.hpp")])
p("C17","Mixed-number addition is exact",
 "Adding a mixed number to a mixed number, a fraction or an integer, in either order, gives a normalised mixed number (proper fractional part, no opposite signs) with exactly the mathematical sum.",
 "all operands within the stated range, any signs; all policies",
 "Carry between fractional and whole part and sign mixing depend on operand values; tests cover few sums.",
 ["mixed_number.hpp"],[("operator+ overloads","mixed_number.hpp")])
p("C18","Hashing is consistent with equality",
 "Two fractions that compare equal have the same hash, whatever the form (unreduced, negative denominators) in which they are held; identical raw fractions have equal hashes, and mixed numbers with equal whole parts and equal fractional parts have equal hashes. The std::hash specialisations agree with the library's hash functions.",
 "all pairs of equal values with components of at most half width; raw fractions, fractions and mixed numbers; all policies",
 "Tests hash only identical objects; the law quantifies over all pairs of equal values.",
 ["hash.hpp","ops.hpp"],[("hash overloads and std::hash specialisations","hash.hpp")])
p("C19","Mixed representations, conversions and compound assignment",
 "Operators on operands of different integer representations give the same exact result as on the common type, without truncating an operand first; converting a fraction to a wider representation or another policy, or building one from a std::ratio, keeps both components. Compound assignment (+=, -=, *=, /=, %=) with a fraction or integer leaves in the left operand exactly the value of the corresponding binary operation and returns that operand.",
 "all operands of at most half the narrower width (and wide operands beyond the narrow range); int with long long in both orders; all operators; all policies",
 "Each template branch of the dispatch is separate code; tests instantiate one or two combinations with small values that truncation would not disturb.",
 ["fraction.hpp","raw_fraction.hpp"],[("dispatch macros, converting constructors, compound assignment macros","fraction.hpp"),("converting constructor","raw_fraction.hpp")])
p("C20","Fraction literals denote exactly the written fraction",
 "Writing integer / literal yields a fraction with exactly that integer as numerator and the literal's value as denominator, including the signed and unary plus/minus forms of the literal; dividing an existing fraction by a literal divides its value exactly. The integer keeps its own type as representation.",
 "all numerators and all literal values that fit the representation, signs included; all policies for the fraction form",
 "Tests check a few literals; the guarantee is over all numerators and denominators.",
 ["fraction_literals.hpp"],[("denominator_literal and its operators","fraction_literals.hpp")])
p("C21","Stream output and input round-trip",
 "Writing a fraction or raw fraction to a stream emits exactly numerator, '/', denominator in that order, and reading that text back yields the identical components.",
 "all component values over the full width of 32- and 64-bit representations",
 "Tests print and read one or two values.",
 ["raw_fraction.hpp","fraction.hpp"],[("operator<<, operator>>","raw_fraction.hpp"),("forwarders","fraction.hpp")],over=("inputs","histories"))
p("C22","Fractional durations and time points are exact",
 "Converting a duration or time point to its fractional form keeps the exact time, conversions between units (in either direction) are exact and therefore reversible, sums, differences and comparisons of fractional durations in different units are exact, and a wrapped clock reports exactly the instant of the clock it wraps.",
 "all tick counts within the stated range; nanoseconds to hours; clock readings arbitrary",
 "Tests convert one or two durations and compare the wrapped clock only loosely.",
 ["chrono.hpp","fraction.hpp"],[("to_fractional, duration_like, clock_wrapper::now","chrono.hpp")])
p("C23","Numeric limits bound every representable value",
 "The reported maximum and minimum (lowest) bound every defined fraction with a positive denominator from above and below and are attained, the reported smallest value (epsilon) is positive and no positive fraction with positive components is smaller, and the reported undefined value (quiet NaN) is an undefined fraction. The library's limits and the standard numeric_limits agree.",
 "all components over the full width; signed and unsigned 32- and 64-bit representations",
 "Extremality is quantified over all values; tests compare a constant with a constant.",
 ["limits.hpp"],[("limits, numeric_limits specialisations","limits.hpp")])
p("C24","Safe policies avoid avoidable overflow",
 "Under the safe policies, +, -, %, and all comparisons of two defined fractions give the exact result without overflow whenever both operands rescaled to their least common denominator (and the result on it) fit in the representation, even if the product of the denominators does not. For policies that reduce their inputs this is required only of the operands after reduction, for multiplication and division too.",
 "all operands over the full width of 32-bit representations subject to the stated condition, all signs; the safe policies",
 "Overflow avoidance shows only for large operands sharing factors; tests use small ones.",
 ["ops.hpp"],[("safe policy via least common multiple","ops.hpp"),("reduced_input wrapper","ops.hpp")])
p("C25","Absolute value and negation",
 "The absolute value of a defined fraction is non-negative and equals the value or its exact negation, for any signs of the components and every policy; unary plus returns its operand unchanged and double negation restores the value. The integer absolute value helper returns the magnitude of its argument.",
 "all components of the full width except the minimum; all policies",
 "Quantified over all sign combinations and values; tests use two values.",
 ["fraction_math.hpp","fraction.hpp","math_utilities.hpp"],[("abs","fraction_math.hpp"),("unary operators","fraction.hpp"),("abs","math_utilities.hpp")])
p("C26","Construction and component access keep components",
 "A fraction or raw fraction built from a numerator and a denominator, from a raw fraction or by copying holds exactly these components, neither reduced nor sign-normalised, undefined ones included; one built from an integer is that integer over one, a default one is 0/1 (a raw one 0/0). Every accessor reads exactly its component, and writing through one changes that component and nothing else. A mixed number built from an integer has it as whole part and a zero fractional part.",
 "every bit pattern of both components; all policies; signed and unsigned representations",
 "Each accessor comes in a const and a mutable form under two names; tests call a few of them on a few values.",
 ["fraction.hpp","raw_fraction.hpp","mixed_number.hpp"],[("constructors and accessors","fraction.hpp"),("raw_fraction","raw_fraction.hpp"),("mixed_number constructors","mixed_number.hpp")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
