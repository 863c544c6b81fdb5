#!/usr/bin/env python3
"""writes properties.jsonl (the text lives here so that it stays valid JSON)"""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


H, U = 'include/posit.h', 'include/unpacked.h'

prop('C01', 'Every bit pattern decodes to the value the posit format defines',
     'For every pattern of a posit of any supported size, exponent width, storage type and special-code variant, unpacking gives the number the format defines: sign from two\'s complement, regime from the run length of equal bits, then the exponent bits (missing ones are zero), then the left-aligned fraction with an implicit leading one. '
     'A fraction type wider than the storage gets the fraction left aligned and zero filled, a narrower one gets its top bits. '
     'The regime/exponent/fraction form and the sign/exponent/fraction form describe the same number, and the field by field description (analyze) reports that regime, exponent and fraction with the number of bits each of them occupies.',
     ['inputs', 'configurations'], 'every bit pattern x posit configuration (storage 8..64 bits, total bits 5..64, es 0..5, three special-code variants, fraction types equal, wider and narrower)',
     'Up to 2^60 patterns per configuration and an unbounded family of configurations; the tests sample a few patterns of a few 8 to 16 bit types.',
     [H, 'include/bithippop.hpp', 'include/typehelpers.hpp'],
     [('Posit::unpack_low', H), ('PositTrait::decode_posit_rs', H), ('Posit::unpacked_low2full', H), ('PositTrait::join_reg_exp', H), ('findbitleftmostC / cast_msb', 'include/bithippop.hpp, include/typehelpers.hpp')])

prop('C02', 'Encoding truncates toward zero, saturates and stays canonical',
     'Encoding a finite non-zero number (sign, exponent, fraction) gives the posit obtained by writing regime, exponent and fraction and cutting the string at the posit width, i.e. magnitude truncated toward zero. '
     'Exponents beyond the largest or below the smallest representable one give the largest finite / smallest non-zero magnitude of the same sign, never zero, infinity or NaN. '
     'The stored word is always canonical (unused high storage bits are copies of the sign).',
     ['inputs', 'configurations'], 'every sign x exponent of the exponent type x fraction x configuration',
     'The boundary cases (regime filling the whole word, exponents at the extremes of the exponent type, fraction types narrower than the posit) are different in every configuration and lie at single values out of 2^32 or more.',
     [H, U], [('Posit::pack_low', H), ('Posit::unpacked_full2low', H), ('PositTrait::split_reg_exp', H), ('clamp', U)])

prop('C03', 'Decoding then encoding gives back the same posit',
     'For every posit pattern, unpacking it (in either form) and packing the result yields exactly the same pattern, specials included. '
     'This holds for the generic type, for the float-backed type and for the tabulated types whenever the fraction type can hold the fraction.',
     ['inputs', 'configurations'], 'every bit pattern x configuration x both unpacked forms',
     'Exhaustive testing is infeasible beyond 16 bits, and one wrong boundary pattern is enough to corrupt stored data.',
     [H, 'include/positf.h', 'include/posit8.hpp', 'include/posit10.hpp', 'include/posit12.hpp'],
     [('Posit::unpack / pack_posit', H), ('Posit::unpack_low / pack_low', H), ('PositF::unpack / pack_posit', 'include/positf.h')])

prop('C04', 'Special codes: zero, NaN and infinities are classified and mapped exactly',
     'Zero, NaN and infinity are exactly the codes fixed by the special-code variant: all zeros is zero, the top code is NaN (or the unsigned infinity in the variant without NaN), and only the variant with both has two signed infinities next to the top code. '
     'The predicates (zero, NaN, infinity, negative, one) are true for those codes and for no other, and encoding a zero, NaN or infinity gives its code, with the single top code standing in for a kind that the variant lacks.',
     ['inputs', 'configurations'], 'every bit pattern and every special unpacked value x configuration x special-code variant',
     'The predicates must be false on all other patterns of all configurations; tests look at the special codes only.',
     [H, 'include/positf.h', 'include/posit8.hpp', 'include/posit12.hpp'],
     [('Posit::isNaN / isinfinity / iszero / isone / isnegative', H), ('Posit::pack_low special cases', H), ('PositTrait::POSIT_NAN / POSIT_PINF / POSIT_NINF', H)])

prop('C05', 'Arithmetic with special operands follows the extended-real rules',
     'If any operand of +, -, *, / or reciprocal is NaN the result is NaN; zero is neutral for + and absorbing for * with finite numbers, 0*inf, 0/0, inf/inf and inf-inf are NaN, x/0 is infinity with the sign of x, x/inf is zero, infinities keep or combine signs, 1/0 is infinity and 1/inf is zero. '
     'The posit operators give the encoding of those results in their special-code variant.',
     ['inputs', 'configurations'], 'every pair of operand kinds x both signs x every finite value of the other operand x configuration',
     'The finite operand ranges over all values, and the table of kinds must be right for every combination and sign.',
     [U, H], [('operator+ - * / of Unpacked', U), ('Unpacked::inv', U), ('Posit operators', H)])

prop('C06', 'Comparisons are the exact order of the values, NaN unordered',
     'For every pair of posits of a generic type, ==, !=, <, <=, >, >= agree with the two\'s complement order of the patterns, which is the order of the represented values; a NaN operand makes every comparison false except != which is true, and != is always the negation of ==. '
     'The float-backed and tabulated types order patterns the same way and treat NaN as their lowest element. '
     'Equality of unpacked numbers compares kind, sign, exponent and fraction and is false when a NaN is involved.',
     ['inputs', 'configurations'], 'every pair of patterns (and every pair of unpacked values) x configuration',
     'Quantifies over all pairs of patterns; sorting and searching break on a single wrong pair.',
     [H, U, 'include/positf.h', 'include/posit8.hpp', 'include/posit10.hpp', 'include/posit12.hpp'], [('comparison operators', H), ('Unpacked::operator== / !=', U), ('PositF comparisons', 'include/positf.h')])

prop('C07', 'Negation and absolute value are exact and stay in range',
     'Negating a posit gives the posit of the opposite value: same exponent and fraction, opposite sign; zero, NaN and the unsigned infinity are their own negation, signed infinities swap, and negating twice is the identity. '
     'The absolute value is the number itself or its negation and is never negative except for the top code. '
     'The result is always a canonical word, and negating an unpacked number only flips its sign.',
     ['inputs', 'configurations'], 'every bit pattern x configuration, every unpacked value',
     'The top code is the one pattern whose two\'s complement leaves the posit, at a different place for each width and storage type.',
     [H, U, 'include/positf.h', 'include/posit8.hpp', 'include/posit10.hpp', 'include/posit12.hpp'],
     [('Posit::neg / abs', H), ('PositF::neg / abs', 'include/positf.h'), ('Unpacked::operator-', U), ('std::abs overloads', H)])

prop('C08', 'Halving, doubling and power-of-two reciprocals are exact, saturating',
     'half() and twice() of a finite posit change its exponent by exactly one and keep sign and fraction, truncated as any encoding; at the ends of the range they saturate at the smallest / largest magnitude instead of wrapping. '
     'The reciprocal of a power of two is the exact opposite power of two (saturated). Specials are returned unchanged by half and twice.',
     ['inputs', 'configurations'], 'every bit pattern x configuration',
     'The regime carry/borrow and the two range ends differ per configuration and are hit by few patterns.',
     [H], [('Posit::half / twice', H), ('Posit::inv (power of two path)', H), ('Posit::pack_low', H)])

prop('C09', 'Reading IEEE-style floats is exact for every encoding',
     'Converting any half, bfloat-like, 8-bit, single or double bit pattern to an unpacked number gives its exact sign, unbiased exponent and fraction (top bits if the fraction type is narrower); denormals are normalised, signed zeros become zero. '
     'Infinity and NaN are recognised from the whole payload, and an exponent that does not fit a narrow exponent type saturates rather than wraps. '
     'Constructing a posit from a float or double encodes that number.',
     ['inputs', 'configurations'], 'every bit pattern of each float format x fraction type x exponent type',
     '2^64 doubles; denormals, NaN payloads in the low bits and narrow fraction/exponent types are each a small slice that tests do not reach.',
     [U, 'include/floattraits.hpp', 'include/bithippop.hpp', 'include/typehelpers.hpp'],
     [('Unpacked::unpack_xfloati', U), ('float traits', 'include/floattraits.hpp'), ('cast_msb / bitset_getT / findbitleftmostC', 'include/bithippop.hpp, include/typehelpers.hpp')])

prop('C10', 'Writing IEEE-style floats truncates, saturates and never wraps',
     'Converting an unpacked number to half, bfloat-like, 8-bit, single or double gives the float with the same sign, exponent and truncated fraction. '
     'Magnitudes above the largest finite float give the largest finite float of that sign; below the normal range the result is the truncated denormal (or zero where the format has none), and an underflow to zero is +0. '
     'Infinity, NaN and zero map to the format\'s infinity of the same sign, its quiet NaN and +0.',
     ['inputs', 'configurations'], 'every kind x sign x exponent x fraction x target format x fraction type',
     'Exponents over the whole exponent type times all fractions; the denormal shift and the bias addition are only wrong at the edges.',
     [U, 'include/floattraits.hpp'], [('Unpacked::pack_xfloati', U), ('fraction_bit_extract', U), ('float traits', 'include/floattraits.hpp')])

prop('C11', 'Integer and fixed-point conversions are exact, truncating and saturating',
     'Unpacking any integer or fixed-point word, the lowest one included, gives exactly its value (top fraction bits if the fraction type is narrower). '
     'Packing to an integer or fixed-point word truncates toward zero, saturates at the word\'s largest / lowest value beyond its range, gives 0 below one unit and 0 for zero, NaN and infinity.',
     ['inputs', 'configurations'], 'every integer word and every kind x sign x exponent x fraction x word width x number of fraction bits',
     'All 2^32 integers and all exponents; overflow at the lowest integer and at the top exponent are single points.',
     [U, 'include/fixedtraits.hpp', 'include/typehelpers.hpp'], [('Unpacked::unpack_xfixed', U), ('Unpacked::pack_xfixed', U), ('cast_right_to_left', 'include/typehelpers.hpp')])

prop('C12', 'No operation has undefined behaviour for any input',
     'For every input, decoding, encoding, conversions, arithmetic, comparison, negation, neighbours and half/twice execute no shift by a negative amount or by the operand width or more, no signed overflow, no division by zero, no count of leading zeros of zero, no read of uninitialised data and no out-of-bounds access.',
     ['inputs', 'configurations'], 'every input of every public operation x configuration',
     'Undefined behaviour is silent in tests: the result happens to be right on the machine and at the optimisation level used, until it is not.',
     [H, U, 'include/bithippop.hpp', 'include/typehelpers.hpp', 'include/positf.h'],
     [('all shifts, negations and additions of the conversion and arithmetic code', U), ('pack_low / unpack_low', H), ('bit scan helpers', 'include/bithippop.hpp')])

prop('C13', 'Operations are pure: operands and shared state are never modified',
     'No arithmetic, conversion, comparison, constant or limits function writes any state other than its own result (and the left operand of a compound assignment): operands passed by reference are unchanged, no global, table or function-local static is written. '
     'Results therefore depend on the operands only, and concurrent use on distinct objects needs no locking.',
     ['schedules', 'histories', 'inputs'], 'every call history and every interleaving of calls from several threads',
     'A hidden cache or scratch global is right in every single-threaded test.',
     [H, U, 'include/positf.h', 'include/posit8.hpp', 'src/posit8.cpp', 'src/posit12.cpp'],
     [('all functions reachable from the public operators', H), ('lookup tables', 'include/posit8.hpp')])

prop('C14', 'Named constants, limits and neighbours are the values they name',
     'one, two, minus one, one half, zero, max, lowest, min, infinity and NaN and the numeric_limits members denote exactly those values of their type in every configuration, with the infinity / NaN flags matching the special-code variant and epsilon the distance from one to its successor. '
     'next() and prev() move to the adjacent finite posit, are inverse to each other inside the finite range, stop at max and lowest, and leave NaN and infinities unchanged.',
     ['configurations', 'inputs'], 'every posit configuration; every pattern for next/prev',
     'The constants are compile-time formulas of four template parameters; tests instantiate a handful of combinations.',
     [H, 'include/positf.h', 'include/posit8.hpp', 'include/posit10.hpp', 'include/posit12.hpp'],
     [('PositTrait constants', H), ('Posit::one/two/max/...', H), ('std::numeric_limits specialisations', H), ('Posit::next / prev', H)])

prop('C15', 'Table lookups find the entry of their operands and agree with the generic type',
     'Every table lookup of the 8, 10 and 12 bit table-driven posits and of the table-driven 8-bit float uses an index inside the table for every operand, and addresses the entry that the table generator wrote for that same operand or operand pair and operation, in the same order: add, multiply, divide, reciprocal, half, square, exp2 and the conversion to float. '
     'The generator computes each entry as that operation on the generic type for every operand and emits it under the table it belongs to, with every entry written. Operations without a table are forwarded to the generic posit, a - b is a + (-b), and negation, absolute value, comparisons and constructors of the 8-bit float are those of the generic float.',
     ['inputs', 'configurations'], 'every operand or operand pair of each tabulated operation',
     'Row/column order and masks only matter for asymmetric operations and negative operands; a wrong mask reads beyond the table for some operands only; no test links the tabulated 8-bit float.',
     ['include/posit8.hpp', 'include/posit10.hpp', 'include/posit12.hpp', 'include/binary8.hpp', 'src/posit8_gen.cpp', 'src/posit10_gen.cpp', 'src/posit12_gen.cpp', 'src/binary8_gen.cpp', 'src/posit8.cpp', 'src/posit10.cpp', 'src/posit12.cpp', 'src/binary8.cpp'],
     [('posit8::operator+ * / and uu', 'include/posit8.hpp'), ('table generators', 'src/posit8_gen.cpp'), ('posit10, posit12, binary8 lookups', 'include/posit10.hpp, include/posit12.hpp, include/binary8.hpp')])

prop('C16', 'Equivalent spellings of an operation give the same result',
     'For all operands, a+=b, a-=b, a*=b, a/=b equal the binary operators, a-b equals a+(-b), the free functions and std:: overloads (neg, inv, abs, min, max) equal the members, min/max return one of their operands according to the order, and the deferred-product mode gives the same products and sums of products as unpacked arithmetic encoded once. '
     'Constructing from int, float, double, bits of a float or an unpacked number equals unpacking that value and encoding it, and conversions back equal unpacking and packing.',
     ['inputs', 'configurations'], 'every operand pair x configuration x spelling',
     'The spellings are separate code paths; tests use one spelling per operation.',
     [H, U, 'include/positf.h'], [('compound assignment operators', H), ('free functions and std overloads', H), ('PositMul', H), ('constructors and conversion operators', H)])

prop('C17', 'A dot product reads exactly N pairs and accumulates them in order',
     'dot over two sequences of length N returns zero for N below one without touching the sequences, and otherwise reads exactly the first N elements of each once, multiplies element i with element i, and accumulates the unpacked products in order with a single final encoding. fma(a,b,c) likewise encodes a*b+c only once.',
     ['inputs', 'configurations'], 'every N, all element values, both iterator types',
     'Reading one element too many is invisible in a test whose arrays are followed by readable memory.',
     [H], [('Posit::dot', H), ('fma', H)])

prop('C18', 'Multiplication and division are the exact result truncated toward zero',
     'For all finite non-zero operands the unpacked product and quotient have the sign of the rule of signs and the magnitude of the exact product / quotient of the operands, with the last bit of each operand fraction dropped, truncated toward zero (the quotient to the fraction width, the product to the upper half of its double-width form, so that the last two fraction bits of a product below two and the last one of a larger product are zero), and a correctly normalised exponent. '
     'Posit * and / are that result encoded.',
     ['inputs', 'configurations'], 'every pair of operands x fraction type x exponent type',
     'Pairs of 32-bit operands: 2^64 cases; normalisation and intermediate width errors show only for particular fractions.',
     [U, 'include/typehelpers.hpp', H], [('operator* and operator/ of Unpacked', U), ('nextintop::extramul / extradiv', 'include/typehelpers.hpp')])

prop('C19', 'Addition aligns, adds or cancels, and normalises exactly',
     'For all finite non-zero operands the unpacked sum is the sum of the aligned significands (two guard positions on top, bits shifted out at the bottom dropped), with the sign of the larger magnitude, normalised to an explicit leading one with the exponent adjusted by the number of positions moved; exact cancellation gives zero. '
     'An operand further away than the fraction width contributes nothing, the result does not depend on the order of the operands, and subtraction is addition of the negated operand.',
     ['inputs', 'configurations'], 'every pair of operands and every exponent distance x fraction type',
     'Depends on the exponent distance, both fractions and both signs; the large-distance and cancellation corners are rarely sampled.',
     [U, H], [('operator+ of Unpacked', U), ('Unpacked::normalized', U), ('Posit::operator+ / operator-', H)])

prop('C20', 'The reciprocal equals one divided by the number',
     'For every finite non-zero number the reciprocal has the same sign and the value of one divided by it, truncated as the division is; at powers of two it is exact. '
     'The posit reciprocal is the encoding of the unpacked reciprocal, and the free function and operator form agree with it.',
     ['inputs', 'configurations'], 'every operand x configuration',
     'A separate implementation from division that has to agree with it for every fraction.',
     [U, H], [('Unpacked::inv', U), ('Posit::inv', H)])

prop('C21', 'Every public operation compiles for every supported configuration',
     'Each public member, operator, constructor, conversion, free function, std overload and numeric_limits member of the posit, float-backed posit, unpacked, emulated-float and tabulated types can be instantiated and used for every supported configuration. '
     'Construction, packing, unpacking, comparison, negation, arithmetic and the constants are usable in constant expressions where the interface declares them so.',
     ['programs', 'configurations'], 'every user program that uses the documented interface with a valid configuration',
     'Template members are only checked when used; the tests leave many combinations uninstantiated.',
     [H, U, 'include/positf.h', 'include/anyfloat.hpp', 'include/posit8.hpp', 'include/posit10.hpp', 'include/posit12.hpp'], [('template members', H), ('constexpr interface', U)])

prop('C22', 'Invalid configurations and implicit conversions are rejected at compile time',
     'A posit with an unsigned or too small storage type or with too many exponent bits, an unpacked number with a signed fraction or an unsigned exponent type, a float-backed posit over a non-float and an emulated float with a signed or too small holder do not compile. '
     'Unpacked numbers and regime triples do not convert implicitly to a posit, numbers do not convert implicitly to a float-backed posit, an emulated float or an unpacked number, and posits of different configurations neither convert into each other implicitly nor mix in one operation. A fixed-point format cannot have more bits than its holder.',
     ['programs', 'configurations'], 'every program that uses an invalid configuration or relies on an implicit conversion',
     'Tests that must not compile do not exist in the test suite.',
     [H, U, 'include/positf.h', 'include/anyfloat.hpp', 'include/floattraits.hpp'], [('static_assert guards', H), ('explicit constructors', H)])

prop('C23', 'Printing leaves the stream as it found it and selects the documented form',
     'Printing a posit or an unpacked number restores the stream\'s formatting flags on every path. '
     'The stream\'s base selects the form: decimal prints the value, hex prints the raw pattern as a number (also for 8-bit storage), octal prints the unpacked description. The tabulated types and the emulated half print one number (raw pattern, value).',
     ['histories', 'inputs', 'configurations'], 'every value kind x stream state x configuration',
     'Leaking flags show up in whatever is printed next, possibly in unrelated code.',
     [H, U], [('operator<< for Posit', H), ('operator<< for Unpacked', U)])

prop('C24', 'Unit-range helpers are exact for posits without exponent bits',
     'For a posit without exponent bits in [0,1], the unit-range complement is exactly one minus the value and stays in [0,1]; the unit-range predicate holds exactly for the values between zero and one, for every configuration. '
     'The complement applied twice is the identity, and x(1-x) is the product of a number with its complement.',
     ['inputs', 'configurations'], 'every pattern in the unit range x es=0 configurations; every pattern for the predicate',
     'Bit trick valid only on part of the domain; tests check a few points.',
     [H, 'include/positf.h'], [('Posit::urOneMinus / isUnitRange', H)])

prop('C25', 'Emulated small floats convert and flip signs exactly',
     'For every bit pattern of the emulated 8, 16 and 32 bit floats, conversion to float and double is exact, conversion from float truncates and saturates as the packing rules say, and a round trip through a wider float is the identity for every finite value and infinity; negation flips only the sign bit and absolute value clears only it. '
     'The named constants are the values they name.',
     ['inputs', 'configurations'], 'every bit pattern of each emulated format',
     'Patterns of all formats times all directions; denormals and specials dominate the errors.',
     ['include/anyfloat.hpp', 'include/float16native32.hpp', U, 'include/floattraits.hpp'], [('anyfloat_emu conversions, abs, neg', 'include/anyfloat.hpp'), ('float16n32', 'include/float16native32.hpp'), ('any_floattrait constants', 'include/floattraits.hpp')])

prop('C26', 'Bit-field helpers agree with their definition for every word',
     'The leading-zero/leading-bit search, bit-field extraction, masks and the left/right aligned width-changing casts return, for every word and every valid position, exactly the bits their definition names, in both the portable and the intrinsic implementations.',
     ['inputs', 'configurations'], 'every word of 8 to 64 bits x every field position and length x both implementations',
     'Two implementations selected by compiler flags; the tests build only one of them.',
     ['include/bithippop.hpp', 'include/typehelpers.hpp'], [('findbitleftmostC', 'include/bithippop.hpp'), ('bitset_getT / bitset_leftmost_get*', 'include/bithippop.hpp'), ('cast_msb / cast_right_to_left', 'include/typehelpers.hpp')])

prop('C27', 'Approximation tables hold correctly rounded results',
     'The entries of the exponential, square and square-root style tables and functions are the correctly rounded values of those functions.',
     ['inputs'], 'every operand', 'Numerical accuracy statement about generated data and libm.',
     ['src/posit8_gen.cpp', 'include/exp2.hpp'], [('table generators', 'src/posit8_gen.cpp'), ('exp2', 'include/exp2.hpp')])

prop('C28', 'Fast activation approximations stay close to the function they name',
     'The bit-trick sigmoid and softplus of a posit stay within a fixed relative error of the mathematical functions for every operand.',
     ['inputs'], 'every operand x configuration', 'Error bound over all operands of an undocumented approximation.',
     [H], [('pseudosigmoid / pseudosoftplus', H)])

prop('C29', 'Pseudo sigmoid and softplus keep order and range',
     'For every pattern except the top code, in every configuration and whatever the width of the storage type, the pseudo sigmoid lies in [0,1], neither function is negative or gives the top code, and both are monotone: with the rank of a pattern its distance from the lowest one, the pattern of the sigmoid is a quarter of the rank and that of the softplus a half. '
     'The sigmoid of zero is one half when there are no exponent bits, the softplus of zero is one.',
     ['inputs', 'configurations'], 'every pattern x configuration (storage wider than the posit included)',
     'The tests do not call them; the sign extension of negative posits only matters for some storage widths.',
     [H, 'include/positf.h'], [('Posit::pseudosigmoid / pseudosoftplus', H), ('PositF::pseudosigmoid / pseudosoftplus', 'include/positf.h')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
print(len(P))
