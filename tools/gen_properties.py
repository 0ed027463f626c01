#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
L, B, G, A, U, UC = ("include/logic/logic.hh", "include/logic/bit.hh", "include/logic/big_num.hh",
                     "include/logic/array.hh", "include/logic/util.hh", "src/util.cc")
VAL = [dict(name="value / xz_mask", meaning="4-state encoding: mask off = known bit, mask on + 0 = x, mask on + 1 = z", where=L),
       dict(name="storage word(s)", meaning="native holder up to 64 bits, array of 64-bit words above", where=B + ", " + G)]

prop("C01", "Bitwise operators follow the four-state truth tables at every bit",
     "For four-state vectors, `a & b`, `a | b`, `a ^ b` and `~a` give at every bit position exactly the IEEE 1800 truth-table value (0 dominates AND, 1 dominates OR, any other combination with x or z gives x, XOR and NOT of x or z give x). Operands of different widths are first extended to the wider one (sign-extended only if both are signed, an x or z sign bit being replicated), and for two-state vectors the same operators give the ordinary bitwise result.",
     ["inputs", "configurations"],
     "every pair of operand values over {0,1,x,z} per bit, every width (native and multi-word), every signedness and width combination of the operands",
     "The tests try 4-5 one-bit combinations per operator, always with the unknown on the right-hand side, and one all-known wide value; the truth table has 16 entries per bit and interacts with width extension and word boundaries.",
     [L, B, G], [("logic::operator& | ^ ~", L), ("bit::operator& | ^ ~ / and_ or_ xor_", B), ("big_num bitwise operators", G), ("extend", L)], VAL, ["result bits and x/z bits"])

prop("C02", "Reduction operators, logical NOT and truth value are exact",
     "Reduction AND/NAND/OR/NOR/XOR/XNOR of a vector equal the fold of the four-state truth table over all its bits, so a known 0 (for AND) or a known 1 (for OR) decides the result wherever the x and z bits are, and XOR is the parity of the ones or x if any bit is unknown. Logical NOT gives x for a vector with any unknown bit and otherwise whether the vector is zero; the truth value is true exactly when all bits are known and at least one is 1, at every width.",
     ["inputs", "configurations"], "every vector value over {0,1,x,z}, every width and signedness, two- and four-state",
     "The tests use six 4-bit patterns; they never put the deciding bit above an unknown one, never use an odd width for parity, never a two-state or multi-word vector.",
     [L, B, G], [("logic::r_and .. r_xnor, operator!, operator bool", L), ("bit::r_and .. r_xnor, any_set, all_set, popcount", B), ("big_num::any_set/all_set/r_and/r_xor/popcount", G)], VAL)

prop("C03", "Addition, subtraction, negation and increments wrap at the declared width",
     "`a + b`, `a - b`, `-a`, `++` and `--` equal the mathematical result modulo 2^width, where the width is that of the wider operand and operands are sign-extended only if both are signed; carries and borrows propagate across every storage boundary and never leave anything above the declared width. If any operand bit is x or z, every bit of the result is x.",
     ["inputs", "configurations"], "every operand pair, every width/signedness combination, native and multi-word, two- and four-state",
     "The tests add a handful of constants whose sums fit the holder type; no test overflows a width that is not a machine width, borrows across a word, or feeds x/z.",
     [L, B, G], [("operator+ - unary -, ++ --", L), ("bit arithmetic", B), ("big_num::operator+ - negate, mask_off", G)], VAL)

prop("C04", "Multiplication is exact modulo 2^width",
     "`a * b` equals the mathematical product modulo 2^width of the wider operand (operands are sign-extended only if both are signed) for every width, however many storage words both operands occupy. If any operand bit is x or z, every bit of the result is x.",
     ["inputs", "configurations"], "every operand pair, every width/signedness combination",
     "Two big products are tested, neither with non-zero words near the top of both operands.",
     [L, B, G], [("operator*", L), ("bit::operator*", B), ("big_num::operator*", G)], VAL)

prop("C05", "Division and remainder satisfy the division identity",
     "For a known non-zero divisor, `a / b` truncates towards zero, `a % b` has the sign of the dividend and a == (a/b)*b + a%b holds modulo 2^width of the wider operand, as a signed computation only if both operands are signed. A four-state division or remainder by zero, or one with any x or z bit in an operand, gives all x; a two-state division or remainder by zero gives 0 and never stops the program.",
     ["inputs", "configurations"], "every dividend/divisor pair, every width/signedness combination",
     "Three quotients are tested, all unsigned; long division is data dependent (equal operands, divisor one, shifted subtract) and signed division is never instantiated.",
     [L, B, G], [("operator/ %", L), ("bit::operator/ %", B), ("big_num::div_mod, div_mod_unsigned, highest_bit", G)], VAL)

prop("C06", "Logical shifts move every bit by exactly the amount",
     "`a << n` and `a >> n` move each bit of a by n positions and fill with zeros, for every amount including 0, amounts equal to or greater than the width (result 0) and amounts wider than 64 bits; the amount is read as an unsigned number whatever its width and signedness. The result has a's width and signedness, and is all x if a or n contains an x or z.",
     ["inputs", "configurations"], "every value, every amount, every width combination of value and amount (native/native, native/big, big/native, big/big)",
     "The tests shift by 2, 7, 8 and 65535; not by 0, the width, a multiple of 64, nor with an amount wider than the value.",
     [L, B, G], [("operator<< >>", L), ("bit::operator<< >>", B), ("big_num::operator<< >>", G)], VAL)

prop("C07", "Arithmetic shifts replicate the sign bit",
     "The arithmetic right shift of a signed vector by n moves every bit down by n and fills the vacated positions with the sign bit, for all amounts including 0 and those at or above the width; on an unsigned vector it equals the logical right shift, and the arithmetic left shift always equals the logical left shift. The amount is read as an unsigned number and the result has the width and signedness of the shifted vector. The result is all x if the value or the amount contains an x or z.",
     ["inputs", "configurations"], "every value, every amount, every width/signedness combination",
     "One negative native value and one wide value with a single set bit are tested, each with one amount.",
     [L, B, G], [("ashr / ashl", L), ("bit::ashr / ashl", B), ("big_num::ashr", G)], VAL)

prop("C08", "Relational and equality operators form one consistent total order",
     "`== != < <= > >=` compare the numeric values of the operands, extended to the wider width, as signed numbers only if both operands are signed and as unsigned numbers otherwise; hence exactly one of <, ==, > holds for known operands and <=, >=, != agree with them, whatever the widths or whether an operand is two- or four-state. With any x or z bit in a four-state comparison the result is x (false where the left operand is two-state and the result is a plain bool).",
     ["inputs", "configurations"], "every operand pair, every width/signedness combination, bit/bit, logic/logic, logic/bit and bit/logic",
     "A dozen constant comparisons are tested; never operands of different width whose low parts agree, a negative minimum, or a wide value with bits only in the upper half of a word.",
     [L, B, G], [("comparators", L), ("bit comparators", B), ("big_num::operator== >", G)], VAL)

prop("C09", "Case equality compares x and z literally and never yields x",
     "`match` is true exactly when both operands, extended to the wider width as for `==` (an x or z sign bit being replicated when both are signed), have the same one of 0, 1, x, z at every bit, and `nmatch` is always its negation. It is an equivalence relation on vectors of one type.",
     ["inputs", "configurations"], "every operand pair over {0,1,x,z}, every width and signedness combination",
     "One match and one mismatch at 32 bits are tested.",
     [L, B], [("match / nmatch", L), ("bit::match / nmatch", B)], VAL)

prop("C10", "Bit and part selects read exactly the addressed bits",
     "Reading bit i of a vector declared [msb:lsb] (msb >= lsb or msb < lsb, lsb not necessarily 0) gives the bit at that declared index, and a four-state read outside the declared range gives x. A part select, with constant or run-time bounds or with a base and a direction, gives exactly the bits of the addressed range in declared order, as an unsigned vector of the range's width, with x (four-state) or 0 (two-state) for each addressed position outside the vector, and never changes the vector.",
     ["inputs", "configurations"], "every vector value, every index and every bounds pair in and around the declared range, every width, declared range and direction",
     "Seven selects are tested, none straddling a 64-bit boundary into a native result at run time, on an ascending or shifted range, with a signed vector holding more than one bit, or out of range.",
     [L, B, G], [("operator[], get, slice", L), ("bit::get_, slice_", B), ("big_num::slice", G)], VAL)

prop("C11", "Writes through selects change exactly the selected bits",
     "Writing a bit, updating a part with constant or run-time bounds, or assigning through a part-select reference sets the selected bits to the source's bits aligned at the right-hand (least significant) end - excess source bits dropped, missing ones written as 0 - and x/z bits are written as such. Every bit outside the selection keeps its value, and positions outside the declared range are not written anywhere.",
     ["inputs", "histories", "configurations"], "every prior vector value, every selection, every source width and value, ascending/descending ranges of target and source, sequences of writes",
     "Six updates into an all-x vector, all starting at bit 0 except one, are tested; no source wider than the selection at a non-zero offset, no mixed direction at an offset, no two-state constant-bounds update above bit 0.",
     [L, B, G], [("set, update, update_, slice_ref", L), ("bit::set, update, update_, slice_ref_*", B), ("big_num::set", G)], VAL)

prop("C12", "Concatenation and unpacking are exact inverses",
     "Concatenating vectors of any widths, signedness and number gives the vector of the summed width whose bits are the operands' bits in order, leftmost operand most significant, with x and z preserved and operands unchanged (also when a two-state operand is mixed in). Unpacking a vector into variables of its own kind whose widths sum to its width gives back exactly those pieces in the same order.",
     ["inputs", "configurations"], "every operand value tuple, every width tuple incl. results of 64 bits and more",
     "One 12-bit concatenation and two unpacks are tested; no result at or above 64 bits, no signed operand, no bit/logic mix, no x/z.",
     [L, B, G], [("concat / unpack", L), ("bit::concat / unpack", B), ("big_num::concat", G), ("util::reverse_tuple", U)], VAL)

prop("C13", "Width and sign conversions keep the value or truncate it, never anything else",
     "Constructing or assigning a vector from a machine integer or from another vector keeps the low bits and drops the rest when the target is narrower, and otherwise extends by the source's sign (sign bit replicated, x and z included, for a signed source; zeros for an unsigned one). Explicit extension does the same, and signed/unsigned reinterpretation keeps every bit; the converted value then behaves in every later operation exactly like a vector of the target type written directly.",
     ["inputs", "configurations", "histories"], "every source value, every ordered pair of width/signedness/state-kind that converts",
     "Tests convert constants that fit; nothing truncates, and no signed source with x/z or a negative multi-word value is extended.",
     [L, B, G], [("constructors, operator=, extend, to_signed, to_unsigned", L), ("same", B), ("big_num::extend", G)], VAL)

prop("C14", "String literals denote the written value in every base",
     "A string with a base prefix ('b, 'o, 'd, 'h in either case, with or without a leading size) sets each bit of the vector to what its digits denote: digits in either case, x and z digits in either case (binary, octal and hex literals of four-state vectors) expanding to the digit's bit group, underscores ignored, missing high digits zero and excess high bits dropped at the vector's width. A string without a base prefix stores its characters' bytes, last character in the low byte; all of this holds at every vector width, including digits that straddle storage words.",
     ["inputs", "configurations"], "every digit string up to a length in every base plus long strings around word boundaries, every width",
     "About 15 literals are tested: no lower-case hex digit, no upper-case binary X/Z, no x above bit 31, no octal or decimal or underscore literal longer than one word.",
     [UC, U, L, B], [("parse_raw_str, parse_xz_raw_str, get_input_base, get_stride", UC), ("string constructors", L)], VAL)

prop("C15", "Formatting prints the exact value, padding and unknowns",
     "Formatting with b, o, h/x prints exactly ceil(width/digit bits) digits of the value, most significant first, a digit with unknown bits printing as x / z if all its bits are x / z and as X / Z if only some are (X if any is x); with d it prints the exact decimal value (up to 128 bits; signed negatives with a leading '-'), or a single x / z / X / Z for unknown values (also up to 128 bits), and with s the bytes of a known value as characters. The result is right-justified with a field width of at least the natural maximum or the requested width (spaces for d and s, zeros otherwise; the minus sign comes on top), a decimal width of 0 suppresses padding, and two-state and four-state vectors of the same value print identically.",
     ["inputs", "configurations"], "every value over {0,1,x,z}, every width, every base letter in either case, requested widths 0..wide",
     "Ten strings are tested: no multi-word value whose width is a multiple of 64, no two-state multi-word value, no octal digit crossing a word with non-zero bits, no mixed x/z digit.",
     [UC, U, L, B], [("to_string overloads, fmt_value, fmt_decimal, fmt_char, pad_result, parse_fmt", UC), ("str", L), ("str", B)], VAL)

prop("C16", "Printing a vector and reading it back is lossless",
     "For every four-state vector v of width w, parsing \"'b\" followed by v's binary text yields a vector identical (as by case equality) to v, and the same holds for octal and hexadecimal text whenever no digit mixes known with unknown bits or x with z, and for unsigned decimal text of known values up to 128 bits. Repeating print and parse is a fixed point.",
     ["inputs", "histories"], "every value over {0,1,x,z} of every width; print-parse chains",
     "No test round-trips a value.",
     [UC, U], [("parse_raw_str / parse_xz_raw_str", UC), ("to_string", UC)], VAL)

prop("C17", "Numeric read-out is exact for known values and 0 for unknown ones",
     "Converting a vector to a machine integer yields its exact value (two's complement for signed vectors) when every bit is known and fits, the low 64 bits when it is wider, and 0 whenever a four-state vector holds any x or z. The result depends only on the vector's bits, not on how the vector was produced.",
     ["inputs", "histories", "configurations"], "every value over {0,1,x,z}, every width and signedness, values produced by every operation",
     "Four constants are tested.",
     [L, B], [("to_num, to_uint64", L), ("to_num, to_uint64", B)], VAL)

prop("C18", "Packed array elements are isolated and addressed exactly",
     "In a packed array [msb:lsb] of W-bit elements (also nested, also with lsb not 0 or an ascending range), reading element i by a run-time index returns what was last written to element i and writing element i changes no bit of any other element; a constant-bounds slice or update covers exactly the addressed elements. An index that is unknown or outside the declared range reads as all x (0 for two-state elements) and writes nothing, and the whole array read as one vector is the concatenation of its elements, highest index most significant.",
     ["inputs", "histories", "configurations"], "every sequence of element writes and reads, every index in and around the range, every element width and count, native and multi-word",
     "One element is written and read back; neighbours are never inspected, no index is out of range, no array fits a machine word.",
     [A, L, B], [("packed_array::operator[], update, slice_array", A)], [dict(name="flattened vector", meaning="element i occupies bits [i*W, (i+1)*W)", where=A)])

prop("C19", "Unpacked arrays behave as independent variables with safe bounds",
     "In an unpacked array, each element keeps exactly what was last stored in it, a store to one declared index changes no other element, and every declared index (whatever the lower bound or direction) can be stored and read. Reading an index outside the declared range gives the element type's default (all x for four-state), always, and storing to such an index changes nothing.",
     ["inputs", "histories", "configurations"], "every sequence of stores and reads over all indices in and around the declared range",
     "One store and one read of one array [3:0] are tested.",
     [A], [("unpacked_array::operator[] / update", A)], [dict(name="value", meaning="element storage", where=A)])

prop("C20", "Results depend only on the visible value, never on the history",
     "Any two vectors of one type that show the same 0/1/x/z bits are indistinguishable: every operation, comparison, conversion and formatting gives the same result on them, whatever sequence of operations produced each. In particular no sequence of operations leaves residue above the declared width or behind an x or z bit that a later operation can see.",
     ["histories"], "all reachable vector states under all operation sequences",
     "Tests apply one operation to a fresh constant and print it in binary, which hides residue.",
     [L, B, G], [("mask_off and the zero/sign-extended excess bits convention", B), ("mask_off", G)], VAL)

prop("C21", "Independent operations on different threads never interfere",
     "Operations that share no vector, and read-only operations on a shared vector, give on concurrent threads exactly the results each gives when called alone, under every interleaving and without a data race; whatever an operation called earlier, on this or another thread, has no influence on a result.",
     ["schedules"], "every interleaving of two threads running any pair of library operations (formatting, parsing, arithmetic, selection, array indexing with its lazily built constants)",
     "The tests are single-threaded; a comment in the formatter promises that nothing is cached for the sake of concurrency.",
     [UC, A, G], [("no caching in decimal_size_table / to_string", UC), ("function-local static constants", A)], [dict(name="function-local statics", meaning="size bound and default element constants", where=A)])

prop("C22", "Two-state and four-state arithmetic agree on known values",
     "For operands without x or z (and divisors other than zero), every operator gives the same bits on four-state vectors as on two-state vectors of the same widths and signedness, and a four-state operator with a two-state right operand gives the same as with that operand converted to four-state. Taking the two-state value of a known four-state vector and converting it back is the identity.",
     ["inputs", "configurations"], "every known operand pair, every operator, every width/signedness combination",
     "Only four comparisons mix the two kinds.",
     [L, B], [("operators taking bit operands", L), ("operators taking logic operands", B)], VAL)

prop("C23", "No operation touches memory outside its operands or has undefined behaviour",
     "Every operation with any operand values - any index, slice bounds, shift amount, divisor, literal or format width, at any vector width - completes without reading or writing outside the objects involved, without a trap, without undefined behaviour and without depending on memory that was never written.",
     ["inputs", "configurations"], "all operations over boundary operands at all native/multi-word boundary widths",
     "The tests run without sanitizers on a few benign constants.",
     [L, B, G, A, UC], [("bounds checks in big_num::set/operator[]", G), ("word indices in operator*, to_string", G), ("shift amount checks", B)], VAL)

prop("C24", "Compound assignments equal the operation followed by assignment",
     "`a op= b` for &, |, ^, <<, >> leaves in a exactly what `a = a op b` would (truncated to a's width), returns a itself, never changes b, and is correct when both operands are the same object; the prefix increments and decrements return the new value and the postfix ones the old. Binary operators never change their operands.",
     ["inputs", "histories", "configurations"], "every operand pair incl. aliased operands, every compound operator, every width combination",
     "No compound assignment is tested at all; the increments are tested from one value.",
     [L, B, G], [("operator&= |= ^= <<= >>=, ++ --", L), ("same", B), ("big_num::operator&= ^= |=", G)], VAL)

prop("C25", "Packed struct and union fields are views on one vector",
     "Fields of a packed struct or union that are read by constant part select and written by part update behave as views on one vector: a write to a field is visible in exactly the bits of every field that overlaps it and in no other field, in every order of writes. A packed struct assigned as a whole distributes its bits over the fields by position.",
     ["histories", "inputs"], "all sequences of field writes over layouts with disjoint and overlapping fields, two- and four-state, native and multi-word",
     "One field of one struct is read after a whole assignment, and one union field after one write.",
     ["include/logic/struct.hh", "include/logic/union.hh", L, B], [("packed_struct::type, union_::type", "include/logic/struct.hh, include/logic/union.hh"), ("slice / update", L)], VAL)

prop("C26", "Declared ranges and packed dimensions never influence a result",
     "Declaring a vector [W+k:k], [-k:...], ascending [0:W-1], or as a packed array of W bits in total only names its bits: every operator, compound assignment, increment, comparison, conversion, text and numeric read-out gives exactly what it gives for the same bits declared [W-1:0], for every combination of declarations of the operands. Only selects depend on the declared indices.",
     ["inputs", "configurations"], "every operation on operands in every combination of declared ranges, at native and multi-word widths",
     "The tests declare nearly all operands [N:0]; several operators did not even accept ascending operands.",
     [L, B, A], [("operators with op_msb/op_lsb template arguments", L), ("same", B), ("packed_array inherits every operator of its base vector", A)], VAL)

prop("C27", "Fills, defaults, constants and whole-vector queries are exact",
     "A default-constructed four-state vector is all x and a two-state one all 0; clear, mask, negate and storing an integer leave exactly the stated value in every declared bit (and make it known). any_set, all_set, popcount, highest_bit, negative, x_set and z_set answer exactly for the declared bits, at every width, signedness and declared range, and the integer literals denote their value as signed 32-bit (64-bit) vectors.",
     ["inputs", "configurations"], "every value at every width, both signednesses and all kinds of declared ranges",
     "The tests query a handful of constants, none of them negative or wider than two words.",
     [L, B, G], [("x_set / z_set / default constructor / literals", L), ("any_set, all_set, popcount, highest_bit, clear, mask, negate", B), ("same", G)], VAL)

prop("C28", "big_num on its own is exact wide integer arithmetic",
     "Used directly, big_num<N, signed> with N above 64 is exact N-bit arithmetic: + - * / % & | ^ ~, negation, the compound bitwise operators, shifts by integers and by other numbers, and comparisons give the same values as the mathematical operation on operands extended to the larger size (as signed only if both are) and wrapped; extension, slices, single-bit reads and writes at run-time and constant positions, concatenation, queries (any_set, all_set, popcount, highest_bit, is_one, fit_in_64), and construction from integers are exact; no result keeps a bit above N.",
     ["inputs", "configurations"], "every operation on every pair of sizes and signednesses, boundary-pattern values, every shift amount and bit position around words",
     "The tests never use big_num directly; several of its operators (mixed sizes, shifts by numbers, compound operators) are not even instantiated by them.",
     [G], [("big_num", G)], VAL)

prop("C29", "A known result digit never depends on unknown operand digits",
     "For every four-state operator except the literal comparisons (match, nmatch) and the truth value: where the result of an operation on operands with x or z digits is a known 0 or 1, the same operation gives that same digit for every way of replacing the unknown digits by 0 and 1. An x never silently becomes a wrong certainty (division by a vector that may be 0 included).",
     ["inputs"], "every pair of values with unknown digits, every completion of them by known digits",
     "The tests contain a handful of operands with unknown bits and never compare with what the bits could stand for.",
     [L], [("operators", L), ("xz_mask.any_set() guards", L)], VAL)

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
