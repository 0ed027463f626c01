"""Per-property configuration of run.py."""
STD = ["the reference model in mc/ref.hh (checked against Python integers by mc/selftest)",
       "operands are built through the public data members in canonical form",
       "g++ 13 on x86-64 stands for every conforming C++20 compiler"]
TECH = "explicit-state bounded-exhaustive exploration of the real code against a reference model"
NOTE = ("Every state and transition within the stated bounds is executed on the real templates compiled from /repo and its result "
        "compared with an independent bit-level reference model; nothing outside the bounds is claimed.")
NOT_APPLICABLE = {}
PROPS = {}


def p(id, src, bounds, **kw):
    PROPS[id] = dict(src=src if isinstance(src, list) else [src], bounds=bounds, assumptions=kw.pop("assumptions", STD), **kw)


p("C01", "c01.cc", "all pairs of four-state values up to 3 bits (4 thorough), boundary-pattern alphabets above; widths 1..570; plus &, |, ^ and ~ on equal operand types at every width 1..300 (520 thorough) with a compact alphabet")
p("C02", "c02.cc", "all four-state values up to 6 bits, all two-state up to 16; above: every position of a deciding bit against boundary positions of an unknown one; widths 1..570; plus every reduction at every width 1..300 (520 thorough) with a compact alphabet")
p("C03", "c03.cc", "all operand pairs up to 6 bits; boundary-pattern alphabets (walking ones/zeros, masks, word products) crossed above; plus all pairs of 64..192-bit numbers whose 16-, 32- or 64-bit digits are boundary patterns (0, 1, half, half+1, all ones); widths 1..570; plus + and - on equal operand types at every width 1..300 (520 thorough) with a compact alphabet")
p("C04", "c04.cc", "all operand pairs up to 6 bits; boundary-pattern alphabets (walking ones/zeros, masks, word products) crossed above; plus all pairs of 64..192-bit numbers whose 16-, 32- or 64-bit digits are boundary patterns (0, 1, half, half+1, all ones); widths 1..570; plus * on equal operand types at every width 1..300 (520 thorough) with a compact alphabet")
p("C05", "c05.cc", "all operand pairs up to 6 bits; boundary-pattern alphabets crossed above; plus all pairs of 64..192-bit numbers whose 16-, 32- or 64-bit digits are boundary patterns (0, 1, half, half+1, all ones) - every correction of a quotient estimate; widths 1..570; plus / and % on equal operand types at every width 1..300 (520 thorough) with a compact alphabet")
SH = "every amount 0..width+3 (representative amounts above 64 bits in quick) plus amounts with high bits set and unknown ones, against all values of small widths and boundary patterns above; widths 1..570; plus every amount at every width 1..300 (520 thorough) with a compact alphabet"
p("C06", "c06.cc", SH)
p("C07", "c07.cc", SH)
p("C08", "c08.cc", "all known pairs up to 5 bits; above: boundary patterns plus, for every value, its neighbours that agree on the shared low part; unknown operands; bit/bit, logic/logic, logic/bit, bit/logic; widths 1..570; plus all six relations on equal operand types at every width 1..300 (520 thorough) with a compact alphabet")
p("C09", "c09.cc", "all four-state pairs up to 3 bits (4 thorough); above: boundary patterns, every extension of each, and all one-position changes at boundary positions; widths 1..570; plus match and nmatch on equal operand types at every width 1..300 (520 thorough) with a compact alphabet")
RNG = "descending and ascending declared ranges, bounds not at 0 and negative bounds, widths 1..300; "
p("C10", "c10.cc", RNG + "all values up to 4 bits and boundary patterns above; every run-time index in and around the range, constant indices and bounds (all up to 8 bits, boundaries above), run-time slices of 1,2,8,33,64,65 and full width at every partially overlapping position of small ranges, base-indexed slices with 7 index types incl. unknown and out-of-range bases; plus single reads and slices of 2, 64 and the full width at every position, halves and middle at constant bounds at every width 1..300 (520 thorough) with a compact alphabet")
p("C11", "c11.cc", RNG + "target and source values from boundary patterns (all values of targets up to 4 bits); every single-bit write form at every index in and around the range; constant, run-time and base-indexed part writes from sources of width 1, 4, 5, full width, 68 in both directions, including partially and fully out-of-range, unknown and huge positions and the vector itself as source; plus the closure of all states of 1- and 3-bit vectors reachable by writes; plus single writes and runs of 1 to 70 and the full width at every position, halves and middle at constant bounds at every width 1..300 (520 thorough) with a compact alphabet")
p("C12", "c12.cc", "two- and three-operand concatenations (four pieces for unpacking) at every width pair of the grid and 18 width triples around word boundaries, signed/unsigned, two-/four-state mixed, offset and ascending declared ranges, boundary-pattern values; plus concatenation with 3 and 64 bits and with itself, and unpacking into halves, at every width 1..300 (520 thorough) with a compact alphabet")
p("C13", "c13.cc", "all values up to 4..9 bits and boundary patterns above; every pair of 14 widths from 1 to 300 (26 thorough) in every combination of signedness; every machine integer type (all 8-bit values, boundary values above) into every width 1..300; plus conversions to and from neighbouring widths, 9, 64, 130 and 200 bits and machine integers at every width 1..300 (520 thorough) with a compact alphabet")
p("C14", "c14.cc", "widths 1..300 (512 thorough), signed and unsigned, two- and four-state; every base in both cases with and without a leading size; all digit strings over the full digit alphabet up to 2..4 digits; every digit (both cases, x, z) at every position of strings one shorter than, exactly, and 1, 3, 30 digits longer than the width, in up to six backgrounds; underscores after every k digits and at every position; every boundary value of width w, w+1, w+2; raw strings: all byte values, every position, lengths around the width, embedded quotes; leading sizes smaller than the digits and x/z digits in two-state or decimal literals are outside the statement; plus texts of boundary lengths with every digit at either end at every width 1..300 (520 thorough) with a compact alphabet")
p("C15", "c15.cc", "widths 1..300 (512 thorough), signed and unsigned, two- and four-state; every base in both cases, field widths none, 0, 1, natural-1, natural, natural+1, natural+5 with a leading zero, 400; all values up to 2..9 bits and boundary patterns above, neighbourhoods of all powers of ten, all byte values at byte positions, every mix of 0/1/x/z within a digit at digits near word and vector boundaries; characters of unknown vectors, decimals above 128 bits and formats without a base letter are outside the statement; plus printing at every width 1..300 (520 thorough) with a compact alphabet")
p("C16", "c16.cc", "widths 1..300 (512 thorough), signed and unsigned, two- and four-state; all values of small widths, boundary patterns above, every kind of digit at every digit position against every background; b, o, h, x, d and s texts; plus the round trip at every width 1..300 (520 thorough) with a compact alphabet")
p("C17", "c17.cc", "all values of vectors up to 8 bits (two-state: 16 bits), boundary patterns above up to 300 bits, a single x or z at every position; the bits stored directly, truncated from a wider vector, parsed, negated, inverted and set one at a time; plus the read-outs at every width 1..300 (520 thorough) with a compact alphabet")
p("C18", "c18.cc", "28 array shapes (40 thorough): element widths 1..65 (300), two- and four-state, signed and unsigned, descending, ascending, offset and negative ranges, one-element arrays, nesting to depth 3, totals up to 217 (600) bits; 9 index types from 1 to 100 bits, every value in and around the declared range, aliases of declared indices in every high bit, huge, negative and unknown indices; all constant bound pairs of ranges up to 4 elements; sources narrower, equal and wider; full closure of reachable states for arrays up to 6 four-state or 10 two-state bits")
p("C19", "c19.cc", "16 array shapes (24 thorough): element widths 1..128 (300), two- and four-state, signed and unsigned, descending, ascending, offset and negative ranges; every declared index and 4 on each side (all for ranges up to 10) plus extreme indices; full closure of reachable states of tiny arrays")
p("C22", "c22.cc", "every operator, on every width pair of the grid in both signednesses: all pairs of known values up to 5 bits and boundary patterns above; four-state left operands with unknown bits against two-state right operands")
p("C24", "c24.cc", "the five compound operators on 24 width pairs (44 thorough) in mixed signedness, two- and four-state, and a four-state target with a two-state operand: all values up to 3..5 bits and boundary patterns above, every shift amount of small widths; the same object on both sides, and increments, at every width 1..300; operands of every operator compared before and after")
p("C25", "c25.cc", "12 layouts (16 thorough) as struct and union, two- and four-state, widths 1..192 (300): disjoint, nested and overlapping fields inside, at and across storage words; boundary-pattern states and field values, narrower and wider sources; all histories of up to 3 field writes (4 thorough) with every field read after each; full closure of reachable states for vectors up to 5 four-state or 9 two-state bits")
p("C20", ("c20.cc", 29, 47), "raw object states: the full closure of all raw states reachable from the default one by about 130 operations for vectors of 1..3 bits (4-bit four-state, 7-bit two-state thorough), all pairs of states as operands; widths 7..129 (300 thorough): all pairs of boundary states, and everything reachable from any non-canonical result")
SAN = ["-O0", "-DMC_SAN", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
p("C23", [("c20.cc", 16, 47), ("c18.cc", 11, 20), ("c23.cc", 40, 80), ("c12.cc", 8), ("c11.cc", 11, 16), ("c10.cc", 11, 16), ("c03.cc", 8), ("c04.cc", 8), ("c05.cc", 8), ("c06.cc", 8), ("c07.cc", 8), ("c13.cc", 8), ("c14.cc", 8), ("c15.cc", 8), ("c16.cc", 8), ("c17.cc", 8), ("c19.cc", 8), ("c25.cc", 12, 32)],
  "every transition of the explorers of C03..C07, C10..C20 and C25 on a reduced grid (widths 1..200, all word boundaries), plus extreme arguments: every read, write and slice at indices around the range, word multiples and the limits of int and long; every literal of up to 3 characters (4 thorough) over a 10-character alphabet (16) and long ones in every base; every format of up to 2 characters and odd ones; AddressSanitizer, UBSan and library assertions on every transition, and two builds that differ only in the contents of uninitialised memory must observe the same", flags=SAN, twin_flags=["-O0", "-DMC_SAN", "-ftrivial-auto-var-init=zero"], twin_src=("c23.cc", "c20.cc", "c11.cc", "c12.cc", "c15.cc", "c18.cc", "c19.cc", "c25.cc"),
  env={"ASAN_OPTIONS": "abort_on_error=1:handle_segv=0:handle_abort=0:detect_leaks=0", "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1"}, abort_is_violation=True, technique="bounded-exhaustive exploration of the real code, every transition executed under AddressSanitizer, UndefinedBehaviorSanitizer and an initial-memory twin", assumptions=["the sanitizers of gcc 13 recognise the undefined behaviour the statement is about", "operands are built through the public data members in canonical form"])
p("C21", ("c21.cc", 8, 8), "327 operations (576 thorough) on vectors of 8, 64, 65 and 130 bits and on packed and unpacked arrays, every pair of them on two threads; 290 further operations (the rest of the interface, 200-bit vectors, the numbers underneath) each against itself and against every operation whose memory footprint meets its own; three threads for a selection in thorough; each thread calling its operation twice with other operands; all interleavings of the accesses that conflict, up to 2 preemptions (4 thorough); any other interleaving is equivalent to an explored one", flags=["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
  link_flags=["-O1", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp", "-rdynamic", "-ldl"], technique="stateless exploration of the real code's thread interleavings under a controlled scheduler, with happens-before race detection on every execution",
  assumptions=["data inside the C and C++ run-time libraries is not the code under test", "executions are sequentially consistent; weaker behaviour needs a data race, which is reported"])
p("C26", ("c26.cc", 16, 32), "every operator, compound assignment, conversion, text and numeric read-out on vectors declared [W+2:3], [W-4:-3], [0:W-1], [5:W+4] and as a packed array (left operand) against the same operation on [W-1:0], widths 1..300 for one operand and 13 width pairs (26 thorough) in eight combinations of declarations, two- and four-state, boundary-pattern values and every shift amount of small widths")
p("C27", "c27.cc", "two- and four-state vectors of widths 1..300 and 37 declared ranges, ascending, offset and negative included: all values up to 5 four-state or 12 two-state bits, boundary patterns above; all integer literals up to 70000 and everything within 2 of a power of two or a run of ones; plus fills and queries with a deciding bit at every position at every width 1..300 (520 thorough) with a compact alphabet")
p("C28", "c28.cc", "sizes 65..300 of the width grid, signed and unsigned: every operator on every pair of sizes in every combination of signedness, with boundary patterns (walking ones/zeros, masks, word products) crossed; every shift amount (representative ones above 70 bits in quick), amounts held in numbers of 65, 128 and 200 bits; every bit position at run time, constant positions, slices and extensions at word boundaries; all 8-bit integers and all within 2 of a power of two")
p("C29", ("c29.cc", 16, 32), "all pairs of four-state values up to 4 digits in total, boundary patterns with unknown digits above, on every width pair of the grid in both signednesses; equal unknown operands included; every completion of up to 4 unknown digits per operand, beyond that all-0, all-1, alternating and every single deviation at the ends and around words", assumptions=["no reference model: the results for known operands are the library's own (checked by C01..C12)"])
