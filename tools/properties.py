import json
P=[]
def p(id,title,st,over,qt,why,files,mech):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})
p("C01","Every pairing is bilinear, non-degenerate and lands in the order-r group",
"For every supported pairing family and parameter set, and all inputs P in G1, Q in G2 and integers a, b, the map satisfies e(aP,bQ) = e(P,Q)^(ab), is multiplicative in each argument, and maps either identity to the identity. Values have order dividing r, generators pair to a non-identity value, and symmetric families are symmetric.",
["inputs","configurations"],"all group elements (including identity, multiples, negatives, hashed and random ones), all scalars, all families A, A1, D, E, F, G and I, shipped and freshly generated parameters",
"Tests pair one or two random points on a few parameter sets; a wrong line function, final power or special case shows only for particular points, scalars or parameter shapes.",
["ecc/a_param.c","ecc/d_param.c","ecc/e_param.c","ecc/f_param.c","ecc/g_param.c","ecc/eta_T_3.c","ecc/singular.c","ecc/pairing.c","include/pbc_pairing.h"],
[("Miller loops and final powers","ecc/*_param.c, ecc/eta_T_3.c"),("identity short-cuts and dispatch","include/pbc_pairing.h")])
p("C02","All routes to a pairing value agree",
"The direct pairing, the pairing after preprocessing its first argument, the product-of-pairings call of any length, every selectable evaluation method, and the value obtained through any other live pairing object with equal parameters all give the same group element. The test for equality of two discrete-log ratios accepts exactly the tuples whose pairings are equal (or inverse), and no call changes its inputs or later results.",
["inputs","histories","configurations"],"all inputs including identities and repeated or mixed terms, all product lengths, all method options and option-setting orders, any interleaving of several pairing objects and preprocessed tables, with reuse",
"Tests compare the routes on single random points with default options and one object; identity terms, long products, option switching, table reuse and coexisting objects are not sampled.",
["include/pbc_pairing.h","ecc/pairing.c","ecc/a_param.c","ecc/d_param.c","ecc/e_param.c","ecc/f_param.c","ecc/g_param.c","ecc/eta_T_3.c"],
[("preprocessing tables","*_pairing_pp_init / *_pp_apply in ecc/*_param.c"),("product Miller loops","*_pairings_* in ecc/*_param.c"),("option handlers","*_option_set in ecc/*_param.c")])
p("C03","Pairing values are the standard reduced Tate values of the parameters",
"For every input of the elliptic-curve families over large-characteristic fields, the value equals the reduced Tate pairing of the points (in the library's published embedding of G2), computed independently from the definition; for the characteristic-3 family it equals the eta_T pairing, the fixed power of the Tate pairing published for it. Hence a value computed by one build, field representation or process can be checked by any other.",
["inputs","configurations"],"all inputs and parameter sets of families A, A1, D, E, F, G and I, and every underlying prime-field representation",
"A consistently wrong but still bilinear map (for example a changed exponent) passes every bilinearity test while breaking interoperability; tests have no independent reference.",
["ecc/a_param.c","ecc/d_param.c","ecc/e_param.c","ecc/f_param.c","ecc/g_param.c","ecc/eta_T_3.c"],
[("Miller loops, denominators elimination and final powers","ecc/*_param.c")])
p("C04","Prime-field and integer-mod-n arithmetic is exact",
"In every available representation of the integers modulo n, every operation (add, subtract, multiply, divide, square, double, halve, negate, invert, integer multiples, powers, conversions from and to integers) returns exactly the result of integer arithmetic modulo n. This holds for every modulus the representation accepts, every operand, every aliasing of output with inputs and whatever the output held before.",
["inputs","histories","configurations"],"all moduli (limb boundaries, full top limbs, composite and even where accepted), all operands, all operation sequences on reused and aliased elements",
"Carry chains and zero flags go wrong only for operands and moduli at limb boundaries or after particular operation histories; tests use one or two random moduli and fresh elements.",
["arith/montfp.c","arith/fasterfp.c","arith/fastfp.c","arith/naivefp.c","arith/fp.c","arith/field.c","include/pbc_field.h"],
[("Montgomery multiplication and reduction","mont_mul, mont_reduce in arith/montfp.c"),("zero-flag representation","arith/montfp.c, arith/fasterfp.c"),("representation choice","field_init_fp in arith/fp.c")])
p("C05","Extension-field arithmetic is exact",
"Quadratic extensions, the Gaussian special case, polynomial-quotient extensions of any degree and towers of them behave exactly as the corresponding quotient rings, for every operation including inversion, powers, integer multiples and multiplication by base-field constants. This holds for every operand, aliasing and previous output content.",
["inputs","histories","configurations"],"all base fields, degrees and moduli polynomials (degrees with and without dedicated multiplication code), all operands, operation sequences with aliasing",
"Specialised multiplication code for small degrees, sparse operands and aliasing are only hit by chance in tests.",
["arith/fieldquadratic.c","arith/poly.c"],
[("Karatsuba and squaring formulas","fq_mul, fi_mul in arith/fieldquadratic.c; kar_poly_2, polymod_mul_degree3/6 in arith/poly.c"),("inversion","polymod_invert, fq_invert")])
p("C06","Polynomial rings are exact; irreducibility and roots are decided correctly",
"Polynomials over any supported field add, subtract, multiply and scale exactly and keep a canonical degree. The irreducibility test answers exactly, root finding returns a root whenever it reports success and reports success exactly when a root exists, and random monic polynomials are monic of the requested degree.",
["inputs","histories"],"all polynomials (zero, constant, non-monic, sparse, cancelling leading terms, repeated roots), all base fields including tiny ones",
"Tests try a handful of fixed polynomials over one field.",
["arith/poly.c"],
[("polynomial arithmetic","poly_* in arith/poly.c"),("irreducibility and roots","poly_is_irred, poly_findroot in arith/poly.c")])
p("C07","Characteristic-three fields are exact and the type I group law holds",
"Arithmetic in the ternary field and its quadratic and cubic extensions equals polynomial arithmetic modulo the defining trinomial, for every operand, aliasing and field size. Points of the supersingular curve over it form a group under the library's addition, and all group elements produced by the library lie on the curve and have the advertised order.",
["inputs","histories","configurations"],"all operands of all supported (degree, trinomial) sizes including word-boundary degrees, operation sequences with aliasing",
"Bit-sliced arithmetic errs at word boundaries and for digit 2 patterns that fixed tests do not reach.",
["arith/ternary_extension_field.c","ecc/eta_T_3.c"],
[("bit-sliced arithmetic","gf3m_*, gf32m_*, gf33m_* in arith/ternary_extension_field.c"),("curve over GF(3^m)","point_* in ecc/eta_T_3.c")])
p("C08","Elliptic-curve groups obey the exact group law",
"Addition, doubling, negation, subtraction and scalar multiples on every curve the library constructs equal the chord-and-tangent law for every pair of points, including identity, equal, opposite and order-two points, under any aliasing. The batch doubling and batch addition calls give, for every mixture of points, the same results as doing them one by one, and generated points lie on the curve and in the intended subgroup.",
["inputs","histories","configurations"],"all curves (from coefficients, from j-invariant, twists, over prime and extension fields), all point combinations, batch sizes and compositions, operation sequences with aliasing",
"Degenerate point combinations inside batches and stale outputs are combinations no unit test enumerates.",
["ecc/curve.c","ecc/singular.c"],
[("point addition and doubling","curve_mul, double_no_check, curve_double in ecc/curve.c"),("batch inversion trick","multi_double, multi_add in ecc/curve.c"),("cofactor clearing","curve_random, curve_from_hash in ecc/curve.c")])
p("C09","All exponentiation routes agree with repeated multiplication",
"Single, double and triple exponentiation, exponentiation by a ring element, scalar multiplication, and exponentiation with a precomputed table all equal repeated application of the group operation, for zero, negative, huge and order-multiple exponents. Precomputed tables stay valid however often and in whatever order they are used.",
["inputs","histories"],"all bases (identity included) in G1, G2, GT and plain fields, all exponents of any sign and size, any window boundary, any reuse history of tables",
"Window and sliding-window code fails only at particular bit patterns and lengths of the exponent.",
["arith/field.c","include/pbc_field.h"],
[("sliding window","element_build_pow_window, element_pow_mpz in arith/field.c"),("simultaneous exponentiation","element_pow2_mpz, element_pow3_mpz"),("fixed-base tables","element_pp_* / default_element_pp_* in arith/field.c")])
p("C10","Byte serialization round-trips with exact advertised lengths",
"For every element of every group or ring that offers a byte encoding, writing to bytes (plain, compressed or x-only) writes exactly the advertised number of bytes and no more, and reading those bytes back consumes the same count and yields the same element (up to sign for x-only). Equal elements give equal bytes, and the per-pairing length queries match.",
["inputs","configurations"],"all elements including identity, zero, maximal and leading-zero coordinates, all groups of all families, all encodings",
"Tests round-trip random elements; identity, leading zeros, sign choice and odd field widths are missed.",
["arith/montfp.c","arith/fasterfp.c","arith/naivefp.c","arith/fieldquadratic.c","arith/poly.c","arith/z.c","arith/multiz.c","arith/ternary_extension_field.c","ecc/curve.c","ecc/eta_T_3.c","ecc/pairing.c","include/pbc_field.h","include/pbc_pairing.h"],
[("field encodings","*_to_bytes, *_from_bytes in arith/"),("point encodings","curve_to_bytes, element_to_bytes_compressed, element_to_bytes_x_only in ecc/curve.c")])
p("C11","Decoding arbitrary bytes always yields a valid element",
"Reading any byte string of the advertised length into an element of any group never reads beyond it, never changes it, and leaves a well-formed element: field values are reduced, and a point decoded from untrusted bytes either satisfies the curve equation or is the identity. Every later operation on that element behaves as for any other element with the same value.",
["inputs"],"all byte strings of the right length: random, all-ones, modulus multiples, off-curve and non-residue coordinates, mutated valid encodings",
"Hostile encodings form an enormous space; tests only decode what the library itself wrote.",
["ecc/curve.c","ecc/eta_T_3.c","arith/montfp.c","arith/fasterfp.c","arith/naivefp.c","arith/ternary_extension_field.c","arith/poly.c"],
[("membership check on decode","curve_from_bytes, element_from_bytes_compressed, element_from_bytes_x_only in ecc/curve.c"),("reduction on decode","*_from_bytes in arith/")])
p("C12","Text output and input are inverse and length-exact",
"Printing any element to a stream or buffer gives the same text, returns its exact length, never writes beyond the given buffer size and always terminates it; parsing that text in the same base, where the structure offers reading, restores the element and consumes exactly that text. Malformed text is reported by the return value without corrupting memory.",
["inputs","configurations"],"all elements of all rings and groups (identity, zero, nested extensions, polynomials, lists), all bases the call accepts, all buffer sizes including zero and one, all text with whitespace, prefixes and garbage",
"Truncation arithmetic errs at specific buffer sizes and element shapes.",
["arith/fieldquadratic.c","arith/poly.c","arith/montfp.c","arith/naivefp.c","arith/multiz.c","arith/z.c","arith/field.c","ecc/curve.c","misc/utils.c","misc/extend_printf.c"],
[("printers","*_out_str, *_snprint"),("parsers","*_set_str, pbc_mpz_set_str")])
p("C13","The formatted-output functions honour their format exactly",
"The printf-style functions produce, for every format string mixing element, big-integer and ordinary integer, pointer and string conversions, the same bytes as formatting each piece separately, return the full length, never write outside the buffer for any size, and report by a negative result a stream on which an element cannot be written.",
["inputs"],"all well-formed format strings without star widths, floating point or %n (literal percent signs, width and length modifiers, consecutive, leading and trailing conversions), all argument kinds, all buffer sizes",
"Only a few formats are exercised, always with ample buffers.",
["misc/extend_printf.c"],
[("format scanner","element_vfprintf, element_vsnprintf in misc/extend_printf.c")])
p("C14","Comparison, zero, one and sign tests reflect values only",
"Comparison reports equality exactly when two elements have the same value, zero and one tests answer exactly, and signs of x and -x are opposite for nonzero values that differ from their negative, regardless of how the elements were computed, copied or decoded. Points of a quotient group are compared as cosets.",
["inputs","histories","configurations"],"all pairs of elements of all rings and groups, reached through different computation histories",
"Internal representations carry stale data that only particular histories expose.",
["arith/montfp.c","arith/fasterfp.c","arith/fastfp.c","arith/naivefp.c","arith/fieldquadratic.c","arith/poly.c","arith/ternary_extension_field.c","ecc/curve.c","ecc/pairing.c","ecc/eta_T_3.c","arith/z.c","arith/multiz.c"],
[("predicates","*_cmp, *_is0, *_is1, *_sgn in arith/ and ecc/")])
p("C15","Square detection and square roots are exact",
"The square test answers yes exactly for the squares of the field, and the square root of a square, squared, gives it back, for every element of every field that offers them, with output aliased to input or not.",
["inputs","configurations"],"all elements including zero, one, base-field elements inside extensions and non-residues; all primes (high 2-adic valuation included) and extension degrees",
"Tonelli-Shanks and complex-method corner cases depend on the 2-adic valuation and on subfield membership.",
["arith/field.c","arith/fieldquadratic.c","arith/poly.c","arith/montfp.c","arith/naivefp.c","arith/fasterfp.c","arith/fastfp.c","arith/z.c"],
[("Tonelli-Shanks","element_tonelli in arith/field.c"),("extension roots","fq_sqrt, fi_sqrt in arith/fieldquadratic.c; polymod_sqrt in arith/poly.c")])
p("C16","Hashing to any group is deterministic, full-length and valid",
"In every ring and group that offers hashing, mapping bytes to an element depends on nothing but the group and the bytes: not on what the element held, on memory, on randomness, or on the object or field representation used. The number is the input, repeated with a counter byte to the modulus's byte length, read big-endian and shifted right until below the modulus; points come from the first x on the curve along a fixed chain and lie in the intended subgroup.",
["inputs","histories","configurations"],"all byte strings of all lengths from empty to several times the field size, all groups of all families, repeated on fresh and reused elements",
"Tests hash one fixed string; determinism across histories and boundary lengths is never compared.",
["arith/field.c","ecc/curve.c","arith/fieldquadratic.c","arith/poly.c","ecc/eta_T_3.c","arith/ternary_extension_field.c","misc/utils.c"],
[("byte expansion","pbc_mpz_from_hash in arith/field.c"),("point mapping","curve_from_hash in ecc/curve.c")])
p("C17","Randomness comes only from the chosen source, in range and uniform",
"Every random element is drawn from the configured source alone: a user-supplied function receives the true bound and its output decides the element, the deterministic generator reproduces the same sequence for the same seed, and a file source is consumed as bytes. Results always lie in the group and below the bound, cover it uniformly (whatever the element held before), and random bit strings respect their length.",
["inputs","histories","configurations"],"all groups, bounds and bit lengths, all sources and switches between them, scripted sources returning extreme values",
"Distribution, source independence and replay need many draws from instrumented sources.",
["arith/random.c","arith/init_random.c","ecc/curve.c","arith/ternary_extension_field.c"],
[("sources","pbc_random_set_* and pbc_mpz_random in arith/random.c"),("element samplers","*_random in arith/ and ecc/")])
p("C18","Parameter text parses strictly and round-trips",
"Printing parameters and parsing the text again (as a string, or a buffer of given length) gives identical parameters and an equivalent pairing, independent of key order, whitespace and comments. Text with an unknown or missing type, or a missing or malformed required value, is rejected by the return value, without crash, leak or access beyond the given length.",
["inputs"],"all parameter texts of all types: permuted, re-spaced, commented, truncated at every byte, with keys deleted, duplicated or corrupted; buffers not terminated by a zero byte",
"The text grammar has unbounded malformed variants; tests parse a few good ones.",
["ecc/param.c","ecc/pairing.c","misc/symtab.c","misc/darray.c","ecc/a_param.c","ecc/d_param.c","ecc/e_param.c","ecc/f_param.c","ecc/g_param.c","ecc/eta_T_3.c"],
[("tokenizer and key table","ecc/param.c"),("per-type loaders and writers","*_init, *_out_str in ecc/*_param.c")])
p("C19","Generated parameters always define a valid secure-sized pairing",
"Every parameter generator returns, for every requested size, parameters meeting the family's published equations: primes are prime, sizes are as requested, the group order divides the curve order, curve coefficients give a curve of exactly that order, the embedding degree is right, and redundant fields are consistent. The curve-search routines report only discriminants and orders satisfying the complex-multiplication equations, and report all of them within the stated bounds.",
["inputs","configurations"],"all families, requested bit sizes, group orders, discriminants and random choices",
"Generators are randomized; tests run none or one size with no independent check of the equations.",
["ecc/a_param.c","ecc/d_param.c","ecc/e_param.c","ecc/f_param.c","ecc/g_param.c","ecc/eta_T_3.c","ecc/mnt.c","ecc/hilbert.c","ecc/mpc.c","gen/"],
[("generators","pbc_param_init_*_gen in ecc/"),("Pell-equation search","ecc/mnt.c"),("class polynomials","ecc/hilbert.c, ecc/mpc.c")])
p("C20","Lifecycle histories are memory-safe, leak-free and allocator-consistent",
"Any legal history of creating, using, reusing and releasing fields, elements, parameters, pairings, tables and containers makes no invalid memory access and no undefined operation, and once everything is released no memory obtained from the installed allocator remains, including after rejected input. Every block is obtained from and returned to the allocator the user installed.",
["histories","inputs"],"all legal call histories and release orders over all object kinds, including failing parses",
"Leaks, stale pointers and mismatched allocators appear only over whole lifetimes under instrumentation.",
["misc/memory.c","misc/darray.c","misc/symtab.c","ecc/pairing.c","ecc/param.c","ecc/curve.c","arith/poly.c","arith/multiz.c","include/pbc_memory.h"],
[("allocator indirection","pbc_set_memory_functions in misc/memory.c"),("clear functions","*_clear in arith/ and ecc/")])
p("C21","In the wiping configuration no released block keeps its contents",
"When the library is built with safe cleaning, every block released or moved by reallocation, through the library's or the big-integer allocator, is overwritten before it returns to the system, reallocation preserves contents exactly in both directions, and results are the same as without the option.",
["inputs","histories"],"all allocation, growth, shrink and release histories of the library's default allocator and its big-integer hooks in that build",
"No existing test builds this configuration or looks at released memory.",
["misc/memory.c","include/pbc_memory.h"],
[("wiping allocator","PBC_SAFE_CLEAN blocks in misc/memory.c")])
p("C22","The integer ring and nested integer lists are exact",
"The integer ring computes exactly with signed integers of any size, and nested lists of integers act exactly as the polynomials in several variables they denote: sums pad with zero, products convolve, a plain integer z acts as the list [z], and comparison goes by the highest differing coefficient. Copying, text output and conversion into field, polynomial and curve elements preserve values, as do the byte forms of integers.",
["inputs","histories"],"all integers of any sign and size, all nested list shapes and mixed operands, operation sequences with aliasing",
"Shapes and signs combine in ways tests do not enumerate.",
["arith/z.c","arith/multiz.c"],
[("integers","arith/z.c"),("lists","arith/multiz.c")])
p("C23","The calculator evaluates every program as its language defines",
"For every input program the command-line calculator prints exactly the values its documented syntax and built-in functions denote (precedence, associativity, assignment, definitions, ternary and comparison operators, lists, built-in rings and pairings), reports errors for undefined names and misuse, and carries on with the next statement without crashing.",
["programs","inputs"],"all programs of the calculator language, well-formed or not",
"A language has unboundedly many programs; tests run three fixed scripts.",
["pbc/pbc.c","pbc/parser.y","pbc/parser.lex","pbc/pbc_getline.c"],
[("evaluator","pbc/pbc.c"),("grammar and lexer","pbc/parser.y, pbc/parser.lex")])
p("C24","The C++ wrapper has value semantics and matches the C library",
"Every operation of the C++ classes gives the same value as the corresponding C calls, copies are independent of their originals, and any sequence of constructions, copies, assignments, self-assignments and destructions releases everything exactly once.",
["programs","histories"],"all expression and object-lifetime sequences over the wrapper's classes",
"Lifetime and aliasing faults of temporaries appear only under instrumented random programs.",
["include/pbcxx.h"],
[("wrapper classes","include/pbcxx.h")])
p("C25","Discrete logarithms, factoring callbacks and containers are correct",
"The discrete-logarithm solvers return the exponent for every pair that has one, the trial-division helper reports the exact prime-power factorization within its limit and stops when told, and the library's dynamic arrays and symbol tables behave as sequences and maps under any operation history.",
["inputs","histories"],"all small groups, bases and targets; all integers and limits; all operation histories of the containers",
"Collision and boundary cases of randomized search need many runs.",
["arith/dlog.c","arith/field.c","misc/darray.c","misc/symtab.c"],
[("brute force and Pollard rho","arith/dlog.c"),("trial division","pbc_trial_divide in arith/field.c"),("containers","misc/darray.c, misc/symtab.c")])
p("C26","The checking configuration stops misuse and changes nothing else",
"With PBC_DEBUG defined, the library and programs using it build, and every element or pairing call whose arguments come from different structures ends the process with a message before anything is computed, whichever argument is the odd one. Legal calls, in every history, return what they return without PBC_DEBUG and print nothing about misuse. The message functions print their text, pbc_die ends with status 128, and the message switch silences all of them.",
["inputs","configurations","histories"],"all calls that combine elements, every argument position and pair of structures; all legal histories of the other properties",
"Each check is one macro among dozens of calls; a missing or wrong one only shows in a build the test suite never makes, with a call no correct program makes.",
["include/pbc_utils.h","misc/utils.c","include/pbc_field.h","include/pbc_pairing.h"],
[("the assertion macros","include/pbc_utils.h, misc/utils.c"),("the checked calls","PBC_ASSERT* in include/pbc_field.h and include/pbc_pairing.h"),("message functions","misc/utils.c")])
p("C27","Threads with their own objects, or sharing what they only read, do not interfere",
"Threads that each create, use and release fields, pairings, parameters, elements and tables of their own, or that share a pairing, its tables and operands which they only read, never race, and every thread gets exactly the results it gets running alone. This covers arithmetic in every structure, pairings by every method, encodings, hashing, parsing, printing and parameter generation, with a random source that is a file or a function safe to call from threads. Settings of the whole process (allocator, random source, messages), the deterministic generator, Hilbert polynomials the first search for a nonresidue of a shared field, and taking items of a shared nested integer list are outside.",
["schedules","histories","configurations"],"all interleavings of threads running any such histories, over every family and field representation",
"A static buffer or a value changed and restored is invisible to any single-threaded test and shows only under some interleavings, or to a race detector.",
["arith/fasterfp.c","arith/montfp.c","arith/field.c","arith/poly.c","arith/ternary_extension_field.c","arith/random.c","ecc/curve.c","ecc/a_param.c","ecc/d_param.c","ecc/e_param.c","ecc/f_param.c","ecc/g_param.c","ecc/param.c","misc/extend_printf.c"],
[("promise of reentrancy","doc/basics.txt"),("arithmetic without static temporaries","arith/, ecc/curve.c"),("pairings and their options","ecc/*_param.c"),("random sources","arith/random.c")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
