#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": hook}})

PF="src/primefield/mod.rs"; QF="src/quadraticfield/mod.rs"
W="src/weierstrass/"; M="src/montgomery/"; E="src/edwards/"; I="src/instances/"
NOTEST="The repository's tests only encode and decode the generators of seven named curves and compare a version string; "

prop("C01","Prime-field addition, subtraction, negation and product are exact mod p",
 "For every odd prime modulus p and all elements a, b of the prime field, a+b, a-b, -a, a*b and the square of a are exactly the integer results reduced modulo p. Every result is the canonical representative in [0,p): it compares equal to, prints the same as and encodes to the same bytes as that integer lifted into the field directly.",
 ["inputs"],"all odd primes p (from 3 to multi-limb sizes) and all pairs of elements, including 0, 1, p-1, values at machine-word boundaries and results of earlier operations",
 NOTEST+"no test evaluates a field sum or product against an independent value.",
 [PF],[("red: mod_floor after each operation",PF),("impl_op_ex operator definitions",PF)],
 ["result elements via Eq, Display, to_bytes_be"])
prop("C02","Prime-field inverse, division and powers follow the multiplicative group",
 "For every odd prime p and every nonzero x, 1/x times x is one, a/x equals a times 1/x, and raising x to any integer exponent (zero, positive, negative or larger than p) equals repeated multiplication, respectively division. The inverse of zero is zero, zero to a nonzero exponent is zero, anything to the exponent zero is one, and signed and unsigned exponent types agree.",
 ["inputs"],"all odd primes p, all elements, all integer exponents including 0, multiples of p-1, negative and multi-limb ones",
 NOTEST+"no test inverts or exponentiates a field element.",
 [PF],[("inv_mod = x^(p-2)",PF),("BitXor<&BigInt> reduces the exponent modulo p-1",PF)],["result elements"])
prop("C03","Prime-field square test and square root are correct and total",
 "In every prime field with p = 3 mod 4 or p = 5 mod 8, the square test answers true exactly for zero and for elements that have a square root, and for each of those the square-root function returns an element whose square is the input. Both always return, for every element, no matter which other elements or fields were queried before.",
 ["inputs","histories"],"all primes p = 3 mod 4 or 5 mod 8, all elements (squares, non-squares, 0), any order of queries on one field handle and its clones",
 NOTEST+"square roots are only exercised for the y-coordinate of generator points in compressed form.",
 [PF],[("is_square: Euler criterion",PF),("sqrt with lazily cached per-field constants",PF)],["root squared vs input"],
 [{"name":"sqrt_precmp","meaning":"lazily filled per-field cache of square-root constants","where":PF}])
prop("C04","Field elements convert exactly from and to integers, text and bytes",
 "Lifting any integer, or any well-formed optionally negative decimal, 0x, 0o or 0b numeral, into a field yields the element congruent to it modulo p. Every element encodes to exactly the field's byte length in big- and in little-endian order (mutual reversals per coordinate), decoding the encoding restores the element, decoding any byte string into a prime field gives its integer value mod p, and decoding a wrong-length string into the quadratic extension is an error; the printed decimal form of a prime-field element parses back to the same element, and two comma-separated numerals denote an extension element.",
 ["inputs"],"all integers of any sign and size, all machine integer types, all numerals in four radices, all byte strings of any length, both field kinds, all odd primes",
 NOTEST+"they never decode field bytes, and never parse numerals beyond the curve constants.",
 [PF,QF,"src/field.rs","src/ops.rs"],[("FromFactory impls",PF),("Serialize/Deserialize zero padding",PF),("coordinate-wise coding",QF)],["element Eq/Display/bytes"])
prop("C05","Quadratic-extension arithmetic is that of GF(p)[i] with i*i = -1",
 "For every prime p = 3 mod 4 and all elements u, v of the quadratic extension, u+v, u-v, -u, u*v and the square of u equal the polynomial results modulo i^2+1 and p. Every nonzero u times its inverse 1/u is one, u/v equals u times 1/v, the inverse of zero is zero, and raising u to any integer exponent equals repeated multiplication (division for negative exponents).",
 ["inputs"],"all primes p = 3 mod 4, all pairs of elements including purely real, purely imaginary and zero ones, all integer exponents",
 NOTEST+"the quadratic extension has no test at all besides constructing a field in a doc example.",
 [QF],[("operators on coordinate pairs",QF),("inv_mod through the norm",QF),("square-and-multiply exponentiation",QF)],["result elements"])
prop("C06","Quadratic-extension square test and square root are correct and total",
 "In every quadratic extension with p = 3 mod 4 the square test answers true exactly for the elements that are the square of some element (zero included). For each of those the square-root function returns an element whose square is the input, and it returns without failing for every element.",
 ["inputs","histories"],"all primes p = 3 mod 4, all elements including 0, real squares, real non-squares and purely imaginary elements, any order of queries",
 NOTEST+"no test calls the extension-field square root.",
 [QF],[("is_square: Euler criterion on the norm",QF),("sqrt: Adj and Rodriguez-Henriquez algorithm",QF)],["root squared vs input"])
prop("C07","The field sign splits every pair {x,-x} and is fixed by canonical parity",
 "In a prime field of odd characteristic the sign of an element is +1 when its canonical representative is even and -1 when it is odd; in the quadratic extension it is the sign of the constant coordinate, or of the i-coordinate when the constant one is zero. Hence zero has sign +1 and for every nonzero x exactly one of x and -x has sign -1.",
 ["inputs"],"all odd primes, all elements of the prime field and of the quadratic extension (p = 3 mod 4)",
 NOTEST+"the sign is only used implicitly for generator points.",
 [PF,QF],[("Sgn0 for FpElt",PF),("Sgn0 for Fp2Elt",QF)],["sgn0 of x and -x"])
prop("C08","Scalars are exact integers modulo the group order",
 "For every curve, scalars behave as the integers modulo the order r: any integer reduces to its canonical residue, +, -, negation and * are exact, and division by (or inversion of) a nonzero scalar is exact. The bit iterators yield exactly the binary digits of the residue, most significant first and least significant first respectively (none for zero), the byte encodings are the fixed-length big- and little-endian forms, and the printed form is the decimal residue.",
 ["inputs"],"all integers of any sign and size lifted into the scalar types of the three curve models, all prime orders r including tiny ones, the zero scalar included",
 NOTEST+"no test creates a scalar.",
 [W+"scalar.rs",M+"scalar.rs",E+"scalar.rs"],[("red / mod_floor",W+"scalar.rs"),("Iterino bit iterator",W+"scalar.rs")],["Eq, Display, to_bytes, iter_lr, iter_rl"])
prop("C09","Weierstrass addition is the chord-and-tangent group law",
 "On every short Weierstrass curve of odd group order, sum, difference, negation and doubling of any points, however those points were previously computed, equal the chord-and-tangent results, with the identity as neutral element. In particular P+P, P+(-P), P+O and sums of points reached along different paths are all exact.",
 ["inputs","histories"],"all odd-order Weierstrass curves (named and user-supplied parameters, including a=0 and a=-3), all pairs of points, all chains of operations producing the operands",
 NOTEST+"points are only added in a doc example whose output nobody checks.",
 [W+"point.rs",W+"curve.rs"],[("core_add, core_doubling complete formulas",W+"point.rs")],["affine coordinates via uncompressed encoding, Eq"])
prop("C10","Montgomery addition is the group law, torsion and B other than 1 included",
 "On every Montgomery curve By^2=x^3+Ax^2+x whose addition parameter s is not the y-coordinate of a point, sum, difference, negation and doubling of any points of the full group, however previously computed, equal the chord-and-tangent results with the identity as neutral element. This covers low-order points, P+(-P), P+O and every nonzero B.",
 ["inputs","histories"],"all Montgomery curves with a complete addition parameter (named and user-supplied, any B), all pairs of points including points of order 2, 4 and 8, all operation chains",
 NOTEST+"Montgomery points are never added by a checked test.",
 [M+"point.rs",M+"curve.rs"],[("core_add complete formulas with parameter s",M+"point.rs")],["affine coordinates via uncompressed encoding, Eq"])
prop("C11","Edwards addition is the twisted Edwards group law on the full group",
 "On every complete twisted Edwards curve (a square, d non-square) sum, difference, negation and doubling of any points, however previously computed, equal the affine Edwards addition law with (0,1) as neutral element. This covers points of order 2, 4 and 8.",
 ["inputs","histories"],"all complete twisted Edwards curves (named and user-supplied), all pairs of points, all operation chains",
 NOTEST+"Edwards points are never added by a test.",
 [E+"point.rs",E+"curve.rs"],[("core_add extended coordinates",E+"point.rs")],["affine coordinates, Eq"])
prop("C12","Scalar multiplication equals repeated addition for every scalar",
 "On all three curve models and for every point P and integer k, k*P equals P added to itself (k mod r) times; zero gives the identity, a multiple of the identity is the identity, and negative k or k beyond the order r are reduced first. Scalar-times-point and point-times-scalar agree, and (j+k)*P = j*P+k*P and j*(k*P)=(jk)*P hold for points of order r.",
 ["inputs","histories"],"all scalars including 0, 1, r-1, r, negative, sparse/dense and word-boundary bit patterns; all points including the identity, torsion points and points outside the prime-order subgroup",
 NOTEST+"no test multiplies a point by a scalar.",
 [W+"point.rs",M+"point.rs",E+"point.rs",W+"scalar.rs"],[("core_mul double-and-add over iter_lr",W+"point.rs")],["k*P vs reference"])
prop("C13","Only points satisfying the curve equation can exist",
 "Constructing a point from affine coordinates succeeds exactly when the coordinates satisfy the curve's equation, and otherwise it is refused. Every point any operation returns (constructors, arithmetic, multiplication, normalisation, decoding, maps) is a proper point of its curve, and the membership query is true for it and false for a same-field point of another curve whose coordinates do not satisfy the equation.",
 ["inputs","histories"],"all coordinate pairs on all three curve models, all operation chains",
 NOTEST+"they only ask membership of decoded generators and never offer an invalid point.",
 [W+"curve.rs",M+"curve.rs",E+"curve.rs"],[("is_on_curve and do_if_eq! guard in constructors",W+"curve.rs"),("new_proy_point guard",M+"curve.rs")],["accept/refuse of new_point; is_on_curve verdict; encoding of results"])
prop("C14","Point equality and identity tests depend only on the abstract point",
 "Two points of a curve compare equal exactly when they are the same group element, no matter by which computations (and hence internal scaling) they were obtained, and equality is an equivalence relation. The identity test is true exactly for the neutral element, the two-torsion test of Montgomery points exactly for elements of order two, and normalising a point in place never changes which element it is.",
 ["inputs","histories"],"all points of all three curve models including the identity and order-2, 4, 8 points, each reached by different chains of additions, subtractions, doublings, multiplications and normalisations",
 NOTEST+"they compare one generator with its decoded copy, both with z=1.",
 [W+"point.rs",M+"point.rs",E+"point.rs"],[("PartialEq by cross-multiplication",W+"point.rs"),("is_zero, is_two_torsion, normalize",M+"point.rs")],["==, is_zero, is_two_torsion verdicts vs reference"])
prop("C15","Point encoding is canonical and decoding inverts it",
 "The encoding of a point depends only on the group element: SEC1 form for Weierstrass and Montgomery points (one zero byte for the identity; 04||X||Y uncompressed; 02 or 03 for even or odd y followed by X compressed), RFC 8032 form for Edwards points (little-endian y with the parity of x in the top bit). Decoding the encoding of any point, the identity and low-order points included, yields that point.",
 ["inputs","histories"],"all points of all curves in every internal representation, both compression modes, coordinates with leading zero bytes included",
 NOTEST+"they round-trip only the generator of each curve; the identity, computed points and low-order points are never encoded.",
 [W+"point.rs",W+"curve.rs",M+"point.rs",M+"curve.rs",E+"point.rs",E+"curve.rs"],[("Encode::encode",W+"point.rs"),("Decode::decode",W+"curve.rs")],["bytes from encode vs specification; decode(encode(P)) == P"])
prop("C16","Decoding arbitrary bytes is total and accepts only canonical valid points",
 "For every byte string and every curve, decoding returns either a point or an error and never panics. It returns a point exactly when the string is the canonical encoding of a point of that curve, so that re-encoding in the same form gives back the identical bytes; wrong lengths, unknown tags, coordinates not below p, and coordinates that are not on the curve are errors.",
 ["inputs"],"all byte strings of every length (0, 1, truncated, extended, bit-flipped encodings, coordinates >= p, non-residues) on all named and user-supplied curves",
 NOTEST+"decode is only ever given the valid encoding of a generator.",
 [W+"curve.rs",M+"curve.rs",E+"curve.rs"],[("length/tag/range checks in decode",W+"curve.rs"),("square-root recovery",E+"curve.rs")],["Ok/Err/panic of decode; re-encoding"])
prop("C17","The SSWU maps are total, deterministic and equal to their specification",
 "For every field element u, including 0 and the exceptional inputs, the simplified SWU map returns a point of its curve whose coordinates are those given by the RFC 9380 definition, with the sign of y equal to the sign of u. The variant for curves with A=0 or B=0 returns exactly the isogeny image of that point.",
 ["inputs"],"all field elements u (0, exceptional u with Z^2u^4+Zu^2=0, boundary values, both signs), all admissible Z and curves, the secp256k1 and BLS12-381 isogeny variants",
 NOTEST+"no test invokes a map to a curve.",
 [W+"sswu.rs",W+"sswuab0.rs"],[("SSWU straight-line program",W+"sswu.rs"),("SSWUAB0 composition",W+"sswuab0.rs")],["map(u) coordinates vs reference"])
prop("C18","The Shallue-van de Woestijne map is total and equal to its specification",
 "For every field element u, including the exceptional inputs where an intermediate denominator vanishes, the SvdW map returns a point of its curve whose coordinates are those given by the RFC 9380 definition, with the sign of y equal to the sign of u. The result depends only on the curve, Z and u.",
 ["inputs"],"all field elements u including exceptional ones, all admissible Z, all Weierstrass curves including A=0",
 NOTEST+"no test invokes a map to a curve.",
 [W+"svdw.rs"],[("SVDW straight-line program and precomputed constants",W+"svdw.rs")],["map(u) coordinates vs reference"])
prop("C19","The Elligator 2 maps are total and equal to their specification",
 "For every field element u, including 0 and the exceptional input Z*u^2=-1, Elligator 2 returns a point of its Montgomery curve (any nonzero A and B) with the coordinates and y-sign of the RFC 9380 definition. The Edwards variant returns exactly the image of that point under the curve's rational map, a valid point for every u.",
 ["inputs"],"all u including exceptional ones and those whose image is a low-order point, all non-square Z, named and user-supplied Montgomery curves, both Edwards instances",
 NOTEST+"no test invokes a map to a curve.",
 [M+"elligator2.rs",E+"elligator2.rs"],[("Ell2 straight-line program",M+"elligator2.rs"),("composition with RationalMap::pull",E+"elligator2.rs")],["map(u) coordinates vs reference"])
prop("C20","The Edwards-Montgomery rational maps are group homomorphisms",
 "Both directions of the edwards25519-curve25519 and edwards448-curve448 maps send every point of their source curve, the identity and low-order points included and in any internal representation, to a valid point of the target, preserving sums and the identity. For 25519 the two directions are mutually inverse; for 448 going back and forth is multiplication by four; and each map follows its published coordinate formulas.",
 ["inputs","histories"],"all points of the four curves (identity, order-2/4/8 points, points outside the prime subgroup, results of computations)",
 NOTEST+"no test uses a rational map.",
 [I+"rational_maps.rs"],[("push/pull formulas and exceptional cases",I+"rational_maps.rs")],["images via encoding and Eq"])
prop("C21","The Weierstrass isogenies are group homomorphisms on every point",
 "The secp256k1 and BLS12-381 G1 isogenies send every point of their domain, the identity, kernel points and results of computations included, to a valid point of the codomain, preserving sums, negation and the identity. The image depends only on the abstract point and is given by the published rational functions.",
 ["inputs","histories"],"all domain points in every internal representation, the identity, points of order 11 on the BLS12-381 isogenous curve",
 NOTEST+"no test uses an isogeny.",
 [I+"rational_maps.rs"],[("Horner evaluation of isogeny polynomials",I+"rational_maps.rs")],["images via encoding and Eq"])
prop("C22","Named curves are the standard curves with a prime-order base point",
 "Every named curve has the published field prime, coefficients, base point and prime order; its base point lies on it and has exactly that order, and multiplying any curve point by the cofactor gives a point of the prime-order subgroup. Each request for a named curve yields an equal, independent instance, the isogenous and Edwards/Montgomery companions share field and order, and identifiers print their own names.",
 ["configurations","inputs"],"all eleven named curves, any point of each curve for the cofactor claim, repeated and interleaved instantiation",
 NOTEST+"they check that each generator lies on its curve, not the order, cofactor, coefficients or names, and skip secp256k1, BLS12-381 and the isogenous curves.",
 [I+"weier.rs",I+"mont.rs",I+"edw.rs",I+"mod.rs"],[("static Params tables",I+"weier.rs")],["get_order, get_cofactor, get_generator, get_field, Display"])
prop("C23","Values of different fields, curves or groups are never silently combined",
 "Any binary operation on elements of different fields, scalars of different orders, or points of different curves, a scalar times a point of another order, and any unsupported numerator or operator exponent (other than 1/x, ^2, ^-1) is refused with a panic and never returns a value. Curves are the same exactly when field, coefficients, order, cofactor and base point agree. Comparing values of different ones for equality returns false without failing, while independently created instances with equal parameters are fully interoperable.",
 ["inputs","configurations"],"all pairs of distinct fields, curves and orders, including ones that differ in a single parameter, for every operator and operand form",
 NOTEST+"no test mixes instances.",
 ["src/macros/mod.rs",PF,QF,W+"point.rs",M+"point.rs",E+"point.rs",W+"scalar.rs"],[("do_if_eq! guard",  "src/macros/mod.rs")],["panic vs value; == verdict"])
prop("C24","Shared fields, curves and points are safe to use from many threads",
 "Fields, elements, scalars, points and curves can be sent to and shared by threads, and under every interleaving each operation returns what it returns when run alone. No interleaving causes a panic, a deadlock, a data race or a wrong value, including when several threads take the first square root in a shared field at the same time.",
 ["schedules"],"all interleavings of any number of threads using one shared field/curve instance and its clones, first use included, and dropping clones while others compute",
 NOTEST+"every test creates its own field instance and uses it from one thread.",
 [PF,QF],[("Arc<Params> with lazily filled AtomicRefCell cache",PF),("the same cache for the extension field",QF)],["per-thread results vs sequential run; panics; race detector reports"],
 [{"name":"sqrt_precmp","meaning":"cache shared by all clones of a field handle","where":PF}])
prop("C25","Dropping all values releases all memory",
 "After every field, element, scalar, point, curve and map handle derived from an instance has been dropped, the memory they used is released, whatever operations were performed. Repeatedly creating an instance, using it and dropping it does not make memory use grow.",
 ["histories"],"all histories of creating, cloning, using (square roots, decoding, maps, multiplication) and dropping instances, over all field kinds and curves",
 NOTEST+"no test observes memory, and a leak does not make any assertion fail.",
 [PF,QF],[("Arc reference counting; cache must not own a handle to its own field",PF)],["allocator live-byte count at quiescent points; Miri leak report"])
prop("C26","Map constructors accept exactly the parameters for which the map is defined",
 "Creating an SSWU, SvdW, A*B=0 or Elligator 2 map succeeds for parameters meeting its documented preconditions (Z non-square where required, nonzero A and B, non-degenerate constants, matching isogeny codomain or rational-map domain) and is refused otherwise. A map that was successfully created maps every field element to a valid point.",
 ["inputs","configurations"],"all candidate Z of small fields and boundary/random Z of named curves, curves with A=0 or B=0, mismatching isogenies and rational maps",
 NOTEST+"no test constructs a map.",
 [W+"sswu.rs",W+"sswuab0.rs",W+"svdw.rs",M+"elligator2.rs",E+"elligator2.rs"],[("verify functions in the constructors",W+"sswu.rs")],["constructed/refused vs precondition; totality of accepted maps"])
prop("C27","Operations are pure and all operand forms agree",
 "Every operator gives the same value whether its operands are passed by value or by reference, and whichever of the operands are the same object or clones. Operands are left unchanged by every operation except in-place normalisation and set-to-zero/one, and repeating an operation later, after any other use of the same field or curve, gives the same result.",
 ["inputs","histories"],"all operators of fields, extension, scalars and points in all four operand forms, aliased operands, repeated at different points of long operation histories",
 NOTEST+"no operator form is tested.",
 [PF,QF,W+"point.rs",W+"scalar.rs",M+"point.rs",E+"point.rs"],[("impl_op_ex macros and hand-written operator impls",PF),("sqrt cache shared between calls",PF)],["results of the forms; operands before/after"])
prop("C28","Results do not depend on build profile and involve no undefined behaviour",
 "A program using the library observes the same values, errors and refusals whether it is built with or without optimisation, overflow checks and debug assertions. No supported operation overflows, indexes out of range or executes undefined behaviour.",
 ["configurations","inputs"],"debug, optimised-with-checks and release builds over the same recorded workload of all public operations, and an undefined-behaviour interpreter and address sanitizer over a scaled-down one",
 NOTEST+"they run in one profile only, so an arithmetic overflow that wraps in release builds and panics in debug ones goes unnoticed.",
 ["src/",W+"scalar.rs",M+"scalar.rs",E+"scalar.rs"],[("index arithmetic in bit iterators and byte padding",W+"scalar.rs")],["digest of the event transcript per build; Miri/ASan reports"])

prop("C29","Fields describe themselves truthfully and selection picks the named operand",
 "A field, any of its clones and any other instance with the same modulus report that modulus, the byte length of its elements and neutral elements zero and one, before and after any use. The zero and one tests recognise exactly these values however they were computed, setting a value to zero or one changes that value alone, and conditional selection returns its first operand when the condition is false and its second when true, for every pair of operands.",
 ["inputs","histories"],"all primes (prime fields) and primes p = 3 mod 4 (extension), all elements, whether lifted, decoded or results of cancelling operations, before and after square roots and drops of other handles",
 NOTEST+"no test asks a field for its modulus, size, zero or one, and none selects.",
 ["src/field.rs",PF,QF],[("CMov::cmov default method","src/field.rs"),("Field: zero, one, get_modulus, size_bytes",PF),("the same for the extension",QF),("is_zero/is_one/set_zero/set_one",QF)],["get_modulus, size_bytes, Display, Eq, is_zero, is_one, bytes of the selected value"])
prop("C30","A curve built from user-supplied parameters is exactly that curve",
 "A curve created from any parameter block behaves as the curve those numerals denote, in whichever radix, sign or unreduced form the coefficients and coordinates are written: order, cofactor, field, base point, membership, arithmetic and encodings are those of the denoted curve. Blocks with the same meaning give equal, interoperable curves, the block's name plays no part, and a base point that is not on the curve is refused when asked for.",
 ["inputs","configurations"],"all three curve models, all numeral spellings of all parameters over tiny, random and standard-size primes, base points on and off the curve",
 NOTEST+"every test uses one of the built-in parameter blocks, written as plain hexadecimal or decimal numerals.",
 [W+"curve.rs",M+"curve.rs",E+"curve.rs",PF],[("From<&Params> for Curve",W+"curve.rs"),("From<&Params> for Curve",M+"curve.rs"),("From<&Params> for Curve",E+"curve.rs"),("FromFactory<&str>",PF)],["getters, Eq, Display, encodings and arithmetic of the curve"])
prop("C31","Protocols and pipelines composed from the library reach the right result",
 "Key agreement, Schnorr signatures, secret sharing, blinding and unblinding, and hash-to-curve pipelines (map, add, clear the cofactor, encode, decode) composed from the public operations end in the mathematically determined result for all keys, nonces and inputs: both parties agree, valid signatures verify and altered ones do not, shares recombine. Point maps commute with scalar multiplication, and on published test vectors the outputs are the published bytes.",
 ["inputs","histories"],"all keys, nonces, messages, share sets and field elements over tiny groups (exhaustively), random and all named curves; points passed on in compressed and uncompressed form; published RFC 7748, 8032, 9380 and SEC/FIPS vectors",
 NOTEST+"no test composes two operations.",
 [W,M,E,I+"rational_maps.rs","src/ellipticcurve.rs"],[("scalar multiplication and addition feeding one another",W+"point.rs"),("maps feeding isogenies and rational maps",W+"sswuab0.rs"),("encodings passed between parties",E+"curve.rs")],["final protocol values, verification verdicts, published bytes"])
prop("C32","A refused or failed operation leaves no lasting effect",
 "After any attempt that is refused or fails - foreign operands, unsupported exponents or roots, malformed text or octets, points off the curve, unsuitable parameters, or a user-supplied map whose callback panics - every operand, field, curve, scalar, point and map handle involved still answers exactly as if the attempt had never been made, however often and in whatever order attempts and supported operations alternate.",
 ["histories","inputs"],"all histories alternating caught refusals with supported operations on the same handles, operands and maps, for both field kinds, scalars, the three curve models and all maps",
 NOTEST+"no test continues after a refusal.",
 [PF,QF,W+"sswuab0.rs",E+"elligator2.rs",W+"curve.rs",M+"curve.rs",E+"curve.rs"],[("lazily filled cache behind every field handle",PF),("callbacks of boxed isogenies and rational maps",W+"sswuab0.rs"),("fallible decoding",W+"curve.rs")],["results of supported operations after caught panics and errors"],
 [{"name":"sqrt_precmp","meaning":"lazily filled per-field cache, shared by everything over that field","where":PF}])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
