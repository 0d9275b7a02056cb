#!/usr/bin/env python3
"""Writes checks.json (what each check runs, its rule and its assurance)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing"
ALL = ["", "bignum_hbls", "bignum_hol256", "bignum_pure"]
CURVE = ["", "bignum_hbls"]
def runs(g, tags, **k):
    return [dict(group=g, tag=t, **k) for t in tags]
groups = {
 "bls": {"pkg": "internal/vfbls"},
 "pc": {"pkg": "internal/vfpc"},
 "pcin": {"pkg": "internal/polycommit", "optional": True},
 "real": {"pkg": "internal/vfbls", "real": True},
}
P = {}
P["C17"] = dict(runs=runs("bls", ALL), shards=2,
  technique=PBT + ": differential against big-integer arithmetic on all four backends, stateful register programs, encoding round-trips",
  rule="Operands are drawn from edge classes (0, 1, small, order minus small, around every power of two, 64-bit, uniform) and combined: single operations with every aliasing of result and operands, programs over registers compared after every step with integers modulo the group order, 32-byte strings on both sides of the order, decimal texts, and vectors. A case is non-trivial when an operand is neither 0 nor 1 (for programs: when at least one multiplication or inversion acts on such values).",
  level_note="Generated search with an exact oracle (math/big). Trusts math/big; explores samples, not all operands.")
P["C18"] = dict(runs=runs("bls", CURVE) + [dict(group="real", shards=1)], shards=4,
  technique=PBT + ": exponent-homomorphism oracle, differential between the two curve libraries, mutated encodings against a membership oracle",
  rule="Points are made from drawn exponents (edge classes as for scalars), so each group operation, linear combination and pairing check has a known answer in exponents; operands are aliased and reordered, the point at infinity occurs often. Encodings are made from points and mutated (flag bits, coordinates on and off the curve, wrong subgroup, lengths, x at or above the modulus), and the other curve library decides membership. The open known findings are run again on the pinned curve library. A case is non-trivial when an exponent is neither 0 nor 1, or the encoding is a mutated one.",
  level_note="Generated search; each backend is judged by exponents and by the raw library of the other backend. Trusts that kilic/bls12-381 and herumi/mcl are not wrong in the same way.")
P["C15"] = dict(runs=runs("pc", ALL) + runs("pcin", ALL, shards=1), shards=4,
  technique=PBT + ": differential against direct polynomial evaluation and schoolbook division, round-trips, metamorphic coset relations",
  rule="Vectors of drawn length (all powers of two up to the settings' size, and other lengths for the padding and refusal rules) and drawn or edge-valued entries, settings both as large as and larger than the vector; transforms are compared with evaluation by Horner's rule, group transforms (with points at infinity, both directions, refusals) with the exponents, the extension with interpolation, shifts with scaled coefficients, bit reversal with its definition, long division (of dividends and divisors with zeros anywhere) with schoolbook multiplication. Shared tables and constants are re-checked. Non-trivial: length at least 4 and not all entries equal.",
  level_note="Generated search with an exact big-integer oracle on every backend that has the routine.")
P["C16"] = dict(runs=runs("pc", ALL), shards=4,
  technique=PBT + ": encode/erase/recover round-trip with structured erasure patterns",
  rule="A polynomial of at most half the samples' number of coefficients is evaluated, and a drawn number (0 to half, edge-biased) of samples is erased in a drawn pattern (random, even or odd first, prefix, suffix, blocks, every fourth); both algorithms must return all evaluations. In spoiled cases a returned result must agree with every sample given and be of fewer coefficients than samples given. The vanishing polynomial is evaluated everywhere. Non-trivial: at least one sample missing and a polynomial that is not constant.",
  level_note="Generated search with an exact big-integer oracle; sizes up to 256 samples (2048 in the thorough tier).")
P["C13"] = dict(runs=runs("pc", CURVE) + [dict(group="real", shards=1)], shards=4,
  technique=PBT + ": exponent oracle with a known setup secret for commitments, proofs and the acceptance of forged combinations",
  rule="Setups with seven known secrets (the deployed one, 0, 1, order-1, others) or drawn ones; polynomials of 1 to 33 coefficients with zero top coefficients; points from edge classes and the secret itself. Commitment and proof must be the generator to the exponent known from the secret; the check must accept exactly when (c-y) = proof*(secret-x) in exponents, over twelve kinds of alteration, among them ones that remain valid. The open known findings are run again on the pinned curve library. Non-trivial: degree at least 2 (proofs: at least 1) and a secret other than 0 and 1.",
  level_note="Generated search; the oracle is exact because the harness knows the setup secret. Does not claim computational binding, which is an assumption of the scheme.")
P["C14"] = dict(runs=runs("pc", CURVE), shards=4,
  technique=PBT + ": exponent oracle for coset proofs, differential between fast and direct proof algorithms",
  rule="Cosets of every power-of-two size up to the settings' width at offsets of every bit length from 1 to 64 and of full size, polynomials longer and shorter than the coset; proofs must be the generator to the known exponent, the check must accept exactly when the pairing equation holds in exponents over eleven kinds of alteration; every proof of the six fast algorithms is compared with the exponent of the directly defined one, for all sizes up to 16 coefficients (32 thorough), all chunk lengths, settings of exact and double width. Non-trivial: the quotient is not constant and the secret is neither 0 nor 1.",
  level_note="Generated search with an exact oracle from the known setup secret.")
exec(open(os.path.join(H, "tools", "set_checks_more.py")).read()) if os.path.exists(os.path.join(H, "tools", "set_checks_more.py")) else None
json.dump(dict(assumptions=["The Go toolchain, math/big, rapid and the harness itself are trusted.", "Generated cases are a sample: a check that is quiet has not shown the absence of violations."], groups=groups, properties=P), open(os.path.join(H, "checks.json"), "w"), indent=1)
