#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
# how each property is decided: method; oracle
T = {
 "C01": ("random operation histories", "exact i128 rationals and a normal-form invariant on every result"),
 "C02": ("random operands and folds", "exact i128 rationals; panics required for zero divisors"),
 "C03": ("random pairs, triples and lists", "exact i128 comparison, order laws"),
 "C04": ("random integer pairs", "i128 arithmetic, independent gcd, definition by search for small values"),
 "C05": ("random values and matrices", "documented ranking, maximality and zero invariants of the pivot"),
 "C06": ("random operation histories (stateful, model-based)", "exponent-to-coefficient maps, ring laws"),
 "C07": ("random operation histories", "cleanliness invariant on every result"),
 "C08": ("random polynomials and points", "evaluation of the model, homomorphism relations"),
 "C09": ("random vectors and mutation histories", "zero-padded exponent vectors"),
 "C10": ("random related triples", "the definitions of the orders, order and monoid laws"),
 "C11": ("random polynomials", "maximum by the definition of the order, multiplicativity"),
 "C12": ("random dividends and divisor lists", "division certificate checked in the model"),
 "C13": ("random pairs", "definition computed in the model, antisymmetry"),
 "C14": ("random ideals", "independent Buchberger implementation: reduced bases and ideal membership"),
 "C15": ("random ideals and presentations (metamorphic)", "independent reduced basis, equality across presentations"),
 "C16": ("random lists, bases and broken bases", "truth from an independent basis, invariance under permutation and scaling"),
 "C17": ("random ideals, members and non-members", "independent normal forms, congruence and additivity relations"),
 "C18": ("random matrices", "schoolbook matrix model; panics required on shape mismatch"),
 "C19": ("random mutation histories (stateful, model-based)", "two-dimensional array"),
 "C20": ("random matrices and operation sequences", "differential: elementary matrix, in-place operation, definition"),
 "C21": ("random structured matrices", "factor shapes and exact product; backward error bound for floats"),
 "C22": ("random structured matrices", "independent reduced row echelon form, exact transformation identity"),
 "C23": ("random structured matrices (metamorphic)", "independent rank, invariance relations"),
 "C24": ("random structured matrices", "independent rank, exact products, independence"),
 "C25": ("random structured matrices", "independent rank, membership among the columns, span"),
 "C26": ("round trip of random values", "independent parser of the printed form, injectivity of printing"),
 "C27": ("random shapes, lists and numbers", "direct enumeration and reconstruction"),
 "C28": ("random values and matrices at the thresholds", "the definitions"),
 "C29": ("random cones of six families", "brute-force supporting hyperplanes and exact cone membership"),
 "C30": ("random float polynomials", "operation counter for termination, backward error bound"),
 "C31": ("random related terms and lists", "exponent-vector model, multiply-back relation"),
 "C33": ("random histories, thread schedules and process splits (differential)", "the same call made alone in a fresh thread or process"),
 "C34": ("random near-equal pairs and in-place histories (stateful, model-based)", "coefficient and exponent lists, entry arrays"),
 "C32": ("random values and exponents", "exact rationals, repeated multiplication, float error bounds"),
}
FLOAT = {"C21", "C28", "C30", "C32"}
checks = []
for p in props:
    i = p["id"]
    m, o = T[i]
    note = f"Searches generated inputs only; absence of a violation is not proved. Oracle: {o}. Trusts the harness's reference model and number fields, and rustc; overflow checks are on."
    if i in FLOAT: note += " Float bounds have slack of a small constant times the operation count."
    if i in {"C22", "C29"}: note += " Reads private fields through the hook."
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        evidence_file=f"evidence/{i}.json", technique=f"property-based testing with shrinking plus coverage-guided fuzzing of the same generators: {m}; oracle: {o}", level="exploration", level_note=note))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hooks"], capture_output=True, text=True).stdout.split()
json.dump(dict(version=1, setup_cmd="./check.sh build",
    hooks=dict(guard="--cfg algeo_verif", enable='RUSTFLAGS="--cfg algeo_verif" (check.sh builds the harness, and with it /repo\'s crate, this way)', source_commits=hooks),
    checks=checks, not_applicable=[],
    notes="Every property is decided by generated-input search (random, then coverage-guided) with shrinking; ./check.sh replay FILE re-runs a recorded case. Known findings: known_findings.txt."),
    open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
