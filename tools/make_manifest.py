#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("differential: generated spacecraft histories vs closed-form CW matrix exponential and tight ODE reference; conserved quantities", ""),
    "C02": ("differential vs independent rigid-body reference, conservation invariants, closed form (planar)", ""),
    "C03": ("metamorphic pairs of models in lock-step; thrust acceleration vs orientation accessor; reference flow", ""),
    "C04": ("differential vs tight reference flow and reference derivative; translation/turn equivariance (metamorphic)", ""),
    "C05": ("closed-form oracle over generated integrators, histories and command forms", ""),
    "C06": ("closed-form oracle over generated step histories", ""),
    "C07": ("metamorphic: step(u) vs step(clip(u)) on twins, warning iff exceeded", ""),
    "C08": ("metamorphic twins across command forms, reference channel model", ""),
    "C09": ("invariant over generated histories incl. user-defined limits and all integration methods", ""),
    "C10": ("invariant + whole-turn relation to unwrapped twin, generated centres", ""),
    "C11": ("reference derivative with limits; limited vs saturated reference flow", ""),
    "C12": ("post-step derivative vs reference equations at reached state", ""),
    "C13": ("one-step Euler reference; adaptive methods vs tight reference; convergence", ""),
    "C14": ("metamorphic: whole step vs generated splits and clock offsets", ""),
    "C15": ("stateful twins with generated operation histories, bitwise comparison", ""),
    "C16": ("stateful aliasing fuzz: mutate everything exchanged, compare with untouched twin", ""),
    "C17": ("accessor consistency vs reference geometry over generated states; setter model", ""),
    "C18": ("round-trip/metamorphic over units", ""),
    "C19": ("generated malformed and valid construction", ""),
    "C20": ("algebraic laws over generated entity pairs", ""),
    "C21": ("algebraic laws over generated simulations and histories", ""),
    "C22": ("recorded samples vs shorter steps and reference flow; twin without samples", ""),
    "C23": ("formula oracle over generated limits in every form", ""),
    "C24": ("generated user models vs matrix exponential / tight reference", ""),
    "C25": ("differential vs independent table model, grid enumeration plus generated points", ""),
    "C26": ("differential vs independent formulas and table", ""),
    "C27": ("differential vs independent polynomials; clamping and linearity relations", ""),
    "C28": ("differential vs independent vector-form flight equations; invariances", ""),
    "C29": ("differential vs independent saturated LQR; purity", ""),
    "C30": ("composition oracle from the parts and independent reference", ""),
    "C31": ("differential vs independent trim formulas", ""),
    "C32": ("model of the fixed-step integrator over generated systems", ""),
    "C33": ("generated recorded runs with planted violations vs predicate", ""),
    "C35": ("captured printed output parsed back; rounding vs math.trunc", ""),
    "C36": ("compiled, batched and plain jax calls vs reference; Jacobians vs differences of the reference", ""),
    "C37": ("drift and input matrix vs reference equations; composition relation; purity over histories", ""),
    "C38": ("closed-loop flights vs independent reference flights; equilibrium and decay invariants", ""),
    "C34": ("stateful twins: invalid operations interleaved in histories", ""),
}


def main():
    props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "pbt", "checks", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": f"./check {i}",
                "thorough_cmd": f"./check {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "property-based testing (Hypothesis): " + T[i][0],
                "level": "exploration",
                "level_note": T[i][1] or "Generated-input search against an independent oracle; counts, non-trivial rule and samples are in the evidence file. Holds on everything explored, not proved.",
            })
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not yet")


if __name__ == "__main__":
    main()
