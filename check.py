#!/usr/bin/env python3
"""check.py <property>: lower /repo's current source to the IR, run the static
analysis that decides the property, write the evidence, report violations."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
TRUSTED = [
    "rustc's lowering of the source to MIR (nightly front end)",
    "exporter/ (MIR to IR) and analyzer/ (abstract interpreter, its linear-arithmetic domain)",
    "the models of standard library primitives in analyzer/src/models.rs",
]


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            # known: property=<id> function=<f> what=<text>
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                f, _, w = rest.partition(" what=")
                out.append((f.replace("function=", ""), w, line))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vcheck-")
    try:
        ir = os.path.join(work, "ir.json")
        r = subprocess.run(["bash", os.path.join(HERE, "tools/export.sh"), ir, os.path.join(work, "t")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(ir):
            print(r.stdout[-3000:])
            print("cannot lower /repo to the IR")
            return 2
        out = os.path.join(work, "out.json")
        env = dict(os.environ, VANALYZE_OUT=out)
        if prop == "C20":
            env["VUNSAFE"] = os.path.join(work, "unsafe.tsv")
            r = subprocess.run(["bash", os.path.join(HERE, "tools/unsafe.sh"), env["VUNSAFE"], os.path.join(work, "u")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-3000:])
                print("cannot compile /repo with unsafe code forbidden")
                return 2
        for k in ("VTRACE", "VDETAIL", "VPROG", "VOP", "VJ"):
            env.pop(k, None)
        r = subprocess.run([os.path.join(HERE, "analyzer/target/release/vanalyze"), ir, prop],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if not os.path.exists(out):
            print(r.stdout[-3000:])
            print("the analyzer gave no result")
            return 2
        d = json.load(open(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = known(prop)
    new, old = [], []
    for v in d["violations"]:
        hit = [k for k in kn if k[0] == v["function"] and k[1] == v["what"]]
        (old if hit else new).append(v)
    nsites = len(d["obligation_sites"])
    bad_sites = {(v["file"], v["line"], v["what"]) for v in d["violations"]}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the MIR of /repo's current source, from every public entry "
                           "point listed in notes; each obligation site below was checked on every abstract path "
                           "reaching it.",
            "obligation_sites": d["obligation_sites"],
            "obligations": nsites,
            "discharged": max(0, nsites - len(bad_sites)),
            "obligation_evaluations": sum(d["obligation_sites"].values()),
            "functions_analysed": d["functions_analysed"],
            "calls_interpreted": d["calls"], "blocks_interpreted": d["blocks"],
            "joins": d["joins"], "loop_fixpoints": d["loops"],
            "assumed_arbitrary_effect": d["opaque"], "summarised": d["summaries"],
            "gave_up": d["gave_up"], "lost": d["lost"],
            "trusted_base": TRUSTED,
            "samples": d["notes"] + list(d["obligation_sites"])[:5],
        },
        "assumptions": ["arithmetic overflow checks are on: an overflow ends the path"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s in %s" % (prop, v["what"], v["function"]))
    rp = os.path.join(HERE, "evidence", prop + ".violation.json")
    if not new:
        if os.path.exists(rp):
            os.remove(rp)
        print("%s: held at %d sites, %d evaluations, %.1f s" % (prop, nsites, sum(d["obligation_sites"].values()), time.time() - t0))
        return 0
    with open(rp, "w") as f:
        json.dump(new, f, indent=1)
    for v in new:
        print("%s:%d: %s (in %s)" % (v["file"], v["line"], v["what"], v["function"]))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


sys.exit(main())
