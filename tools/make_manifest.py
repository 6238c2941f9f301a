"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "model-based PBT of simulations with a scripted solver; differential against a reference energy",
    "C02": "PBT of posed constraints; random admissible and inadmissible deformations",
    "C03": "PBT, differential against an independent reference energy, metamorphic symmetries",
    "C04": "PBT, differential against an independent reference energy, metamorphic symmetries",
    "C05": "PBT, differential against an independent reference (own C1 element by linear solve)",
    "C06": "stateful PBT of update/solve sequences against a model of guess and bounds",
    "C07": "PBT over histories; differential reference energy and recorded callable arguments",
    "C08": "PBT of algebraic laws and reference formulas over random matrices",
    "C09": "PBT of identities, quadrature and difference quotients over random matrices",
    "C10": "PBT, complete structural oracle (lattice model)",
    "C11": "PBT, complete structural oracle (side sets)",
    "C12": "PBT, complete structural oracle (direct fine lattice)",
    "C13": "PBT, geometric round trip",
    "C14": "PBT, constructed queries with known location",
    "C15": "PBT, reference evaluation and metamorphic linearity",
    "C16": "PBT, reference element by linear solve, polynomial reproduction",
    "C17": "PBT, agreement from both sides of every shared edge",
    "C18": "PBT, agreement of all evaluation paths",
    "C19": "PBT, exact polynomial integrals in rational arithmetic",
    "C20": "PBT, exact reference linear algebra over fractions",
    "C21": "stateful PBT with invalid requests; state compared before and after",
    "C22": "PBT, random renumberings and single modifications",
    "C23": "model-based PBT; drawn artists compared with the recorded steps",
    "C24": "stateful PBT with injected solver failures, compared with uninterrupted runs",
    "C25": "stateful PBT against a dictionary model",
    "C26": "PBT against a closed formula",
    "C27": "PBT over interleavings, compared with isolated runs",
    "C28": "PBT, geometric oracle for queries; stateful PBT of assembly against a set model",
    "C29": "PBT round trip of printed representations; model of recorded steps",
    "C30": "model-based PBT across the process boundary: generated answers, crashes and failures of a stand-in ipopt; the .nl file it reads against a reference energy",
}
NOTE = (
    "Random exploration of generated cases with an explicit oracle; shows the absence of violations only on"
    " the cases generated (counts in the evidence file)."
)
SIM = " The optimiser itself (ipopt) is not part of the sandbox: a scripted stand-in receives the posed problems and chooses the answers."
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "the check is not built yet"})
        continue
    src = open(f).read()
    extra = SIM if "lib.model" in src or "import model" in src or "simul" in src.lower() else ""
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
            a = ast.literal_eval(node.value)
            extra += " Assumes: " + "; ".join(a) + "."
    checks.append({
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python run.py {p} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH[p],
        "level": "exploration",
        "level_note": NOTE + extra,
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed. Known findings and repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
