"""Writes MANIFEST.json: a check for every property with a module under vf/props."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
    "C01": ("generated transformed shapes against an independent pull-back model, plus metamorphic Lipschitz and batch checks", "Samples shapes, transformations and query points; the oracle re-derives every field from the documentation in independent code. Not exhaustive."),
    "C02": ("generated shapes and set-operation trees against exact support points", "Samples shapes; box containment is decided at exact support points and at sampled interior points of each shape."),
    "C03": ("differential check of generated set operations against operand fields", "Samples operand lists and points; trusts the operands' own fields (decided by C01)."),
    "C04": ("whole-mesher runs on generated domains, validity invariants with exact orientation and overlap tests", "Samples domains, sizings and options at up to a few thousand vertices; invariants are checked completely on each returned mesh."),
    "C05": ("whole-mesher runs on generated domains against exact signed distances and exact measures", "Samples domains; tolerances are fractions of the edge length, chosen with margin over what the unchanged mesher does."),
    "C06": ("whole-mesher runs against the requested edge lengths; metamorphic scaling, translation and refinement", "Samples domains and sizings; bounds are statistical with margin over what the unchanged mesher does."),
    "C07": ("metamorphic repeat runs: same seed, other verbosity, interleaved random draws and calls", "Samples configurations and call histories; equality is exact."),
    "C08": ("whole-mesher runs with generated fixed points and transformed corners, exact lookup in the result", "Samples domains and point sets."),
    "C09": ("generated sliver-laden point sets, dihedral angles recomputed independently, message and validity invariants", "Samples inputs; every angle of each returned mesh is recomputed."),
    "C10": ("the real parallel mesher on a simulated communicator under generated message schedules, invariants on the gathered mesh", "Samples rank counts, schedules and domains; MPI itself is replaced by an in-process stand-in with the same semantics."),
    "C11": ("generated point sets through the decomposition on a simulated communicator against a brute-force partition", "Samples point sets, rank counts and schedules."),
    "C12": ("model-based check of the exchange on a simulated communicator under generated schedules and send modes", "Samples export sets, rank counts and schedules; deadlock is detected exactly by the scheduler."),
    "C13": ("gathering of generated local meshes on a simulated communicator against a multiset model", "Samples local meshes, rank counts and schedules."),
    "C14": ("generated velocity models against an independent reference of the sizing formula", "Samples models and options; the reference is written from the documentation."),
    "C15": ("generated velocity models against the CFL inequality and its minimal correction", "Samples models and options; every node is checked."),
    "C16": ("generated fields against an exact fixed-point reference of the gradient limiter", "Samples fields and grids; every node is checked."),
    "C17": ("differential check of padded against unpadded sizing functions on generated models", "Samples models, pads and styles at query points in and around the box."),
    "C18": ("round trips of generated velocity files through reader and writer", "Samples grids and encodings; every sample is compared."),
    "C19": ("stateful histories on the triangulation objects against a set model, exact integer Delaunay oracle", "Samples histories on integer lattices, so every predicate is decided exactly."),
    "C20": ("generated damage to valid meshes, clean-up compared with the undamaged mesh; metamorphic renumbering", "Samples meshes and damage."),
    "C21": ("generated meshes against brute-force definitions of every query", "Samples meshes; every query is compared completely."),
    "C22": ("generated simplices against extended-precision definitions, metamorphic transformations", "Samples simplices from regular to flat; tolerances follow the conditioning."),
    "C23": ("generated meshes against an exact sparse solve and an independent iteration, metamorphic translation and scaling", "Samples meshes and fixed points."),
    "C24": ("generated damaged meshes against exact rational point location and a reference linter", "Samples meshes, defects and thresholds."),
    "C25": ("generated calls with one injected fault; acceptance of generated option combinations", "Samples faults and options from a catalogue covering every documented parameter."),
    "C26": ("AddressSanitizer builds of the kernels, heap poisoning and layout metamorphism over generated arguments", "Samples arguments; sanitizers see heap accesses of the extension modules."),
    "C27": ("generated shapes and sizing functions, drawn data read back from the figure and compared with the fields and with independent samples", "Samples shapes and models; the drawn set is compared statistically, each drawn point exactly."),
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "vf", "props", i.lower() + ".py")):
        t, n = ORACLE[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "no check yet"})
out = {"version": 1, "setup_cmd": "python3 -c \"import json; json.load(open('MANIFEST.json'))\"", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. Every check rebuilds the extension modules from /repo's working tree outside /repo (or uses the built ones when they are up to date with the sources). See DESIGN.md."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
