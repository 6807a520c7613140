"""Writes MANIFEST.json from mc/registry.py."""
import json

from mc.registry import PROPS

TECHNIQUE = {
    "C01": "explicit-state search and exhaustive operation/fault sequences on the real package",
    "C02": "exhaustive enumeration of backend-use orders x lattice, differential on the real code",
    "C09": "exhaustive call histories on real instances against a stateless reference model",
    "C10": "exhaustive enumeration of small weight matrices and configurations against an exact model",
    "C11": "exhaustive setting/query sequences against an exact model",
    "C12": "exhaustive enumeration against an exact model, controlled random generator",
    "C13": "enumeration of every answer of the random generator (controlled nondeterminism)",
    "C15": "exhaustive enumeration of grid layouts and key orders",
    "C17": "exhaustive enumeration of entry subsets, orders and call sequences",
    "C18": "exhaustive parameter sequences through compiled objects, conformance to the plain likelihood",
    "C19": "exhaustive omissions, additions, reads and combinations on real models",
    "C20": "exhaustive query histories, each answer compared with a fresh object",
    "C21": "exhaustive pairs of evaluation modes (direct, jit, vmap) on one instance, against an independent oracle",
}
DEFAULT = "bounded exhaustive exploration of the real code against a reference model"

checks = []
for pid in sorted(PROPS):
    prop = PROPS[pid]
    checks.append(dict(
        property=pid,
        quick_cmd=f"bash run.sh {pid}",
        thorough_cmd=f"bash run.sh {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique="model checking: " + TECHNIQUE.get(pid, DEFAULT),
        level="model_checking",
        level_note="Exhaustive within the bounds: " + prop["bounds"] + ". Assumes: " + "; ".join(prop["assumptions"]) + ".",
    ))
manifest = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=[],
    notes="No hooks are needed: the checks drive the public interface of the package imported from /repo's working tree.",
)
with open("MANIFEST.json", "w") as ff:
    json.dump(manifest, ff, indent=1)
    ff.write("\n")
