"""Writes MANIFEST.json for the properties that have a check module."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = "property-based testing (Hypothesis): "
T = {
    "C01": (SEARCH + "generated svmlight files against a reference parser", ""),
    "C02": (SEARCH + "dump/load round trips of generated datasets, differential against scikit-learn's reader", ""),
    "C03": (SEARCH + "grammar-based and mutational fuzzing of the loaders with injected I/O faults, under AddressSanitizer", ""),
    "C04": (SEARCH + "generated query groupings against a reference model", ""),
    "C05": (SEARCH + "generated splits, invariants on the parts", ""),
    "C06": (SEARCH + "metamorphic relations of subsets, oracle on the samples", ""),
    "C07": (SEARCH + "generated pairs of datasets against a reference equality, hash laws, dictionary histories", ""),
    "C08": (SEARCH + "generated ensembles written by an independent writer, loaded and compared", ""),
    "C09": (SEARCH + "generated ensembles written by an independent writer, loaded and compared", ""),
    "C10": (SEARCH + "generated ensembles with values next to the thresholds, reference evaluator", ""),
    "C11": (SEARCH + "generated ensembles written by an independent writer, loaded and compared", ""),
    "C12": (SEARCH + "round trips of generated and trained models", ""),
    "C13": (SEARCH + "generated ensembles in every format, structural invariants", ""),
    "C14": (SEARCH + "mutational fuzzing of valid model files with an explicit oracle", ""),
    "C15": (SEARCH + "generated ensembles and datasets against a reference evaluator; metamorphic relations", ""),
    "C16": (SEARCH + "stateful: generated histories of scorings with a cache model and injected failures", ""),
    "C17": (SEARCH + "generated ensembles and tree subsets against the model of the copied trees", ""),
    "C18": (SEARCH + "generated queries against reference definitions", ""),
    "C19": (SEARCH + "generated queries against reference definitions", ""),
    "C20": (SEARCH + "generated queries against reference definitions", ""),
    "C21": (SEARCH + "generated queries against reference definitions", ""),
    "C22": (SEARCH + "metamorphic relations (monotone maps, permutations, swaps, cutoffs)", ""),
    "C23": (SEARCH + "stateful: generated histories of evaluations against fresh per-query values", ""),
    "C24": (SEARCH + "generated models, datasets and metrics against recomputation from the reference evaluator", ""),
    "C25": (SEARCH + "generated models, datasets and classes against recounted distributions", ""),
    "C26": (SEARCH + "generated models and datasets against the enumeration of pairs; reordering", ""),
    "C27": (SEARCH + "generated ensembles and datasets against a double-precision recomputation; ASan build of the kernel", ""),
    "C28": (SEARCH + "generated ensembles and node numberings against counted positions", ""),
    "C29": (SEARCH + "generated score vectors against exact enumeration of the sign assignments", ""),
    "C30": (SEARCH + "generated datasets and training functions; recorded calls and recomputed decomposition", ""),
    "C31": (SEARCH + "generated trees and options, DOT output parsed and compared with the tree", ""),
    "C32": (SEARCH + "generated analysis results, matplotlib artists compared with the data", ""),
    "C33": (SEARCH + "stateful: generated request histories against a cache model with faults injected at every download/extraction point", ""),
    "C34": (SEARCH + "stateful: generated histories of operations on data and models, against reference scores and metric values of the original rows", ""),
    "C35": (SEARCH + "differential: cells of joint analyses against analyses run alone, and histories on shared objects against fresh ones", ""),
}
NOTE = ("Search over generated inputs: a violation comes with a shrunk replay file; silence means that none of the generated cases "
        "(counted in the evidence file) broke the property. The oracle is independent of the library (lib/ and checks/); trusted: "
        "CPython, numpy, Hypothesis and the reference written here. Inputs are small (see DESIGN.md for the bounds).")

if __name__ == "__main__":
    checks, na = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        i = json.loads(line)["id"]
        if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            t, n = T[i]
            checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=NOTE + (" " + n if n else "")))
        else:
            na.append(dict(property=i, reason="The check is not written yet."))
    m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.append(\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); import hypothesis'",
             checks=checks, not_applicable=na,
             notes="No hooks are needed: checks import a scratch copy of /repo's working tree, whose native extensions are rebuilt when their "
                   "sources differ from those /opt/vp/build.sh built. run.py --replay FILE re-executes a violation.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")
