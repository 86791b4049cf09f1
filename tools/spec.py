#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


T_DIST = "runtime monitor over generated circuits: exhaustive-domain oracle"

prop("C01", "Every circuit is a normalised probability distribution",
     "For every valid circuit that can be built from the library's leaves, products, sums, layered modules and ready-made models, "
     "the probabilities of all complete assignments add up (or the density integrates) to one in every output feature, channel and repetition. "
     "No complete in-domain assignment gets a NaN log-likelihood or a probability mass above one, and the fully missing row has log-likelihood zero.",
     ["programs", "inputs", "configurations"],
     "all smooth and decomposable circuits, all parameters, all model-zoo configurations, the complete data domain",
     "Unit tests evaluate a handful of fixed architectures at sampled points; normalisation is a statement about the sum over the whole domain "
     "for arbitrary compositions of layers.",
     ["spflow/modules", "spflow/zoo", "spflow/learn"],
     [("weight normalisation over the mixed dimension", "spflow/modules/sums/*.py, spflow/modules/einsum/*.py"),
      ("factor-wise products over disjoint scopes", "spflow/modules/products/*.py")],
     T_DIST, "Sums the mass of the complete finite domain (or integrates 1-2 continuous variables) of thousands of generated circuits and zoo "
     "models; exploration, not a proof.")

prop("C02", "Log-likelihood equals the circuit's textbook value",
     "The log-likelihood of a circuit equals the value obtained by evaluating its definition: leaf log-densities, sums of log-densities for products, "
     "log of the weighted sum of densities for mixtures, missing values contributing factor one. "
     "This holds for every composition, shared sub-circuits included, for every output feature, channel and repetition, in single and double precision and far in the tails.",
     ["programs", "inputs", "configurations"],
     "all circuits, all parameters, all data rows with any missing pattern",
     "Tests compare single layers with hand-written expectations on one or two shapes; layer compositions, split orders, broadcasting of channels and repetitions are open.",
     ["spflow/modules/sums", "spflow/modules/products", "spflow/modules/einsum", "spflow/modules/ops", "spflow/modules/leaves"],
     [("log-sum-exp over the input channels", "spflow/modules/sums/sum.py"), ("pairing of split halves", "spflow/modules/ops/split*.py"),
      ("einsum / linsum layers", "spflow/modules/einsum/*.py")],
     "runtime monitor: independent float64 reference evaluation of generated circuits",
     "The oracle is an independent numpy/scipy evaluator of the generated expression; agreement is checked on random circuits only.")

prop("C03", "A missing value means exact marginalisation",
     "A NaN entry in a query row is integrated out exactly: the log-likelihood of a partially observed row equals the log of the total probability of all its completions. "
     "This holds for every missing pattern, for rows with different patterns mixed in one batch, and for every model family; a row's result does not depend on the other rows.",
     ["inputs", "programs", "configurations"],
     "all missing patterns, all circuits and model families, all batches",
     "Existing tests check a few patterns on single layers, not the sum over completions on composed models.",
     ["spflow/modules/leaves/base.py", "spflow/modules/leaves/cltree.py", "spflow/modules/sums", "spflow/modules/products", "spflow/zoo"],
     [("NaN entries contribute log 1 at the leaves", "spflow/modules/leaves/base.py"), ("tree message passing with missing entries", "spflow/modules/leaves/cltree.py")],
     T_DIST, "Completions are enumerated (finite domains) or integrated numerically (continuous).")

prop("C04", "Structural marginalisation equals the missing-value query",
     "Marginalising a set of variables out of a circuit yields a circuit over exactly the remaining variables whose log-likelihoods equal those of the original circuit with these variables missing, whether or not pruning is requested. "
     "Marginalising in several steps or at once agrees, marginalising everything leaves nothing, and the original circuit is unchanged.",
     ["programs", "inputs", "histories"],
     "all circuits of supporting modules, all variable subsets, all sequences of marginalisations",
     "Tests marginalise one or two fixed variables of fixed shapes and mostly check shapes and scopes.",
     ["spflow/modules/sums", "spflow/modules/products/product.py", "spflow/modules/ops/cat.py", "spflow/modules/leaves"],
     [("weights re-indexed along kept features", "spflow/modules/sums/*.py: marginalize"), ("leaf parameters re-indexed", "spflow/modules/leaves/*.py: marginalize")],
     "runtime monitor: metamorphic oracle (missing-value query on the original model)",
     "Modules that declare structural marginalisation unsupported are outside; recorded findings cover modules whose marginalisation is broken.")

prop("C05", "Samples follow the model's distribution",
     "Unconditional samples of a model are distributed exactly according to its likelihood: outcomes of probability zero never occur, and outcome frequencies agree with the model's probabilities. "
     "This holds for every circuit and model family, for every output feature, channel and repetition a caller selects, also when different rows of a batch select different outputs.",
     ["programs", "inputs", "configurations"],
     "all circuits and model families, all routings, all random streams",
     "Tests check sample shapes or means of fixed models; a wrong routing of channels, features or repetitions leaves shapes intact.",
     ["spflow/modules", "spflow/utils/sampling_context.py", "spflow/zoo"],
     [("top-down routing of channel/repetition indices", "spflow/modules/**/*.py: _sample"), ("routing context", "spflow/utils/sampling_context.py")],
     "runtime monitor: goodness-of-fit oracle over the enumerated domain",
     "Statistical: alarm only below p=1e-10 or on an impossible draw; distribution shifts too small for a few thousand draws stay invisible.")

prop("C06", "Conditional samples follow the conditional distribution",
     "Sampling with evidence returns every observed entry unchanged, fills every missing entry, and distributes the filled entries according to the model's conditional distribution given that row's evidence. "
     "This holds for all documented ways to pass evidence, for any missing pattern, for rows with different evidence in one batch, and for evidence that only a low-weight part of the model explains.",
     ["programs", "inputs", "histories", "configurations"],
     "all circuits and model families, all evidence rows of positive probability, all random streams",
     "Tests check that evidence is kept; whether mixture routing uses posteriors rather than priors is visible only in distributions.",
     ["spflow/modules/module.py", "spflow/modules/sums", "spflow/modules/einsum", "spflow/modules/leaves/cltree.py", "spflow/utils/sampling_context.py", "spflow/zoo"],
     [("posterior routing from cached log-likelihoods", "spflow/modules/sums/*.py: _sample"), ("evidence entries kept", "spflow/modules/leaves/base.py: _sample")],
     "runtime monitor: goodness-of-fit oracle against enumerated conditionals",
     "Statistical: alarm only below p=1e-10 or on an impossible/changed entry.")

prop("C07", "MPE completes rows with the most probable choices",
     "Most-probable-explanation queries keep the observed entries, fill every missing one with an in-domain value of positive probability, and are deterministic and independent of the other rows. "
     "For a leaf, a factorised model or a tree distribution the completion attains the maximum probability; in general every mixture follows its alternative with the highest posterior given the row's evidence, down to the modes of the selected leaves.",
     ["programs", "inputs", "configurations"],
     "all leaf families and parameters, all circuits, all evidence rows",
     "Tests assert the result for one or two hand-made parameter settings.",
     ["spflow/modules/leaves", "spflow/modules/sums", "spflow/modules/module.py", "spflow/zoo"],
     [("argmax routing", "spflow/modules/sums/*.py"), ("leaf modes", "spflow/modules/leaves/*.py: mode"), ("max-product on trees", "spflow/modules/leaves/cltree.py")],
     "runtime monitor: argmax oracle over enumerated completions", "Rows whose best two alternatives are closer than 2e-3 in log-probability are not judged.")


def main():
    import importlib.util

    extra = os.path.join(HERE, "tools", "spec2.py")
    if os.path.exists(extra):
        sp = importlib.util.spec_from_file_location("spec2", extra)
        m = importlib.util.module_from_spec(sp)
        m.prop = prop
        sp.loader.exec_module(m)
        m.add(prop)
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            **({"observe_at": p["observe"]} if p["observe"] else {}), "hook_needed": None},
            }) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, "spmon", "checks", p["id"].lower() + ".py")):
            print("no check for", p["id"])
            continue
        c = f"/opt/venv/bin/python run_check.py {p['id']} --tier "
        checks.append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import torch, numpy, scipy\"",
        "checks": checks,
        "not_applicable": [],
        "notes": "Pure Python project: each check imports /repo's working tree directly (no build step), runs generated workloads in forked workers and "
                 "judges them with oracles in /verif/spmon. No hooks in /repo are needed: all monitors observe the public API.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
