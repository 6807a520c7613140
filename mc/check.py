"""
Runs the check of one property:  python mc/check.py C05 [--tier quick|thorough]
                                 python mc/check.py --replay replays/C05-....json
Exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""

import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
# the registered commands check /repo; development runs of planted bugs in a
# scratch copy name it (and where evidence and replays go) here
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
OUT = os.environ.get("VERIF_DEV_OUT", VERIF)


def prepare():
    """Make the working tree of /repo importable, without writing to it."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("BILBY_ALLOW_PARAMETERS_AS_STATE", "FALSE")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["TQDM_DISABLE"] = "1"
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "gwpopulation", "_version.py")):
        module = types.ModuleType("gwpopulation._version")
        module.__version__ = "0.0.0"
        sys.modules["gwpopulation._version"] = module
    _entry_points()
    import logging

    import warnings

    warnings.simplefilter("ignore")
    logging.getLogger("bilby").setLevel(logging.ERROR)


def _entry_points():
    """Without an installation's metadata, register the package's modules as
    pyproject.toml declares them (in memory, nothing is written)."""
    import importlib.metadata as md

    if any(e.value.startswith("gwpopulation.") for e in md.entry_points(group="gwpopulation.xp")):
        return
    import tomllib

    with open(os.path.join(REPO, "pyproject.toml"), "rb") as ff:
        points = tomllib.load(ff)["project"].get("entry-points", {})
    text = "".join(
        f"[{group}]\n" + "".join(f"{k} = {v}\n" for k, v in entries.items())
        for group, entries in points.items()
    )

    class Dist(md.Distribution):
        def read_text(self, filename):
            return {"entry_points.txt": text, "METADATA": "Name: gwpopulation\nVersion: 0\n"}.get(filename)

        def locate_file(self, path):
            return path

    class Finder(md.DistributionFinder):
        def find_distributions(self, context=None):
            return [Dist()]

        def find_spec(self, *args, **kwargs):
            return None

    sys.meta_path.append(Finder())


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as ff:
        return [f for f in json.load(ff)["findings"] if f["property"] == prop]


def worker(prop, tier, group, out):
    prepare()
    from mc import core

    stats = core.Stats()
    try:
        module = importlib.import_module(f"mc.props.{prop.lower()}")
        module.run(group, tier, stats, load_findings(prop))
    except core.Violation as exc:
        stats.violations.append(
            dict(driver=group, choices=[], history=[], message=str(exc))
        )
    except BaseException as exc:
        import traceback

        stats.violations.append(
            dict(
                driver=group,
                choices=[],
                history=[],
                message=f"the package could not be driven: {type(exc).__name__}: {exc}\n"
                + traceback.format_exc(),
            )
        )
    result = dict(
        states=stats.states,
        transitions=stats.transitions,
        traces=stats.traces,
        outcomes=sorted(stats.outcomes),
        max_depth=stats.max_depth,
        samples=stats.samples,
        replayed=stats.replayed,
        findings=stats.findings,
        violations=stats.violations,
        seconds=stats.seconds,
        bounds=getattr(stats, "bounds", None),
    )
    with open(out, "w") as ff:
        json.dump(result, ff)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--worker")
    parser.add_argument("--out")
    parser.add_argument("--only")
    parser.add_argument("--replay")
    args = parser.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    if args.replay:
        sys.exit(replay(args.replay))
    if args.worker:
        worker(args.prop, tier, args.worker, args.out)
        return
    sys.exit(run(args.prop, tier, args.only))


def run(prop, tier, only=None):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from mc.registry import PROPS

    info = PROPS[prop]
    groups = info["groups"](tier) if callable(info["groups"]) else info["groups"]
    if only:
        groups = [g for g in groups if g in only.split(",")]
    limit = 840 if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    results = {}
    try:
        pending = list(groups)
        running = {}
        ncpu = min(8, len(os.sched_getaffinity(0)) or 1)
        while pending or running:
            while pending and len(running) < ncpu:
                group = pending.pop(0)
                out = os.path.join(scratch, group.replace("/", "_") + ".json")
                err = open(out + ".err", "w+")
                proc = subprocess.Popen(
                    [
                        sys.executable,
                        os.path.abspath(__file__),
                        prop,
                        "--tier",
                        tier,
                        "--worker",
                        group,
                        "--out",
                        out,
                    ],
                    stdout=err,
                    stderr=err,
                    cwd=scratch,
                )
                running[group] = (proc, out, err, time.time())
            time.sleep(0.05)
            for group, (proc, out, err, start) in list(running.items()):
                code = proc.poll()
                timeout = time.time() - t0 > limit
                if code is None and not timeout:
                    continue
                if code is None:
                    proc.kill()
                    proc.wait()
                del running[group]
                if os.path.exists(out) and code == 0:
                    with open(out) as ff:
                        results[group] = json.load(ff)
                else:
                    err.seek(0)
                    results[group] = dict(
                        states=0, transitions=0, traces=0, outcomes=[], max_depth=0,
                        samples=[], replayed=0, findings=[], seconds={}, bounds=None,
                        violations=[
                            dict(
                                driver=group,
                                choices=[],
                                history=[],
                                message=(
                                    "the exploration did not terminate"
                                    if code is None
                                    else f"the exploration died with code {code}: "
                                    + err.read()[-2000:]
                                ),
                            )
                        ],
                    )
                err.close()
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)

    violations = []
    for group, res in results.items():
        for vio in res["violations"]:
            violations.append(dict(vio, group=group))
    outcomes = set()
    for res in results.values():
        outcomes.update(res["outcomes"])
    samples = []
    for group in groups:
        samples += [dict(s, group=group) for s in results[group]["samples"][:1]]
    coverage = dict(
        states=sum(r["states"] for r in results.values()),
        transitions=sum(r["transitions"] for r in results.values()),
        traces_validated_against_impl=sum(r["traces"] for r in results.values()),
        samples=samples[:8] or [dict(note="no complete execution")],
        exhaustive=not violations,
        distinct_outcomes=len(outcomes),
        max_choice_depth=max([r["max_depth"] for r in results.values()] + [0]),
        determinism_replays=sum(r["replayed"] for r in results.values()),
        groups={
            g: dict(
                states=r["states"],
                transitions=r["transitions"],
                traces=r["traces"],
                distinct_outcomes=len(r["outcomes"]),
                seconds=r["seconds"],
            )
            for g, r in results.items()
        },
        bounds=info["bounds"],
        explanation=(
            "states: nodes of the choice tree (or canonical states of the breadth-"
            "first search); transitions: operations of the real package executed; "
            "traces: complete executions, each run on the real package in lockstep "
            "with the reference model and compared at every step"
        ),
    )
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=coverage,
        assumptions=info.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as ff:
        json.dump(evidence, ff, indent=1)

    print(
        f"{prop} [{tier}] states={coverage['states']} "
        f"transitions={coverage['transitions']} "
        f"traces={coverage['traces_validated_against_impl']} "
        f"distinct_outcomes={len(outcomes)} wall={evidence['wall_s']}s"
    )
    seen = set()
    for res in results.values():
        for finding in res["findings"]:
            if finding["id"] not in seen:
                seen.add(finding["id"])
                print(f"KNOWN-FINDING: property={prop} {finding['what']}")
    if violations:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        for ii, vio in enumerate(violations[:5]):
            path = os.path.join(OUT, "replays", f"{prop}-{ii}.json")
            with open(path, "w") as ff:
                json.dump(dict(vio, property=prop, tier=tier), ff, indent=1)
            print(f"  {vio['group']}/{vio['driver']}: {' '.join(vio['history'])}")
            print(f"    {vio['message']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path):
    """Re-executes one recorded choice sequence, without exploring."""
    with open(path) as ff:
        rec = json.load(ff)
    prepare()
    from mc import core

    module = importlib.import_module(f"mc.props.{rec['property'].lower()}")
    stats = core.Stats()
    core.REPLAY = rec
    module.run(rec["group"], rec["tier"], stats, [])
    for vio in stats.violations:
        print(vio["message"])
    print("reproduced" if stats.violations else "not reproduced on this tree")
    return 1 if stats.violations else 0


if __name__ == "__main__":
    main()
