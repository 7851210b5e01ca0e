"""Command line: run.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N] | --replay FILE | --one INDEX"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
if os.environ.get("SIM_REPO"):
    sys.path.insert(0, os.environ["SIM_REPO"])

from sim import core  # noqa: E402

WORLDS = {
    "C01": "importworld", "C02": "importworld", "C03": "importworld",
    "C06": "phaseworld", "C13": "gensymworld", "C05": "capworld", "C12": "modworld", "C11": "cleanworld",
    "C07": "expworld", "C08": "expworld", "C14": "dialectworld", "C10": "replworld", "C16": "switchworld", "C04": "restartworld", "C15": "mainworld", "C09": "threadworld",
}


def get_world(pid):
    sys.dont_write_bytecode = True
    from sim import sched
    with sched.patched_threading():     # locks that mcpyrate creates are under the simulator's control
        import mcpyrate.activate  # noqa: F401
        import mcpyrate.quotes, mcpyrate.metatools, mcpyrate.debug, mcpyrate.multiphase, mcpyrate.repl.console, mcpyrate.repl.utils  # noqa: F401, E401
    here = os.path.realpath(os.path.dirname(mcpyrate.activate.__file__))
    if here != os.path.realpath(os.path.join(core.REPO, "mcpyrate")):
        raise core.HarnessError(f"mcpyrate comes from {here}, not from {core.REPO}")
    import importlib.metadata  # `importlib.invalidate_caches` imports it
    mod = importlib.import_module(f"sim.{WORLDS[pid]}")
    from sim import proc
    proc.warm_overlay()
    return getattr(mod, pid)()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(WORLDS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int)
    ap.add_argument("--out", help="directory for evidence and replays, instead of /verif")
    ap.add_argument("--digests", action="store_true", help="print the digest of each run (determinism test)")
    opts = ap.parse_args()
    world = get_world(opts.property)
    if opts.replay:
        data, res = core.replay(world, opts.replay)
        v = res["violation"]
        if res["harness"]:
            print(res["harness"])
            return 2
        if v and v["kind"] == data["kind"]:
            same = "identical event log" if res["digest"] == data.get("digest") else "different event log"
            print(f"{v['kind']}: {v['message']}")
            print(f"VIOLATION property={world.id} replay={os.path.abspath(opts.replay)} ({same})")
            return 1
        print(f"{world.id}: the replay file does not fail on this tree ({v})")
        return 0
    if opts.one is not None:
        spec = core.spec_for(world, opts.seed, opts.one)
        print(json.dumps(spec, indent=1))
        root = core.fresh_dir(core.scratch_root())
        res = core.execute(world, spec, os.path.join(root, "w0"), verbose=True)
        res.pop("log")
        print(json.dumps(res, indent=1))
        return 0
    if opts.digests:
        out = {}

        def on_result(i, res):
            out[i] = (res["digest"], (res["violation"] or {}).get("kind"), (res["harness"] or "")[-200:])
        core.run_pool(world, opts.seed, opts.runs or 200, opts.workers or 8, 3600, on_result)
        for i in sorted(out):
            print(i, *out[i])
        return 0
    return core.run_check(world, opts.tier, opts.seed, nruns=opts.runs, workers=opts.workers, out=opts.out)


if __name__ == "__main__":
    sys.exit(main())
