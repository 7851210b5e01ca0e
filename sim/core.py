"""Simulator core: seeds, worker pool, minimiser, replay files, evidence.

A *world* decides one property. It generates a `spec` (plain JSON data: the operations, the fault plan,
the schedule) from a seeded PRNG, and executes a spec. Executing a spec is a pure function of the spec and
of the code in /repo; the PRNG is not consulted while a spec executes. So a spec *is* a replay file.
"""
import collections
import ctypes
import hashlib
import json
import os
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback
import pickle

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
SCRATCH_RE = re.compile(r"mcsim\.\d+(/[wmk]\d*)?|\b0x[0-9a-f]{6,}")
_libc = ctypes.CDLL(None, use_errno=True)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


def make_rng(*parts):
    digest = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(digest[:16], "big"))


class HarnessError(Exception):
    """The machinery itself failed. Never reported as a violation."""


class Hang(Exception):
    """The simulated system stopped answering."""


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class Ctx:
    """One run's context: scratch directory, event log, counters."""
    def __init__(self, scratch, verbose=False):
        self.scratch = scratch
        self.log = []
        self.faults = collections.Counter()   # faults that actually fired
        self.probes = collections.Counter()   # rare conditions that were reached
        self.simtime = 0.0                    # simulated seconds covered
        self.steps = 0                        # scheduler steps / intercepted events
        self.nontrivial = False
        self.verbose = verbose
        self.procs = []

    def event(self, text):
        text = SCRATCH_RE.sub("@", text)
        self.log.append(text)
        if self.verbose:
            print(f"  | {text}"[:2000])

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def violate(self, kind, message):
        raise Violation(kind, message)

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message() if callable(message) else message)

    def digest(self):
        return hashlib.sha256("\n".join(self.log).encode("utf-8", "backslashreplace")).hexdigest()[:24]

    def kill_procs(self):
        for p in self.procs:
            p.kill()
        self.procs = []


def fresh_dir(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


RUN_TIMEOUT = float(os.environ.get("SIM_RUN_TIMEOUT", "90"))


def execute(world, spec, scratch, verbose=False):
    """Execute one spec. Returns a result dict. Never raises, except for KeyboardInterrupt and the like."""
    # The path must not depend on the worker: paths end up in tracebacks and in event logs. It may, however,
    # differ between runs of the simulator, so worlds must not log it.
    fresh_dir(scratch)
    ctx = Ctx(scratch, verbose)
    out = {"violation": None, "harness": None}
    try:
        world.run(spec, ctx)
    except Violation as err:
        out["violation"] = {"kind": err.kind, "message": err.message}
    except Hang as err:
        out["violation"] = {"kind": "no-progress", "message": f"the simulated system stopped making progress: {err}", "hang": True}
    except Exception:
        out["harness"] = traceback.format_exc()
    finally:
        ctx.kill_procs()
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(digest=ctx.digest(), faults=dict(ctx.faults), probes=dict(ctx.probes), simtime=ctx.simtime,
               steps=ctx.steps, nontrivial=bool(ctx.nontrivial), log=ctx.log)
    return out


def send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv_exact(fd, n, timeout=None):
    chunks = []
    deadline = None if timeout is None else time.monotonic() + timeout
    while n:
        if deadline is not None:
            left = deadline - time.monotonic()
            r, _, _ = select.select([fd], [], [], max(0.0, left))
            if not r:
                raise Hang(f"no answer in {timeout:.0f} s")
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError
        chunks.append(b)
        n -= len(b)
    return b"".join(chunks)


def recv(fd, timeout=None):
    (n,) = struct.unpack("<I", recv_exact(fd, 4, timeout))
    return pickle.loads(recv_exact(fd, n, timeout))


# --------------------------------------------------------------------------------

def scratch_root():
    base = os.environ.get("SIM_TMP") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    return os.path.join(base, f"mcsim.{os.getpid():07d}")


def spec_for(world, seed, index):
    rng = make_rng(seed, world.id, index)
    spec = world.gen(rng, index)
    return json.loads(json.dumps(spec))  # what a replay file would hold


def _worker(world, seed, indices, root, wno, fd):
    die_with_parent()
    random.seed(0)
    for i in indices:
        try:
            spec = spec_for(world, seed, i)
        except Exception:
            send(fd, (i, {"violation": None, "harness": "while generating:\n" + traceback.format_exc(), "digest": "", "faults": {},
                          "probes": {}, "simtime": 0, "steps": 0, "nontrivial": False, "log": []}))
            continue
        res = execute(world, spec, os.path.join(root, f"w{wno}"))
        if not res["violation"] and not res["harness"]:
            res["nlog"] = len(res["log"])
            res["head"] = res["log"][:12] if i < 4 else None
            res["log"] = None
        send(fd, (i, res))
    send(fd, None)
    os._exit(0)


def run_pool(world, seed, nruns, workers, wall_cap, on_result, first=0):
    """Run specs `first`..`first+nruns-1`. Calls `on_result(i, res)`; stop early when it returns True."""
    root = fresh_dir(scratch_root())
    fds = {}
    pids = []
    t0 = time.monotonic()
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(workers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for other in fds:
                        os.close(other)
                    _worker(world, seed, range(first + w, first + nruns, workers), root, w, wfd)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(3)
            os.close(wfd)
            fds[r] = pid
            pids.append(pid)
        open_fds = set(fds)
        capped = False
        while open_fds:
            left = wall_cap - (time.monotonic() - t0)
            if left <= 0:
                capped = True
                break
            ready, _, _ = select.select(list(open_fds), [], [], min(left, 5.0))
            for fd in ready:
                try:
                    msg = recv(fd)
                except EOFError:
                    raise HarnessError(f"worker {fds[fd]} died")
                if msg is None:
                    open_fds.discard(fd)
                    continue
                if on_result(*msg):
                    return capped
        return capped
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in pids:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        for fd in fds:
            os.close(fd)
        time.sleep(0.02)
        shutil.rmtree(root, ignore_errors=True)


# --------------------------------------------------------------------------------
# Minimisation

def generic_shrinks(spec, path=()):
    """Yield smaller variants of a JSON-able spec: drop list elements, under the keys the world declares."""
    if isinstance(spec, list):
        n = len(spec)
        size = n // 2
        while size >= 1:
            for start in range(0, n, size):
                yield spec[:start] + spec[start + size:]
            size //= 2
        for i, x in enumerate(spec):
            for y in generic_shrinks(x):
                yield spec[:i] + [y] + spec[i + 1:]
    elif isinstance(spec, dict):
        for k in spec:
            if isinstance(spec[k], (list, dict)):
                for y in generic_shrinks(spec[k]):
                    yield {**spec, k: y}


def minimise(world, spec, kind, scratch, budget_s=45.0, budget_n=400):
    t0 = time.monotonic()
    n = 0
    improved = True
    while improved:
        improved = False
        for cand in world.shrink(spec):
            if n >= budget_n or time.monotonic() - t0 > budget_s:
                return spec, n
            if cand == spec:
                continue
            n += 1
            res = execute(world, cand, scratch)
            v = res["violation"]
            if v and v["kind"] == kind:
                spec = json.loads(json.dumps(cand))
                improved = True
                break
    return spec, n


# --------------------------------------------------------------------------------

def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f"{path}.tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.replace(tmp, path)


def replay(world, path, verbose=True):
    with open(path) as f:
        data = json.load(f)
    root = fresh_dir(scratch_root())
    try:
        res = execute(world, data["spec"], os.path.join(root, "w0"), verbose=verbose)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return data, res


def run_check(world, tier, seed, nruns=None, workers=None, wall_cap=None, out=None):
    t0 = time.monotonic()
    workers = workers or int(os.environ.get("SIM_WORKERS", "8"))
    nruns = nruns or (world.quick_runs if tier == "quick" else world.thorough_runs)
    wall_cap = wall_cap or (420 if tier == "quick" else 3600)
    print(f"{world.id}: seed={seed} tier={tier} runs={nruns} workers={workers}", flush=True)

    agg = dict(evals=0, faults=collections.Counter(), probes=collections.Counter(), simtime=0.0, steps=0)
    digests = set()
    nontrivial_digests = set()
    samples = []
    bad = []       # (index, result)
    harness = []

    def on_result(i, res):
        agg["evals"] += 1
        agg["faults"].update(res["faults"])
        agg["probes"].update(res["probes"])
        agg["simtime"] += res["simtime"]
        agg["steps"] += res["steps"]
        digests.add(res["digest"])
        if res["nontrivial"]:
            nontrivial_digests.add(res["digest"])
        if res.get("head"):
            samples.append({"run": i, "events": res["nlog"], "first_events": [x[:300] for x in res["head"]]})
        if res["harness"]:
            harness.append((i, res["harness"]))
            return len(harness) >= 3
        if res["violation"]:
            bad.append((i, res))
            return True
        return False

    capped = run_pool(world, seed, nruns, workers, wall_cap, on_result)
    explore_s = time.monotonic() - t0

    # listed findings: each is replayed every time
    known_lines = []
    root = fresh_dir(scratch_root())
    try:
        for f in load_known():
            if f["property"] != world.id:
                continue
            res = execute(world, f["spec"], os.path.join(root, "k"))
            if res["harness"]:
                harness.append((f"finding {f['name']}", res["harness"]))
            elif res["violation"] and res["violation"]["kind"] == f["kind"]:
                known_lines.append(f"KNOWN-FINDING: property={world.id} {f['what']}")
            elif res["violation"]:
                bad.append((f"finding {f['name']}", dict(res, spec=f["spec"])))
    finally:
        shutil.rmtree(root, ignore_errors=True)

    violations = 0
    replay_path = None
    unstable = []
    if bad:
        root = fresh_dir(scratch_root())
        try:
            for i, res in bad:
                spec = res.get("spec") or spec_for(world, seed, i)
                v = res["violation"]
                again = execute(world, spec, os.path.join(root, "m"))
                if not (again["violation"] and again["violation"]["kind"] == v["kind"]):
                    unstable.append((i, v, again["violation"], again["harness"]))
                    continue
                if v.get("hang"):
                    small, tried = spec, 0
                else:
                    small, tried = minimise(world, spec, v["kind"], os.path.join(root, "m"))
                final = execute(world, small, os.path.join(root, "m"))
                d = os.path.join(out or VERIF, "replays")
                replay_path = os.path.join(d, f"{world.id}-seed{seed}-run{str(i).replace(' ', '_')}.json")
                write_json(replay_path, {"property": world.id, "seed": seed, "run": i, "kind": v["kind"],
                                         "message": (final["violation"] or v)["message"], "digest": final["digest"],
                                         "faults": final["faults"], "spec": small, "trace": final["log"],
                                         "minimiser_attempts": tried})
                violations += 1
                break
        finally:
            shutil.rmtree(root, ignore_errors=True)

    wall = time.monotonic() - t0
    evidence = {
        "property": world.id, "tier": tier, "seed": seed, "level": world.level,
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(nontrivial_digests),
            "rule": world.rule,
            "samples": sorted(samples, key=lambda s: s["run"])[:4],
            "simulated_runs_per_hour": round(agg["evals"] / max(explore_s, 1e-6) * 3600),
            "seeds_per_hour": round(agg["evals"] / max(explore_s, 1e-6) * 3600),
            "simulated_seconds_covered": round(agg["simtime"], 1),
            "intercepted_events": agg["steps"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes_reached": dict(sorted(agg["probes"].items())),
            "distinct_histories": len(digests),
            "distinct_histories_measure": "number of different SHA-256 digests of the complete event log of a run",
            "runs_requested": nruns, "stopped_by_wall_cap": bool(capped), "stopped_by_violation": bool(bad),
            "real_components": world.real, "stub_components": world.stubs,
        },
        "assumptions": world.assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    write_json(os.path.join(out or VERIF, "evidence", f"{world.id}.json"), evidence)

    print(f"{world.id}: {agg['evals']} runs, {len(digests)} distinct histories, {len(nontrivial_digests)} non-trivial, "
          f"{agg['steps']} events, {wall:.1f} s")
    brief = collections.Counter()
    for k, v in agg["faults"].items():
        brief[k.split("@")[0]] += v
    print(f"{world.id}: faults {dict(sorted(brief.items()))}")
    print(f"{world.id}: probes {dict(sorted(agg['probes'].items()))}")
    for line in known_lines:
        print(line)
    if violations:
        # the replay file must reproduce in a fresh process
        env = dict(os.environ)
        p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "run.py"), world.id, "--replay", replay_path],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with open(replay_path) as f:
            data = json.load(f)
        print(f"{world.id}: {data['kind']}: {data['message']}")
        print(f"{world.id}: replay in a fresh process: {'reproduced' if p.returncode == 1 else f'NOT reproduced (exit {p.returncode})'}")
        print(f"VIOLATION property={world.id} replay={replay_path}", flush=True)
        return 1
    for i, v, again, h in unstable:
        print(f"{world.id}: HARNESS: run {i} did not reproduce: first {v}, then {again} {h or ''}")
    for i, tb in harness:
        print(f"{world.id}: HARNESS: run {i}:\n{tb}")
    if unstable or harness:
        return 2
    if agg["evals"] < min(nruns, world.min_runs):
        print(f"{world.id}: HARNESS: only {agg['evals']} of {nruns} runs finished before the wall cap")
        return 2
    return 0


class World:
    id = None
    level = "exploration"
    quick_runs = 400
    thorough_runs = 8000
    min_runs = 50
    rule = ""
    real = []
    stubs = []
    assumptions = []

    def gen(self, rng, index):
        raise NotImplementedError

    def run(self, spec, ctx):
        raise NotImplementedError

    def shrink(self, spec):
        yield from generic_shrinks(spec)


def drop_each(lst):
    n = len(lst)
    size = max(1, n // 2)
    while n and size >= 1:
        for s in range(0, n, size):
            yield lst[:s] + lst[s + size:]
        size //= 2


def shrink_ops(spec, key="ops", sub=("faults",)):
    for x in drop_each(spec[key]):
        yield {**spec, key: x}
    for i, op in enumerate(spec[key]):
        for s in sub:
            if isinstance(op, dict) and op.get(s):
                for y in drop_each(op[s]):
                    yield {**spec, key: spec[key][:i] + [{**op, s: y}] + spec[key][i + 1:]}
