"""C13: generated names are unique, under an entropy source the simulator controls."""
import os
import random
import time
import uuid

from . import core, proc, sched


class Entropy:
    """A stream of 16-byte blocks. `plan` says for each block: fresh, a repeat of an earlier one, or an error."""
    def __init__(self, seed, repeat, err, flip):
        self.rng = core.make_rng("blocks", seed)
        self.choice = core.make_rng("choice", seed, repeat, err)
        self.repeat, self.err, self.flip = repeat, err, flip
        self.seen = []
        self.run = 0
        self.repeats = 0
        self.errors = 0

    def block(self):
        if self.err and self.choice.random() < self.err:
            self.errors += 1
            raise OSError(11, "no entropy (injected)")
        if self.seen and self.run < 40 and self.choice.random() < self.repeat:
            self.run += 1
            self.repeats += 1
            back = self.choice.choice((1, 1, 2, 10, 1000, len(self.seen)))
            return self.seen[-min(back, len(self.seen))]
        self.run = 0
        b = self.rng.randbytes(16)
        if self.flip is not None:   # differs from the other processes' block in one bit only
            x = int.from_bytes(b, "big") ^ (1 << self.flip)
            b = x.to_bytes(16, "big")
        self.seen.append(b)
        return b

    def urandom(self, n):
        out = b""
        while len(out) < n:
            out += self.block()
        return out[:n]


# The bits uuid4 overwrites.
FIXED_BITS = {127 - (6 * 8 + i) for i in range(4)} | {127 - (8 * 8 + i) for i in range(2)}


def child(ch, job):
    from mcpyrate import gensym
    ent = Entropy(*job["entropy"])
    os.urandom = ent.urandom
    random._urandom = ent.urandom
    random.seed(12345)
    if job["freeze"]:
        time.time = lambda: 2e9
        time.time_ns = lambda: 2 * 10**18
        time.monotonic = lambda: 5.0
        time.monotonic_ns = lambda: 5 * 10**9
        time.perf_counter = lambda: 5.0
        time.perf_counter_ns = lambda: 5 * 10**9
        uuid._generate_time_safe = None
        uuid._UuidCreate = None
        uuid._node = 1
        os.getpid = lambda: 4242
    out = []
    switches = 0
    for op in job["ops"]:
        if op[0] == "reseed":
            random.seed(op[1])
        elif op[0] == "gensym":
            for _ in range(op[2]):
                try:
                    out.append((op[1], gensym(*([op[1]] if op[1] is not None or op[3] else []))))
                except OSError:
                    out.append((op[1], None))
        elif op[0] == "threads":
            s = sched.Sched([os.path.join(core.REPO, "mcpyrate") + os.sep], op[2])

            def body(base, n):
                for _ in range(n):
                    try:
                        out.append((base, gensym(base)))
                    except OSError:
                        out.append((base, None))
            for base, n in op[1]:
                s.add(lambda base=base, n=n: body(base, n))
            for t in s.run():
                if t.error is not None:
                    raise t.error
            switches += s.switches
        elif op[0] == "expand":
            from mcpyrate.quotes import capture_value
            import ast
            try:
                out.append((None, "capture " + ast.dump(capture_value(op[1], "x"))))
            except OSError:
                out.append((None, None))
    return {"out": out, "repeats": ent.repeats, "errors": ent.errors, "switches": switches}


class C13(core.World):
    id = "C13"
    quick_runs = 6000
    thorough_runs = 60000
    rule = ("each run draws 1 to 4 process lifetimes with the same history of symbol generations (various base names), re-seedings of `random` and hygienic "
            "captures, also in several threads with a schedule by line; entropy repeats earlier blocks at chosen times, or fails, or differs between processes in a single bit; clock, process id and "
            "`random` are the same in all processes; non-trivial: the entropy source repeated itself or failed, or several processes ran")
    real = ["mcpyrate.gensym, mcpyrate.quotes.capture_value", "uuid, random (CPython)"]
    stubs = ["os.urandom: blocks chosen by the simulator", "clock, process id: frozen in some runs"]
    assumptions = ["the entropy source is not stuck forever", "processes have different entropy"]

    def gen(self, rng, index):
        n = rng.choice((1, 2, 2, 3, 4))
        ops = []
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            if r < 0.2:
                ops.append(["reseed", rng.choice((0, 0, 1, 7))])
            elif r < 0.85:
                base = rng.choice((None, "", "x", "x", "kitty", "_", "é", "gensym", "a b", "x_0123456789abcdef0123456789abcdef", "class"))
                ops.append(["gensym", base, rng.choice((1, 1, 2, 5, 50, 300)) if rng.random() < 0.97 else 3000, rng.random() < 0.5])
            elif r < 0.93:
                base = rng.choice((None, "", "x", "kitty"))
                ops.append(["threads", [[base if rng.random() < 0.8 else "y", rng.randint(1, 12)] for _ in range(rng.choice((2, 2, 3)))],
                            [[rng.choice((1, 1, 2, 3, 5, 8)), rng.randrange(3)] for _ in range(rng.randint(1, 60))]])
            else:
                ops.append(["expand", rng.choice((1, "s", [1, 2]))])
        mode = rng.choice(("own", "own", "flip"))
        repeat = rng.choice((0, 0, 0.05, 0.3, 0.6))
        err = rng.choice((0, 0, 0, 0.05))
        procs = []
        bits = [b for b in range(128) if b not in FIXED_BITS]
        flips = [None] + rng.sample(bits, n - 1)
        for i in range(n):
            procs.append([f"{index}" if mode == "flip" else f"{index}.{i}", repeat, err, flips[i] if mode == "flip" else None])
        return {"ops": ops, "procs": procs, "freeze": rng.random() < 0.7}

    def run(self, spec, ctx):
        everything = {}
        for k, ent in enumerate(spec["procs"]):
            p = proc.run_alone(ctx, f"p{k}", child, {"ops": spec["ops"], "entropy": ent, "freeze": spec["freeze"]}, entropy=k)
            r = p.result
            if r["repeats"]:
                ctx.fault("entropy-repeats", r["repeats"])
                ctx.nontrivial = True
            if r["errors"]:
                ctx.fault("entropy-fails", r["errors"])
                ctx.nontrivial = True
            if r["switches"]:
                ctx.fault("thread-switch", r["switches"])
                ctx.nontrivial = True
            for i, (base, sym) in enumerate(r["out"]):
                ctx.steps += 1
                if sym is None:
                    ctx.check(r["errors"] > 0, "fails", "no symbol generated")
                    continue
                if sym in everything:
                    ctx.violate("duplicate" if everything[sym][0] == k else "duplicate-across-processes",
                                f"process {k}, symbol {i}: {sym!r} was generated before, by process {everything[sym][0]}, symbol {everything[sym][1]}")
                everything[sym] = (k, i)
                if sym.startswith("capture "):
                    continue
                prefix = "gensym_" if base is None else base + "_" if base else ""
                ctx.check(sym.startswith(prefix) and len(sym) > len(prefix), "wrong-name", f"gensym({base!r}) gave {sym!r}")
                if prefix and prefix.isidentifier():
                    ctx.check(sym.isidentifier(), "not-an-identifier", f"gensym({base!r}) gave {sym!r}")
            ctx.event(f"p{k}: {len(r['out'])} symbols, {r['repeats']} repeats, {r['errors']} errors, {core.hashlib.sha256(repr(r['out']).encode()).hexdigest()[:12]}")
        if len(spec["procs"]) > 1:
            ctx.nontrivial = True
            ctx.probe("several-processes")
        if spec["freeze"]:
            ctx.probe("frozen-clock")
