"""Writes MANIFEST.json from the worlds that exist."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(here, "sim", "run.py")).read()
worlds = sorted(re.findall(r'"(C\d\d)":', src))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]

NOTES = {
 "C01": ("deterministic simulation: seeded histories of edits, process lifetimes and mid-import edits over source trees; results compared with a reference model", "exploration",
         "Real mcpyrate and real CPython import system in forked processes under a simulated clock. Assumes successive versions of a file differ by at least one second in mtime; known finding F1 is excluded from the random histories and replayed separately."),
 "C02": ("deterministic simulation: seeded histories with crashes and I/O faults; macro calls recorded and compared with a cache model", "exploration",
         "Counts real macro and dialect calls per process lifetime against a model of what is cached."),
 "C03": ("deterministic simulation with fault injection: I/O errors, torn and short writes, crashes, damaged caches, interleaved importing processes", "fault_enumeration",
         "Faults are placed at every kind of file system call mcpyrate and CPython make during an import, at sampled positions; CPython does not notice a truncated byte code body, so byte code bodies are damaged only where CPython can notice."),
 "C04": ("deterministic simulation: capture in one process lifetime, thaw in later ones, with crashes and damaged caches in between", "exploration",
         "Values are drawn from nested containers and instances; macros from own and captured modules. Process lifetimes are real processes."),
 "C05": ("deterministic simulation: seeded histories of capture, discard, garbage collection and re-run, and interleaved threads, against a model of object identity", "exploration",
         "Thread interleavings are decided line by line by the simulator. Garbage collection and address reuse are real, under CPython's allocator."),
 "C06": ("deterministic simulation with fault injection: exceptions at every call-out of a multi-phase compilation; module table compared with its state before", "fault_enumeration",
         "Call-outs are statements in phase bodies, macro functions, dialect methods and file accesses."),
 "C07": ("deterministic simulation with fault injection: exceptions in macros, nested expansions, quotes, hooks and output streams; differential comparison with a fresh expander", "fault_enumeration",
         "State is judged by the behaviour of later expansions; the expander's public attributes are looked at only where they are documented."),
 "C08": ("deterministic simulation with fault injection: exceptions at each macro of nested use sites; report compared with the simulator's record of active macros", "fault_enumeration",
         "File and line of each use site are known from the generator."),
 "C09": ("deterministic simulation of threads: real threads parked and released one at a time at line boundaries; results compared with sequential runs", "exploration",
         "Switches happen at line events in mcpyrate and in generated code, and at import lock operations; switches inside C code and within a line are not explored."),
 "C10": ("deterministic simulation with fault injection: seeded console sessions with failing inputs against a model of the session", "exploration",
         "MacroConsole is real; the terminal is a stub. The IPython console needs IPython, which is not installed here, and is not covered."),
 "C11": ("deterministic simulation with fault injection: random trees, races and I/O errors at file system calls; whole-tree comparison", "fault_enumeration",
         "Deletions outside the scratch tree are refused by an audit hook and recorded; the process runs as an unprivileged user."),
 "C12": ("deterministic simulation with fault injection: seeded histories of creating, running and deleting modules with failures, against a model of the module table", "exploration",
         "Public functions only; exceptions arise in the code that runs and in module creation."),
 "C13": ("deterministic simulation: seeded histories of symbol generation with repeating entropy, frozen clock, re-seeded random and forks", "exploration",
         "The entropy source is replaced by one the simulator controls, which repeats itself at chosen times."),
 "C14": ("deterministic simulation with fault injection: exceptions and odd results at each dialect stage; applied stages compared with a model", "fault_enumeration",
         "Dialects are generated; the source text they see is compared with the model's."),
 "C15": ("deterministic simulation with fault injection: program launches over histories of edits, crashes, I/O faults and damaged caches", "exploration",
         "The launcher's main function is called in a forked process; differences from plain Python are judged against what `python` itself does for the same program without macros."),
 "C16": ("deterministic simulation: seeded histories of activation, deactivation, imports and failures against a model", "exploration",
         "Modules deactivated while their macro-enabled byte code is cached are outside the statement (documented behaviour)."),
}
checks = []
na = []
PURE = "A pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour for a simulator to decide. Deciding it would be plain input generation, which is not this technique."
for p in props:
    i = p["id"]
    if i in worlds:
        t, level, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": t, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": PURE if i >= "C17" else "check under construction"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import ast, ctypes, sys; assert sys.version_info[:2] >= (3, 10)'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator uses seams of CPython (audit hooks, os.stat, tracing, fork) and module-level names. Each check is `./check ID quick|thorough`; `./check ID --replay FILE` replays a violation. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
