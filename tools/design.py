"""Writes DESIGN.md: the prose below, and tables taken from the checks, known_findings.json and seeded/."""
import ast
import json
import pathlib
import re
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE / "tools"))
import gen  # noqa: E402

INTRO = """# Design

The subject is sd-mecha: recipes (graphs of merge methods over model files, dictionaries and literals) that are checked when
they are built and evaluated key by key, in parallel, from lazily read safetensors files into a safetensors file or a mapping.
The properties cover each part of this: evaluation (C01, C02, C15, C30), scheduling (C03, C29), files (C04, C05, C07, C09, C11, C27),
side effects (C06, C26), failures and reports (C08, C28), the typing of recipes (C12, C14, C33), the text format (C10),
configs and conversions (C13, C16–C19, C24), memory (C25) and the formulas of all built-in methods (C20–C23).

## Method

Every property is decided by **runtime monitoring**: the real library is imported from /repo's working tree and runs generated
workloads, and an oracle that is independent of the library judges what was observed. There is no compiled code in sd-mecha, so
the compiler sanitizers have nothing to instrument; what they would give is built here for Python:

* *race detection* – `mon/sched.py` puts a trace function into every thread which injects random delays and forced switches at
  random source lines of the tree under test, along with tiny interpreter switch intervals. Each run is compared bit for bit with the sequential run; a
  recorder logs (thread, key) events, and the number of *distinct* interleavings is evidence (C03, C04, C05, C19, C26, C29).
* *leak detection* – open descriptors and threads are read from /proc/self (C07); live tensors are counted through weak references, and peak
  resident memory is read from the kernel in forked children, with address space limits (C25).
* *memory/state integrity* – digests of all inputs, registries and process-wide state before and after (C06, C09, C26).
* *fault injection* – failing methods, outputs, progress bars, cut and corrupted files, a file size limit (`RLIMIT_FSIZE`) in place of a
  full disk (C07, C08, C09).
* *reference oracles* – an independent interpreter of recipes (`mon/dag.py`), strict safetensors reader/writer (`mon/util.py`), Python's
  `inspect.Signature.bind`, breadth first search, PyYAML on the written text, numpy/scipy formulas (`mon/numeric.py`, C20–C23), a
  table of layer names of the public checkpoint formats (`mon/naming.py`).

**No hooks** are committed to /repo: monitors attach from outside, through the public API (methods, outputs and progress bars are arguments
of the library) and through `threading.settrace`. All commits in /repo are repairs.

### Runner

`check.py ID` runs `mon/core.py`: directed cases first, then weighted random scenarios until both the time budget of the tier is used
*and* every counter of the module's `REQUIRED` has reached its minimum (a run that could not observe enough fails as a harness error
rather than passing silently). The seed of each case derives from `VERIF_SEED` and the case number, so that `--replay FILE` runs a single case again. A
watchdog turns a case that takes 240 s into a violation. Any exception that a case does not expect is a violation, with its
traceback in the replay file. The evidence file holds the counters, the number of distinct cases (by the signature that the module's rule
defines), of non-trivial ones, and samples of what the monitors saw.

Tiers: `VERIF_TIER=quick` takes 12–18 s of cases per check (plus 5 s to import torch); the thorough command runs the same generators
for 300–1200 s (60 times the cases and larger graphs by chance). Levels are all sampled executions: *held on everything explored*; bounds are those of the generators.

### Judging behaviour, not text

The checks use the public API, the registries and the extension points, and do not match source text, private names or messages (C28 only judges
which keys and models a message *names*). Where correct implementations may differ, oracles accept all of them: any of
several shortest chains (C13), any of several failing keys (C08), rounding ties (C22, C23), ties between configs (C18), order of evaluation (values are
small dyadic numbers, so every correct order gives the same floating point result, C01).
"""

ALARMS = """## False alarms met while building, and what was done

* **C22 truncate_rank**: the method uses a randomized SVD; demanding the optimal distance raised alarms. The bound is now the known one of the randomized algorithm, and exact only where the rank is full.
* **C23 clamp / C22 regions, filters**: rounding ties at bounds are not judged.
* **C17/C22 low precision**: cached rotations are stored in half precision; judged at 0.03.
* **C25 resident memory**: glibc arenas and the torch thread pool add noise. Children set `mallopt`, use one torch thread, repeat a
  suspicious measurement, and leave 24 MB or a third of the added data as slack. A draft that measured `tracemalloc` peaks is only used in C27, for calls without errors, and repeated before it is believed.
* **C26 random state**: `copy_distribution` and `truncate_rank` take no seed and draw from torch's generator by design: the state of the generator is not compared after them.
* **C20 model_ema**: the first expectation misread `decay`; corrected after reading the method's documentation.
* **C21 vote_sgn**: the comments in the code say the opposite of the behaviour that the repository's own test pins (False elects by the count of signs, True by mass). The tested behaviour is claimed.
* **C18**: when configs match equally many keys any of them, or none, is accepted: the search stops early by design.
* **C24 exchange_ema**: a key whose counterpart is in the config but not in the model has no value; this is consistent with C01 and not judged as an error.
* **C15**: numbers given to tensor parameters go through float32 by design; only int and float parameters are exact.
* A property "the work of a merge is linear in the number of keys" was drafted (counting executed lines) and dropped: `ModelComponent.keys()` is evaluated per key
  in `pick_component`/`omit_component`, so the base code is quadratic there without this being observable as wrong behaviour; a bound that tolerates it detects little.
* A repair of my own (the depth visitor that counts dictionaries of nodes, da45ee6) visited every tensor of in-memory models: C18's watchdog reported it, and 9223b1f corrects it.

## Limits

* Interleavings are those of CPython with the interpreter lock; switches are forced at source lines of the library, not inside torch or the kernel.
* Chains longer than the interpreter's recursion limit allows (about 250 methods) fail with RecursionError in the base code, and shared sub-recipes are
  evaluated once per use (exponential in nested diamonds). Neither is claimed: memory and values are (C25, C01).
* Only the CPU is present: devices are exercised as far as "cpu" allows; nothing is claimed about CUDA.
* Not claimed, because the base behaviour is undefined or a matter of taste: overlapping dropout beyond subset and rate, slerp of antipodal tensors, model stock with one
  delta, negative widths of tensor_sum on scalars, perpendicular_component with a zero direction (only finiteness), dtype of carried-over extra keys,
  keys with spaces/quotes/'=' in serialized dictionaries, the text encoding of YAML files, outputs that alias input tensors, running time, `fallback_model` in the
  stored recipe, structural merges of disjoint models, recipe nodes that several threads use at once.
"""


def module_consts(path):
    out = {}
    for n in ast.parse(path.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                if n.targets[0].id in ("SCENARIOS", "DIRECTED"):
                    out[n.targets[0].id] = [e.elts[0].value for e in ast.walk(n.value) if isinstance(e, ast.Tuple) and e.elts and isinstance(getattr(e.elts[0], "value", None), str)] or ["one for each method"]
                elif n.targets[0].id == "BUDGET":
                    out["BUDGET"] = eval(ast.unparse(n.value))
                elif n.targets[0].id == "REQUIRED":
                    out["REQUIRED"] = {k: v for d in ast.walk(n.value) if isinstance(d, ast.Dict) for k, v in zip([getattr(k, "value", None) for k in d.keys], [getattr(v, "value", None) for v in d.values]) if k}
    return out


FINDINGS_NOTE = """

Both are one-line repairs, made at first as fix commits and then reverted: files under examples/ count as test files, which commits here may not change.
The check recognizes exactly these two failures, reports them, replaces the wrong line in its own copy of the example and judges the rest of it as usual."""


def main():
    seeded = {}
    for d in sorted((HERE / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        seeded.setdefault(m["property"], []).append((d.name, m))
    fixes = {}
    known = json.loads((HERE / "known_findings.json").read_text())
    for line in known["fixed"]:
        m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", line)
        fixes.setdefault(m[1], []).append((m[2], m[3]))
    out = [INTRO, "## Properties\n"]
    for p, technique, note in sorted(gen.PROPS, key=lambda p: p[0]["id"]):
        c = module_consts(HERE / "props" / f"{p['id'].lower()}.py")
        q, t = c["BUDGET"]["quick"][1], c["BUDGET"]["thorough"][1]
        out.append(f"### {p['id']} – {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"* **Decided by** {technique}.\n* **Workload and oracle**: {c['RULE']}.")
        out.append(f"* **Scenarios**: {', '.join(x if isinstance(x, str) else x[0] for x in c.get('SCENARIOS', []) + c.get('DIRECTED', []))}. "
                   f"**Observed at least** (quick, else the run does not pass): {', '.join(f'{v} {k}' for k, v in c['REQUIRED'].items())}.")
        out.append(f"* **Why tests cannot settle it**: {p['why_tests_cant']}")
        out.append(f"* **Bounds and trust**: {note}" + (" Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "." if c["ASSUMPTIONS"] else ""))
        out.append(f"* **Cost**: {q} s of cases (quick), {t} s (thorough).")
        if p["id"] in fixes:
            out.append("* **Defects found and repaired**: " + "; ".join(f"{what} ({h})" for h, what in fixes[p["id"]]) + ".")
        for name, m in seeded.get(p["id"], []):
            out.append(f"* **Planted** `{name}`: {m['what_it_breaks']} (needs {m['needs']}).")
        out.append("")
    out.append("No property is listed under not_applicable: each one is observable in executions.\n")
    out.append("## Planted bugs\n\nEach patch applies to /repo's HEAD, passes the repository's stable tests and has a demonstration. "
               "The column says which check reports it; checks were strengthened until each one is caught by the check of its own property.\n")
    out.append("| planted | caught by |\n|---|---|")
    for pid in sorted(seeded):
        for name, m in seeded[pid]:
            out.append(f"| {name} | {', '.join(m.get('caught_by', [pid]))} |")
    out.append("\n" + ALARMS)
    out.append("## Known findings\n\n" + ("None is open: every genuine defect found so far was repaired (known_findings.json lists the commits)."
               if not known["findings"] else "\n".join(f"* **{f['property']}** `{f['key']}`: {f['what']}." for f in known["findings"]) + FINDINGS_NOTE) + "\n")
    (HERE / "DESIGN.md").write_text("\n".join(out))


if __name__ == "__main__":
    main()
# end
