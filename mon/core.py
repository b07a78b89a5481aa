"""Runtime-monitoring core: sections (workloads + oracles), verdicts, evidence.

A *section* is a function f(m, r, i): one workload case, numbered i, whose random choices all come
from the generator r (derived from VERIF_SEED, property, section and i, so any case can be replayed
alone).  It drives the real komm code and asks the monitor `m` to compare every observed event with
an independent oracle.  Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: a section observed nothing, or the watchdog fired).
"""
from __future__ import annotations

import collections
import contextlib
import hashlib
import itertools
import json
import math
import os
import pathlib
import pickle
import resource
import signal
import sys
import time
import traceback
import zlib

import numpy as np

from .scale import SCALE

ROOT = pathlib.Path(__file__).resolve().parent.parent
CASE_CPU_LIMIT = 60.0  # seconds of process CPU per case; normal cases need well under 3
SECTIONS: dict[str, list["Section"]] = collections.defaultdict(list)
RULES: dict[str, str] = {}
ASSUME: dict[str, list[str]] = {}


class Violation(Exception):
    def __init__(self, what, mech=None):
        super().__init__(what)
        self.mech = mech


class Hang(BaseException):
    pass


class Section:
    def __init__(self, prop, name, fn, quick, thorough, exhaustive, scaled=True):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.exhaustive, self.scaled = quick, thorough, exhaustive, scaled

    def count(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        if callable(n):
            return n()
        if self.exhaustive or not self.scaled:
            return n
        return n * SCALE.get(self.prop, (1, 1))[tier != "quick"]


def section(prop, quick=100, thorough=None, exhaustive=False, name=None, scaled=True):
    """Register f as a workload section of `prop` with that many cases per tier."""
    def deco(f):
        SECTIONS[prop].append(Section(prop, name or f.__name__, f, quick,
                                      thorough if thorough is not None else quick, exhaustive, scaled))
        return f
    return deco


def rule(prop, text, assume=()):
    RULES[prop] = text
    ASSUME[prop] = list(assume)


def short(x, limit=400):
    digits = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)  # for witnesses only; the limit komm runs under is put back
    try:
        if isinstance(x, np.ndarray):
            s = f"array{x.shape}:{x.dtype}:{x.tolist()!r}"
        else:
            s = repr(x)
    except Exception as e:  # a repr that raises must not hide the witness
        s = f"<{type(x).__name__} repr raised {type(e).__name__}>"
    finally:
        sys.set_int_max_str_digits(digits)
    return s if len(s) <= limit else s[:limit] + f"...[{len(s)}]"


def norm(x):
    """Plain-Python image of a result, for exact comparison regardless of numpy/py types."""
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, np.generic):
        return norm(x.item())
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(y) for y in x), key=repr)
    if isinstance(x, dict):
        return [[norm(k), norm(v)] for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))]
    if isinstance(x, float) and x == 0:
        return 0.0
    if isinstance(x, float) and x != x:
        return "nan"
    return x


class Monitor:
    def __init__(self, prop, tier, seed, muted=False):
        self.prop, self.tier, self.seed, self.muted = prop, tier, seed, muted
        self.thorough = tier == "thorough"
        self.compared = collections.Counter()
        self.cases = collections.Counter()
        self.trivial_cases = 0
        self.tags = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.exhausted = set()
        self._notes = {}
        self._trivial = False
        self._section = None

    # ---- called by sections
    def note(self, **kw):
        self._notes.update(kw)

    def trivial(self):
        self._trivial = True

    def tag(self, t, n=1):
        self.tags[t] += n

    def ok(self, cond, what, mech=None):
        self.compared[self._section] += 1
        if not cond:
            raise Violation(what() if callable(what) else what, mech)

    def eq(self, got, want, what, mech=None):
        self.compared[self._section] += 1
        g, w = norm(got), norm(want)
        if g != w:
            raise Violation(f"{what}: observed {short(got)} expected {short(want)}", mech)

    def shape(self, got, shape, what):
        self.compared[self._section] += 1
        if tuple(np.shape(got)) != tuple(shape):
            raise Violation(f"{what}: observed shape {np.shape(got)} expected {tuple(shape)}")

    def arr(self, got, want, what, mech=None):
        """Exact equality of arrays including shape (dtype free)."""
        self.compared[self._section] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            raise Violation(f"{what}: observed {short(g)} expected {short(w)}", mech)

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, mech=None):
        self.compared[self._section] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: observed shape {g.shape} expected {w.shape}", mech)
        if np.iscomplexobj(g) or np.iscomplexobj(w):
            with np.errstate(all="ignore"):
                good = bool(np.all(np.abs(g - w) <= atol + rtol * np.abs(w)))
        else:
            g, w = g.astype(float), w.astype(float)
            with np.errstate(all="ignore"):
                fin = np.isfinite(w)
                good = bool(np.all(np.where(fin, np.abs(g - w) <= atol + rtol * np.abs(w),
                                            (g == w) | (np.isnan(g) & np.isnan(w)))))
        if not good:
            raise Violation(f"{what}: observed {short(g)} expected {short(w)} "
                            f"(rtol {rtol}, atol {atol})", mech)

    def refuses(self, fn, what, mech=None):
        self.compared[self._section] += 1
        try:
            res = fn()
        except Exception:
            return
        raise Violation(f"{what}: not refused, returned {short(res, 150)}", mech)

    # ---- called by the runner
    def run_case(self, sec, i):
        self._section, self._notes, self._trivial = sec.name, {}, False
        self.cases[sec.name] += 1
        h = zlib.crc32(f"{sec.prop}/{sec.name}".encode())
        r = np.random.default_rng([self.seed, h, i])
        import komm
        komm.global_rng.set(np.random.default_rng([self.seed, h, i, 1]))
        bad = None
        old = signal.signal(signal.SIGPROF, _on_prof)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            with np.errstate(all="ignore"):
                sec.fn(self, r, i)
        except Violation as v:
            bad = (str(v), v.mech)
        except Hang:
            bad = (f"no progress: case still running after {CASE_CPU_LIMIT:.0f} s of CPU", "hang")
        except OSError:
            raise
        except RecursionError as e:
            bad = (f"unbounded recursion: {e}", None)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
            bad = (f"unexpected {type(e).__name__}: {short(str(e), 200)} [{where}]",
                   f"exc:{type(e).__name__}")
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        txt = None
        if self._notes:
            txt = "; ".join(f"{k}={short(v, 160)}" for k, v in self._notes.items())
        key = hashlib.blake2b(f"{sec.name}|{txt if txt else i}".encode(), digest_size=8).digest()
        if self._trivial:
            self.trivial_cases += 1
        else:
            self.keys.add(key)
        if len(self.samples) < 60 and (i < 2) and txt:
            self.samples.append({"section": sec.name, "case": i, "input": txt[:600]})
        if bad and not self.muted:
            self.violations.append({
                "property": self.prop, "section": sec.name, "case": i, "seed": self.seed,
                "tier": self.tier, "what": bad[0], "mech": bad[1],
                "inputs": {k: short(v, 4000) for k, v in self._notes.items()},
            })
        return bad

    def export(self):
        return {k: getattr(self, k) for k in
                ("compared", "cases", "trivial_cases", "tags", "keys", "samples", "violations", "exhausted")}

    def merge(self, d):
        for k in ("compared", "cases", "tags"):
            getattr(self, k).update(d[k])
        self.trivial_cases += d["trivial_cases"]
        self.keys |= d["keys"]
        self.samples += d["samples"]
        self.violations += d["violations"]


def _on_prof(signum, frame):
    raise Hang()


# ---------------------------------------------------------------- known findings
def load_findings(prop):
    """mech -> description of the findings recorded (not repaired) for prop."""
    out = {}
    p = ROOT / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("finding:"):
                f = dict(t.split("=", 1) for t in line.split()[1:3])
                if f.get("property") == prop:
                    out[f["mech"]] = line.split(None, 3)[3]
    return out


# ---------------------------------------------------------------- runner
def _worker(prop, tier, seed, w, nw, deadline, only, conn):
    from . import observe
    if not os.environ.get("MON_DEBUG"):  # progress bars of the code under test
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
    m = Monitor(prop, tier, seed)
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    cap = 12 << 30 if hard == resource.RLIM_INFINITY else min(hard, 12 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (cap, hard))
    secs = [s for s in SECTIONS[prop] if only is None or s.name in only]
    todo = {s.name: s.count(tier) for s in secs}
    findings = load_findings(prop)
    stopped, badcount = set(), collections.Counter()
    # round-robin in proportion to section size so that a truncated run is balanced
    order = sorted(((i + 0.5) / todo[s.name], k, i) for k, s in enumerate(secs) for i in range(todo[s.name]))
    done = True
    for pos, (_, k, i) in enumerate(order):
        if pos % nw != w:
            continue
        s = secs[k]
        if s.name in stopped:
            continue
        if time.monotonic() > deadline:
            done = False
            break
        bad = m.run_case(s, i)
        if bad and bad[1] not in findings:
            badcount[s.name] += 1
            if badcount[s.name] >= 3 or bad[1] == "hang":
                stopped.add(s.name)
            if sum(badcount.values()) >= 8 or bad[1] == "hang":
                break
    d = m.export()
    d["done"] = done
    d["events"] = observe.EVENTS
    d["extra"] = observe.EXTRA
    os.write(conn, b"")
    with os.fdopen(conn, "wb") as f:
        pickle.dump(d, f)


def run(prop, tier, seed, nworkers=None, only=None, soft=None, hard=860.0):
    from . import observe
    t0 = time.monotonic()
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    soft = soft or (150.0 if tier == "quick" else 620.0)
    deadline = t0 + soft
    sys.stdout.flush()
    procs = []
    for w in range(nworkers):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            err = os.dup(2)
            try:
                os.close(rd)
                _worker(prop, tier, seed, w, nworkers, deadline, only, wr)
            except BaseException:
                os.dup2(err, 2)
                traceback.print_exc()
                code = 3
            sys.stderr.flush()
            os._exit(code)
        os.close(wr)
        procs.append((pid, rd))
    m = Monitor(prop, tier, seed)
    events, extra = collections.Counter(), collections.Counter()
    trouble, complete = [], True
    import select
    bufs = {rd: b"" for _, rd in procs}
    open_ = set(bufs)
    while open_:
        left = t0 + hard - time.monotonic()
        if left <= 0:
            for pid, _ in procs:
                with contextlib.suppress(ProcessLookupError):
                    os.kill(pid, signal.SIGKILL)
            trouble.append("wall-clock watchdog fired")
            break
        rl, _, _ = select.select(list(open_), [], [], min(left, 5))
        for rd in rl:
            b = os.read(rd, 1 << 20)
            if b:
                bufs[rd] += b
            else:
                open_.discard(rd)
    for pid, rd in procs:
        _, st = os.waitpid(pid, 0)
        os.close(rd)
        if st != 0:
            trouble.append(f"worker ended with status {st}")
        if bufs[rd]:
            try:
                d = pickle.loads(bufs[rd])
            except Exception:
                trouble.append("worker result unreadable")
                continue
            m.merge(d)
            events.update(d["events"])
            extra.update(d["extra"])
            complete &= d["done"]
    return m, events, extra, trouble, complete, time.monotonic() - t0


def main(prop, tier, seed, only=None, nworkers=None):
    m, events, extra, trouble, complete, wall = run(prop, tier, seed, nworkers, only)
    findings = load_findings(prop)
    new = [v for v in m.violations if v["mech"] not in findings]
    seen = {v["mech"]: v for v in m.violations if v["mech"] in findings}
    secs = [s for s in SECTIONS[prop] if only is None or s.name in only]
    rng_order = sorted(m.samples, key=lambda s: (s["case"], s["section"]))
    cov = {
        "evaluations": int(sum(m.cases.values())),
        "distinct_nontrivial": len(m.keys),
        "rule": RULES.get(prop, "") + " A case is non-trivial unless its section marks it degenerate; "
                "distinctness is by the noted inputs (or section and case number).",
        "samples": rng_order[:10] or [{"section": s.name, "case": 0} for s in secs][:3],
        "oracle_comparisons": int(sum(m.compared.values())),
        "sections": {s.name: {"cases": int(m.cases[s.name]), "comparisons": int(m.compared[s.name])} for s in secs},
        "api_events": {k: int(v) for k, v in events.most_common(60)},
        "api_events_total": int(sum(events.values())),
        "tags": {k: int(v) for k, v in m.tags.most_common(80)},
        "all_planned_cases_run": bool(complete),
    }
    cov.update({k: int(v) for k, v in extra.items()})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUME.get(prop) or ["the oracle's own reference computation, NumPy and the interpreter are trusted"],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    if only is None:
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False) + "\n")
    for mech, v in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={prop} {findings[mech]} [{v['what'][:160]}]")
    if new:
        rd = ROOT / "evidence" / "replay"
        rd.mkdir(parents=True, exist_ok=True)
        shown = set()
        for v in sorted(new, key=lambda v: (v["case"], v["section"])):
            if v["section"] in shown:
                continue
            shown.add(v["section"])
            path = rd / f"{prop}-{v['section']}-{v['case']}-{seed}.json"
            path.write_text(json.dumps(v, indent=1, ensure_ascii=False) + "\n")
            print(f"VIOLATION property={prop} replay={path.relative_to(ROOT)}")
            print(f"  section {v['section']} case {v['case']}: {v['what'][:700]}")
        return 1
    silent = [s.name for s in secs if m.compared[s.name] == 0]
    if trouble or silent:
        print(f"INCONCLUSIVE property={prop}: {'; '.join(trouble)}"
              f"{' sections that observed nothing: ' + ', '.join(silent) if silent else ''}")
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed}: {cov['evaluations']} cases, "
          f"{cov['oracle_comparisons']} oracle comparisons, {cov['api_events_total']} API events, {wall:.1f} s"
          + ("" if complete else " (truncated by the time budget)"))
    return 0


def replay(path):
    v = json.loads(pathlib.Path(path).read_text())
    m = Monitor(v["property"], v["tier"], v["seed"])
    sec = next(s for s in SECTIONS[v["property"]] if s.name == v["section"])
    bad = m.run_case(sec, v["case"])
    print(json.dumps(m.violations or {"replay": "held"}, indent=1, ensure_ascii=False))
    return 1 if bad else 0
