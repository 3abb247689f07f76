"""Shared machinery of the monitors: event recording at the client boundary,
verdicts, replay files, evidence.

A check module defines
    RULE      how its cases are made and what makes one non-trivial
    QUICK, THOROUGH   number of cases per tier
    REQUIRED  {event name: minimum count} below which a run is inconclusive
    case(m, rng, idx)   one execution of the real code under the oracle
and optionally prepare(tier) (run once, before the workers are forked) and
finish(...).
"""
import collections
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The oracle rejected what it observed."""

    def __init__(self, mechanism, message):
        super().__init__(f"{mechanism}: {message}")
        self.mechanism = mechanism
        self.message = message


class CaseTimeout(BaseException):
    pass


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def short(x, limit=400):
    """Readable, bounded rendering of a value for replay files."""
    try:
        if hasattr(x, "toarray"):
            x = x.toarray()
        if isinstance(x, np.ndarray):
            s = np.array2string(x, threshold=40, precision=17)
        else:
            s = repr(x)
    except Exception as e:  # noqa
        s = f"<unprintable {type(x).__name__}: {e}>"
    return s if len(s) <= limit else s[:limit] + "..."


class Monitor:
    """Observes one case: records every call of the library as an event and
    every decision of the oracle."""

    def __init__(self, prop, tier, seed, idx):
        self.prop, self.tier, self.seed, self.idx = prop, tier, seed, idx
        self.events = collections.Counter()
        self.tops = {}
        self.keys = set()
        self.is_nontrivial = False
        self.notes = {}
        self.log = []

    # -- describing the case -------------------------------------------------
    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = short(v, 3000)

    def key(self, *parts):
        """Identity of the case (for counting distinct ones)."""
        h = hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
        self.keys.add(h)

    def nontrivial(self, cond=True):
        self.is_nontrivial = self.is_nontrivial or bool(cond)

    def seen(self, name, n=1):
        self.events[name] += n

    def top(self, name, n):
        """The largest value of something, over the run."""
        self.tops[name] = max(self.tops.get(name, 0), int(n))

    # -- observing -----------------------------------------------------------
    def call(self, label, fn, *args, **kw):
        """Run one public operation; any exception on a valid request is a
        violation."""
        self.events["call:" + label] += 1
        if len(self.log) < 400:
            self.log.append(label)
        try:
            return fn(*args, **kw)
        except Violation:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]
            )
            raise Violation(
                f"{label}-raised",
                f"valid request raised {type(e).__name__}: {e} [{where}]",
            )

    def expect_raises(self, label, exc, fn, *args, **kw):
        self.events["reject:" + label] += 1
        if len(self.log) < 400:
            self.log.append("reject " + label)
        try:
            r = fn(*args, **kw)
        except exc:
            return
        except Exception as e:
            raise Violation(
                f"{label}-wrong-error",
                f"invalid request raised {type(e).__name__}: {e} instead of "
                f"{exc.__name__}; args={short(args)} {short(kw)}",
            )
        raise Violation(
            f"{label}-accepted",
            f"invalid request accepted; args={short(args)} {short(kw)} "
            f"result={short(r)}",
        )

    # -- deciding ------------------------------------------------------------
    def check(self, cond, mechanism, message="", **data):
        self.events["decided:" + mechanism] += 1
        if not cond:
            extra = " ".join(f"{k}={short(v)}" for k, v in data.items())
            raise Violation(mechanism, f"{message} {extra}".strip())

    def close(self, got, want, mechanism, message="", atol=1e-9, rtol=0.0,
              **data):
        """Numeric agreement, shape included; non-finite values never agree."""
        self.events["decided:" + mechanism] += 1
        g, w = dense(got), dense(want)
        if g.shape != w.shape:
            raise Violation(
                mechanism, f"{message} shape {g.shape} != expected {w.shape}"
            )
        if g.size == 0:
            return
        if not np.all(np.isfinite(g)):
            raise Violation(mechanism, f"{message} non-finite values "
                            f"got={short(g)} want={short(w)}")
        err = np.abs(g - w)
        lim = atol + rtol * np.abs(w)
        if np.any(err > lim):
            k = np.unravel_index(np.argmax(err - lim), err.shape)
            extra = " ".join(f"{a}={short(b)}" for a, b in data.items())
            raise Violation(
                mechanism,
                f"{message} differs by {err.max():.3e} (limit "
                f"{float(np.max(lim)):.1e}) at {tuple(int(i) for i in k)}: "
                f"got={short(g)} want={short(w)} {extra}",
            )

    def equal(self, got, want, mechanism, message="", **data):
        self.check(got == want, mechanism, message, got=got, want=want,
                   **data)


def dense(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=float)


def case_rng(prop, seed, idx):
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), idx])


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, prop, tier, seed, idx, limit=240):
    m = Monitor(prop, tier, seed, idx)
    rng = case_rng(prop, seed, idx)
    # the process-wide generators start equal in every case
    np.random.seed((seed * 7919 + idx) % (2 ** 31))
    out, sys.stdout = sys.stdout, _Null()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    verdict = None
    try:
        mod.case(m, rng, idx)
    except Violation as v:
        verdict = ("violation", v.mechanism, v.message)
    except CaseTimeout:
        verdict = ("timeout", "timeout", f"case exceeded {limit} s")
    except (MemoryError, KeyboardInterrupt):
        verdict = ("timeout", "memory", "out of memory or interrupted")
    except Exception as e:
        # the oracle could not make sense of what the library returned
        verdict = ("violation", "malformed-result",
                   f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = out
    return m, verdict


class LineWatch:
    """Which lines of the library the workload executes (evidence only: it
    decides nothing)."""

    TOOL = 4

    def __init__(self):
        self.hit, self.known, self.codes = set(), set(), set()
        self.mon = getattr(sys, "monitoring", None)
        if self.mon is None or self.mon.get_tool(self.TOOL):
            self.mon = None
            return
        self.mon.use_tool_id(self.TOOL, "verif-lines")
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, self._on)

    def _on(self, code, line):
        self.hit.add((code.co_filename, line))
        return self.mon.DISABLE

    def attach(self):
        """Watch every function of the modules loaded so far."""
        if self.mon is None:
            return
        for name, module in list(sys.modules.items()):
            if name.split(".")[0] != "pytspl" or module in self.known:
                continue
            self.known.add(module)
            f = getattr(module, "__file__", None) or ""
            for x in list(vars(module).values()):
                self._walk(x, f)

    def _walk(self, x, f, depth=0):
        if isinstance(x, type) and depth < 3:
            for y in vars(x).values():
                self._walk(y, f, depth + 1)
            return
        x = getattr(x, "__func__", x)
        for g in (x, getattr(x, "fget", None), getattr(x, "__wrapped__", None)):
            c = getattr(g, "__code__", None)
            if c is not None and c.co_filename == f:
                self._code(c)

    def _code(self, c):
        if c in self.codes:
            return
        self.codes.add(c)
        self.mon.set_local_events(self.TOOL, c, self.mon.events.LINE)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                self._code(k)

    def lines(self):
        """All lines of the functions in which something was executed."""
        out = set()
        for c in self.codes:
            ls = {(c.co_filename, x[2]) for x in c.co_lines()
                  if x[2] and x[2] > c.co_firstlineno}
            if ls & self.hit:
                out |= ls
        return out


def _worker(mod, prop, tier, seed, indices, deadline, q, wid):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter("ignore")
    watch = LineWatch()
    res = dict(evals=0, nontrivial=set(), keys=set(),
               events=collections.Counter(), viol=[], timeouts=[], samples=[],
               tops={})
    for idx in indices:
        if time.monotonic() > deadline or len(res["viol"]) >= 3:
            break
        watch.attach()
        m, verdict = run_case(mod, prop, tier, seed, idx)
        res["evals"] += 1
        res["events"].update(m.events)
        for k, v in m.tops.items():
            res["tops"][k] = max(v, res["tops"].get(k, 0))
        ks = m.keys or {f"case{idx}"}
        res["keys"] |= ks
        if m.is_nontrivial:
            res["nontrivial"] |= ks
        if verdict and verdict[0] == "violation":
            res["viol"].append((idx, verdict[1], verdict[2], m.notes,
                                m.log[-60:]))
        elif verdict:
            res["timeouts"].append((idx, verdict[2]))
        elif len(res["samples"]) < 2 and m.is_nontrivial:
            res["samples"].append(dict(case=idx, **m.notes,
                                       calls=" ".join(m.log[:12])))
    res["hit"], res["lines"] = watch.hit, watch.lines()
    q.put((wid, res))


def line_report(got):
    """Per library file: lines executed, and lines of the functions reached
    that no case executed."""
    hit = set().union(*[r["hit"] for r in got.values()] or [set()])
    all_ = set().union(*[r["lines"] for r in got.values()] or [set()])
    out = {}
    for f in sorted({f for f, _ in hit}):
        ex = {n for g, n in hit if g == f}
        miss = sorted({n for g, n in all_ if g == f} - ex)
        k = f.split("pytspl/")[-1] if "/pytspl/" in f else f
        out["pytspl/" + k] = dict(executed=len(ex), missed=miss[:40])
    return out


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def run_check(mod, prop, tier, seed):
    t0 = time.monotonic()
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    cap = getattr(mod, "CAP", {"quick": 240, "thorough": 780})[tier]
    deadline = t0 + cap
    warnings.simplefilter("ignore")
    if hasattr(mod, "prepare"):
        out, sys.stdout = sys.stdout, _Null()
        try:
            mod.prepare(tier)
        finally:
            sys.stdout = out
    nw = min(getattr(mod, "WORKERS", 8), os.cpu_count() or 1, n)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = [
        ctx.Process(target=_worker, args=(
            mod, prop, tier, seed, list(range(w, n, nw)), deadline, q, w))
        for w in range(nw)
    ]
    for p in procs:
        p.start()
    got, dead = {}, []
    hard = deadline + 300
    while len(got) + len(dead) < nw:
        try:
            wid, r = q.get(timeout=1)
            got[wid] = r
        except Exception:
            for w, p in enumerate(procs):
                if w not in got and w not in dead and not p.is_alive():
                    try:
                        while True:
                            wid, r = q.get(timeout=2)
                            got[wid] = r
                    except Exception:
                        pass
                    if w not in got:
                        dead.append(w)
            if time.monotonic() > hard:
                dead += [w for w in range(nw) if w not in got and w not in dead]
    for p in procs:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    if hasattr(mod, "cleanup"):
        mod.cleanup()

    evals = sum(r["evals"] for r in got.values())
    events = collections.Counter()
    tops = {}
    keys, nontriv, viol, timeouts, samples = set(), set(), [], [], []
    for w in sorted(got):
        r = got[w]
        events.update(r["events"])
        for k, v in r["tops"].items():
            tops[k] = max(v, tops.get(k, 0))
        keys |= r["keys"]
        nontriv |= r["nontrivial"]
        viol += r["viol"]
        timeouts += r["timeouts"]
        samples += r["samples"]
    viol.sort(key=lambda v: v[0])
    samples.sort(key=lambda s: s["case"])

    known = [k for k in load_known() if k["property"] == prop]
    new, seen_known = [], {}
    for v in viol:
        hit = next((k for k in known if k["mechanism"] == v[1]), None)
        if hit:
            seen_known[hit["mechanism"]] = (hit, v)
        else:
            new.append(v)
    for k in known:
        hit = seen_known.get(k["mechanism"])
        print(f"KNOWN-FINDING: property={prop} {k['what']}"
              + ("" if hit else " (not reproduced in this run)"))

    rdir = os.path.join(ROOT, "replays")
    done = set()
    for idx, mech, msg, notes, log in new:
        if mech in done or len(done) >= 5:
            continue
        done.add(mech)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{tier}-s{seed}-c{idx}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, tier=tier, seed=seed, case=idx,
                           mechanism=mech, message=msg, inputs=notes,
                           calls=log,
                           rerun=f"bash check.sh {prop} {tier} --replay {path}"),
                      fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {mech}: {msg[:600]}")

    missing = {k: (events.get(k, 0), v)
               for k, v in getattr(mod, "REQUIRED", {}).items()
               if events.get(k, 0) < v}
    wall = time.monotonic() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(nontriv),
            rule=mod.RULE,
            samples=samples[:4] or [dict(note="no non-trivial sample")],
            distinct_cases=len(keys),
            planned_cases=n,
            library_calls=sum(v for k, v in events.items()
                              if k.startswith("call:")),
            rejected_requests=sum(v for k, v in events.items()
                                  if k.startswith("reject:")),
            oracle_decisions=sum(v for k, v in events.items()
                                 if k.startswith("decided:")),
            events={k: int(v) for k, v in sorted(events.items())},
            largest=tops,
            timeouts=len(timeouts), dead_workers=len(dead),
            library_lines=line_report(got),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(new),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)

    print(f"{prop} {tier} seed={seed}: {evals}/{n} cases, {len(nontriv)} "
          f"distinct non-trivial, {ev['coverage']['library_calls']} calls, "
          f"{ev['coverage']['oracle_decisions']} decisions, {wall:.1f} s")
    if new:
        return 1
    if dead:
        print(f"INCONCLUSIVE property={prop}: {len(dead)} workers died")
        return 2
    if timeouts:
        print(f"INCONCLUSIVE property={prop}: timeouts {timeouts[:3]}")
        return 2
    if missing:
        print(f"INCONCLUSIVE property={prop}: deciding events not reached "
              f"{missing}")
        return 2
    return 0
