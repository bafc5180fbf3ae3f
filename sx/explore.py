"""Path exploration: worker side (run one path, decide its alternatives and obligations) and the parallel driver."""
import contextlib
import io
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

import z3

from . import core, instrument
from .api import SymCtx, stale
from .core import ENG, BudgetExceeded, PathAbort, SymBool

PIN_DEPTH = 3


class Item:
    __slots__ = ("a", "bound", "pd")

    def __init__(self, a, bound, pd=0):
        self.a, self.bound, self.pd = a, bound, pd


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            elif isinstance(v, dict):
                d = self.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            elif isinstance(v, set):
                self.setdefault(k, set()).update(v)


def mk_solver():
    s = z3.SolverFor("QF_LIA") if False else z3.Solver()
    s.set("timeout", 8000)
    return s


def run_path(h, params, tier, item, st, devnull):
    eng = ENG
    eng.reset(dict(item.a), {})
    ctx = SymCtx(tier, params)
    status = "ok"
    exc = None
    old = sys.stderr
    sys.stderr = devnull
    try:
        h.fn(ctx)
    except PathAbort:
        status = "abort"
    except BudgetExceeded:
        status = "budget"
    except RecursionError:
        status = "exc"
        exc = ("RecursionError", "", "")
    except Exception as e:  # an escaping exception is a failed obligation
        if stale(e):
            st.setdefault("stale", {})[str(e)[:200]] = 1
            return "abort", None
        status = "exc"
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/treeno/" in fr.filename:
                where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
                break
        exc = (type(e).__name__, str(e)[:300], where)
        if os.environ.get("SX_DEBUG"):
            traceback.print_exc(file=old)
    finally:
        sys.stderr = old
    return status, exc


def expand(h, params, tier, item, st, devnull):
    """Run one path; returns (children, candidates)."""
    t0 = time.time()
    status, exc = run_path(h, params, tier, item, st, devnull)
    st.inc("run_s", time.time() - t0)
    eng = ENG
    children, cands = [], []
    st.inc("paths")
    if status != "ok":
        st.inc("paths_" + status)
    t0 = time.time()
    s = mk_solver()
    for d in eng.domain:
        s.add(d)
    names = list(eng.vars)
    # the values the path actually used
    base = dict(eng.values)
    order = {n: i for i, n in enumerate(names)}
    nq = 0
    for i, nd in enumerate(eng.nodes):
        if nd.kind == "def":
            s.add(nd.alts[0])
            continue
        if i >= item.bound:
            pre = names[: nd.nvars]
            if nd.kind == "pin":
                if item.pd >= PIN_DEPTH:
                    st.inc("pin_alternatives_cut")
                    s.add(nd.alts[nd.taken])
                    continue
            for j, alt in enumerate(nd.alts):
                if j == nd.taken:
                    continue
                if nd.free is not None:
                    k = order[nd.free]
                    a = {n: base[n] for n in names[:k]}
                    a[nd.free] = j
                    children.append(Item(a, i + 1, item.pd))
                    st.inc("choice_alternatives")
                    continue
                s.push()
                s.add(alt)
                r = s.check()
                nq += 1
                if r == z3.sat:
                    m = s.model()
                    a = {}
                    for n in pre:
                        v = m.eval(eng.vars[n])
                        a[n] = v.as_long() if z3.is_int_value(v) else base[n]
                    children.append(Item(a, i + 1, item.pd + (1 if nd.kind == "pin" else 0)))
                    st.inc("feasible_alternatives")
                elif r == z3.unsat:
                    st.inc("infeasible_alternatives")
                else:
                    st.inc("unknown")
                s.pop()
        s.add(nd.alts[nd.taken])
    st.inc("branch_queries", nq)
    obs = list(eng.obligations)
    if status == "exc":
        obs.append((False, "no unexpected exception", "%s: %s at %s" % exc))
    if status == "budget":
        st.inc("budget_paths")
    if status != "abort" or obs:
        for cond, label, detail in obs:
            st.inc("obligations")
            if cond is True:
                st.inc("discharged")
                st.inc("discharged_structurally")
                continue
            if isinstance(cond, SymBool):
                s.push()
                s.add(z3.Not(cond.z))
                r = s.check()
                st.inc("obligation_queries")
                if r == z3.unsat:
                    st.inc("discharged")
                    s.pop()
                    continue
                if r == z3.unknown:
                    st.inc("unknown")
                    s.pop()
                    continue
                m = s.model()
                a = {}
                for n in names:
                    v = m.eval(eng.vars[n])
                    a[n] = v.as_long() if z3.is_int_value(v) else base[n]
                s.pop()
            elif cond:
                st.inc("discharged")
                st.inc("discharged_structurally")
                continue
            else:
                a = base
            if callable(detail):
                try:
                    detail = detail()
                except Exception:
                    detail = None
            cands.append((h.name, label, str(detail)[:400] if detail is not None else "", dict(a)))
    for p, n in eng.pins.items():
        st.setdefault("pins", {})
        st["pins"][p] = st["pins"].get(p, 0) + n
    st.setdefault("reached", set()).update(eng.reached)
    if "sample" in eng.notes:
        sm = st.setdefault("samples", {})
        if len(sm) < 3:
            x = eng.notes["sample"]
            sm[str(x() if callable(x) else x)[:300]] = 1
    st.inc("solver_s", time.time() - t0)
    if status == "ok" and not eng.pins:
        st.inc("exact_paths")
    return children, cands


_H = {}
_CFG = {}


def worker(task):
    hname, items, budget_s, seed = task
    h, params, tier = _H[hname]
    st = Stats()
    rnd = random.Random(seed)
    t0 = time.time()
    stack = [Item(*x) for x in items]
    cands = []
    with open(os.devnull, "w") as dn:
        while stack and time.time() - t0 < budget_s and len(cands) < 8:
            it = stack.pop()
            try:
                ch, cs = expand(h, params, tier, it, st, dn)
            except Exception:
                # the engine could not follow this path: its inputs are still run on the real code
                st.inc("engine_errors")
                er = st.setdefault("err", {})
                if len(er) < 3:
                    er[traceback.format_exc()[-1500:]] = 1
                if st["engine_errors"] <= 3:
                    cands.append((h.name, "engine error", "", dict(ENG.values)))
                continue
            stack.extend(ch)
            cands.extend(cs)
    return hname, [(x.a, x.bound, x.pd) for x in stack], cands, st, set(instrument.ENTERED)


class Explorer:
    def __init__(self, prop, harnesses, tier, seed, budget_s, jobs=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.budget = budget_s
        self.jobs = jobs or min(8, os.cpu_count() or 2)
        self.h = harnesses
        self.stats = {h.name: Stats() for h in harnesses}
        self.entered = set()
        self.samples = []
        self.cands = []
        self.left = {h.name: 0 for h in harnesses}
        self.done_at = {}

    def run(self, on_cand):
        """on_cand(list of candidates) -> True to stop."""
        for h in self.h:
            _H[h.name] = (h, h.thorough_params if self.tier == "thorough" else h.params, self.tier)
        rnd = random.Random(self.seed)
        t0 = time.time()
        queues = {h.name: [({}, 0, 0)] for h in self.h}
        stop = False
        ctx = mp.get_context("fork")
        with ctx.Pool(self.jobs) as pool:
            pending = []
            while True:
                # dispatch
                now = time.time() - t0
                if now > self.budget:
                    break
                names = [n for n in queues if queues[n]]
                while names and len(pending) < self.jobs + 2:
                    names = [n for n in queues if queues[n]]
                    if not names:
                        break
                    # round robin over harnesses so that each gets a share of the budget
                    names.sort(key=lambda n: self.stats[n].get("inflight", 0))
                    n = names[0]
                    q = queues[n]
                    total = sum(len(x) for x in queues.values())
                    k = max(1, min(40, len(q) // (2 * self.jobs)))
                    take = [q.pop() for _ in range(min(k, len(q)))]
                    if len(q) > 50 and rnd.random() < 0.2:
                        rnd.shuffle(q)
                    self.stats[n]["inflight"] = self.stats[n].get("inflight", 0) + 1
                    bs = 0.15 if total < 4 * self.jobs else 1.0
                    pending.append((n, pool.apply_async(worker, ((n, take, bs, rnd.random()),))))
                if not pending:
                    break
                ready = [p for p in pending if p[1].ready()]
                if not ready:
                    pending[0][1].wait(0.02)
                    continue
                for p in ready:
                    pending.remove(p)
                    n, left, cands, st, ent = p[1].get()
                    infl = self.stats[n].get("inflight", 0)
                    queues[n].extend(left)
                    self.stats[n].merge(st)
                    self.entered |= ent
                    if not queues[n] and not any(x[0] == n for x in pending):
                        self.done_at[n] = round(time.time() - t0, 2)
                    if cands:
                        if on_cand(cands):
                            stop = True
                if stop:
                    break
            for n in queues:
                self.left[n] = len(queues[n]) + (0 if not any(x[0] == n for x in pending) else 1)
            pool.terminate()
        self.wall = time.time() - t0
        return stop
