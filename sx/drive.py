"""Runs the harnesses of a property: explores every path of a scenario over
the instrumented code, lets the solver decide each comparison, replays
counterexamples on the real code."""
import base64
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import random
import resource
import sys
import time
import traceback

import z3

from sx import core, instr
from sx import values as V
from sx.compare import NoValue, concretise, equal, ev_int
from sx.core import Engine, Inconclusive, set_engine
from sx.replay import VERIF, Replayer, repo_root
from sx.values import SymBytes, SymInt, SymStr, Tok, bterm, mk_bool

_CODE = {}


def load_code():
    """Instrument the current source of /repo and the specification."""
    if _CODE:
        return _CODE
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    set_engine(Engine(step_budget=1 << 60))
    f1 = instr.install("LnkParse3", repo_root())
    f2 = instr.install("spec", VERIF)
    L = importlib.import_module("LnkParse3.lnk_file")
    scen = importlib.import_module("spec.scen")
    hook_text(L)
    from sx import env
    from sx.state import State

    env.STATE = State("LnkParse3")
    _CODE.update(L=L, scen=scen, files=f1.loaded, spec_files=f2.loaded)
    return _CODE


def hook_text(L):
    """In summary mode the text readers become uninterpreted functions of the
    bytes they are given (C13 verifies the readers themselves)."""
    text = importlib.import_module("spec.text")

    def summarise(fn, kind, cp_of):
        def g(*a):
            b = a[-1] if kind == "u" or len(a) == 2 and not isinstance(a[0], (bytes, SymBytes)) else a[0]
            if core.eng() is not None and core.eng().path_state.get("summary") and isinstance(b, SymBytes) and b.buf is not None:
                return SymStr([Tok("text", (kind, cp_of(*a)), (b,))])
            return fn(*a)

        return g

    text.ansi = summarise(text.ansi, "a", lambda b, cp: _cp(cp))
    text.wide = summarise(text.wide, "u", lambda b: None)
    tp = sys.modules.get("LnkParse3.text_processor")
    cls = getattr(tp, "TextProcessor", None)
    if cls is not None and hasattr(cls, "read_string") and hasattr(cls, "read_unicode_string"):
        rs, ru = cls.read_string, cls.read_unicode_string

        def read_string(self, binary, *a, **k):
            if not a and not k and hasattr(self, "cp") and _summ(binary):
                return SymStr([Tok("text", ("a", _cp(self.cp)), (binary,))])
            return rs(self, binary, *a, **k)

        def read_unicode_string(self, binary, *a, **k):
            if not a and not k and _summ(binary):
                return SymStr([Tok("text", ("u", None), (binary,))])
            return ru(self, binary, *a, **k)

        cls.read_string = read_string
        cls.read_unicode_string = read_unicode_string


def _summ(b):
    return (
        core.eng() is not None and core.eng().path_state.get("summary") and isinstance(b, SymBytes) and b.buf is not None
    )


def _cp(cp):
    import codecs

    return codecs.lookup(cp or "cp1252").name


class Harness:
    def __init__(self, name, scen, build, bounds, summary=False, max_paths=20000, steps=60000, budget=40,
                 query_ms=10000, finding=None, validate=12, replay_timeout=25, hang_steps=None, **params):
        self.name = name
        self.scen = scen
        self.build = build
        self.bounds = bounds
        self.summary = summary
        self.max_paths = max_paths
        self.steps = steps
        self.budget = budget
        self.query_ms = query_ms
        self.finding = finding
        self.validate = validate
        self.replay_timeout = replay_timeout
        self.params = params


class Inp(dict):
    """Scenario inputs: symbolic byte strings and parameters."""


class Builder:
    """What a harness's build function uses to make symbolic inputs."""

    def __init__(self, E):
        self.E = E
        self.bufs = []
        self.prefs = []
        self.wit = []

    def int(self, name, lo, hi):
        t = z3.BitVec("in_" + name, V.W)
        self.E.add_base(z3.And(t >= V.val(lo), t <= V.val(hi)))
        return SymInt(t, lo, hi) if lo != hi else lo

    def buffer(self, name, length, template=None):
        b = V.Buffer(name, length, template)
        self.bufs.append(b)
        b.assert_template()
        if isinstance(length, SymInt):
            self.E.symbolic_lengths = True
            self.prefs.append(length)
        return b

    def bytes(self, name, length, template=None):
        b = self.buffer(name, length, template)
        return SymBytes(b, 0, length).norm()

    def num(self, d, off, n):
        """The n-byte number at an offset of the input."""
        return V.int_from_terms([d.term(off + i) for i in range(n)])

    def require(self, cond):
        self.E.add_base(bterm(cond))


def filler(i, fill=0):
    """Content of bytes that no decision looked at."""
    if fill == 1:
        return 0
    if fill == 3:
        return 0xE9
    if fill == 2 and i % 3:
        return 0x80 + (i * i * 5 + i * 3 + i // 5) % 0x80
    return 0x41 + (i * i * 3 + i * 5 + i // 7) % 57


def files_of(E, B, m, fill):
    out = {}
    for b in B.bufs:
        n = ev_int(m, b.length)
        if n < 0 or n > (1 << 24):
            raise NoValue("file too large to replay")
        d = bytearray(filler(i, fill) for i in range(n)) if n < 1 << 20 else bytearray(b"A" * n)
        for a, v in b.template.items():
            if a < n:
                d[a] = v
        out[b.name] = d
    for buf, at, bt in E.reads:
        a = m.eval(at, model_completion=True).as_long()
        d = out.get(buf.name)
        if d is not None and a < len(d):
            d[a] = m.eval(bt, model_completion=True).as_long()
    return {k: bytes(v) for k, v in out.items()}


def plain_inputs(inp, m, files):
    return {k: concretise(v, m, files) for k, v in inp.items()}


def conjuncts(cs):
    out, todo, seen = [], list(reversed(cs)), set()
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo.extend(reversed(c.children()))
        elif not z3.is_true(c) and c.get_id() not in seen:
            seen.add(c.get_id())
            out.append(c)
    return out


def small_model(E, B, extra):
    """A model of path + extra, preferring short files."""
    for lim in (2048, 1 << 16, 1 << 20, 1 << 24):
        cs = [bterm(p <= lim) for p in B.prefs]
        r = E.check(*(list(extra) + cs))
        if r == z3.sat:
            return E.solver.model()
        if not cs:
            break
    return None


def differs(res):
    """labels of a plain run whose expectation fails"""
    bad = []
    for label, exp, act in res:
        if not equal(exp, act):
            bad.append((label, exp, act))
    return bad


def brief(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def diff_text(exp, act, path=""):
    """first few places where two plain observations differ"""
    out = []

    def go(a, b, p):
        if len(out) > 4:
            return
        if isinstance(a, dict) and isinstance(b, dict):
            for k in sorted(set(a) | set(b), key=str):
                if k not in a:
                    out.append("%s.%s unexpected: %s" % (p, k, brief(b[k], 120)))
                elif k not in b:
                    out.append("%s.%s missing, expected %s" % (p, k, brief(a[k], 120)))
                else:
                    go(a[k], b[k], p + "." + str(k))
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                go(x, y, "%s[%d]" % (p, i))
        elif not equal(a, b):
            out.append("%s: expected %s, got %s" % (p, brief(getattr(a, "__dict__", None) or a, 150), brief(b, 150)))

    go(exp, act, path)
    return out


class Runner:
    def __init__(self, h, deadline):
        self.h = h
        self.deadline = deadline
        self.rep = Replayer()
        self.r = dict(
            name=h.name, bounds=h.bounds, paths=0, ok=0, aborted=0, inconclusive=0, hang=0, queries=0, solver_s=0.0,
            decisions=0, validated=0, reasons={}, violations=[], complete=False, functions=[], samples=[], unreproduced=[],
            engine_mismatch=[], scen=h.scen,
        )

    def note(self, why):
        d = self.r["reasons"]
        d[why] = d.get(why, 0) + 1

    def run(self):
        h, r = self.h, self.r
        code = load_code()
        from sx.env import SymEnv

        E = Engine(h.query_ms, h.steps)
        set_engine(E)
        B = Builder(E)
        E.path_state = {}
        inp = h.build(B, **h.params)
        E.base_reads = list(E.reads)
        scen = getattr(code["scen"], h.scen)
        prof = set()
        root = repo_root() + os.sep

        def profile(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(root):
                prof.add(os.path.relpath(frame.f_code.co_filename, root) + ":" + frame.f_code.co_qualname)

        first = [0]

        def go():
            E.path_state["summary"] = h.summary
            E.path_state["nul_witness"] = tuple(B.wit)
            first[0] += 1
            SymEnv.restart()
            if first[0] <= 3:
                sys.setprofile(profile)
            try:
                pairs = scen(SymEnv(code["L"], "LnkParse3"), dict(inp))
                return [(lab, equal(e, a), e, a) for lab, e, a in pairs]
            finally:
                sys.setprofile(None)

        t0 = time.time()
        try:
            for kind, value in E.explore(go, h.max_paths, self.deadline):
                r["paths"] += 1
                if kind == "abort":
                    r["aborted"] += 1
                elif kind == "inconclusive":
                    r["inconclusive"] += 1
                    self.note(value)
                    if value == "time":
                        # perhaps because this path never ends
                        self.hang(E, B, inp, False)
                elif kind == "hang":
                    r["hang"] += 1
                    self.hang(E, B, inp)
                else:
                    self.judge(E, B, inp, value)
                if len(r["violations"]) >= 1:
                    break
        except Inconclusive as e:
            self.note(str(e))
        finally:
            self.rep.stop()
        r["complete"] = bool(getattr(E, "complete", False)) and not r["violations"]
        r["queries"], r["solver_s"], r["decisions"] = E.queries, E.solver_time, E.decisions
        r["functions"] = sorted(prof)
        r["wall_s"] = time.time() - t0
        return r

    def hang(self, E, B, inp, long=True):
        saved, E.deadline = E.deadline, time.time() + 15
        try:
            m = small_model(E, B, [])
            if m is None:
                return self.note("hang without a small model")
            files = files_of(E, B, m, 0)
            data = plain_inputs(inp, m, files)
        except (NoValue, Inconclusive) as e:
            return self.note("hang: %s" % e)
        finally:
            E.deadline = saved
        res = self.rep.run(self.h.scen, data, self.h.replay_timeout)
        if res[0] == "timeout" or (res[0] == "error" and ("MemoryError" in res[1] or "died" in res[1])):
            self.violation(data, "termination", ["does not terminate"])
        elif long:
            self.note("long path")

    def judge(self, E, B, inp, value):
        h, r = self.h, self.r
        oks = [bterm(ok) for _, ok, _, _ in value if ok is not True]
        res = z3.unsat
        if oks:
            try:
                res = E.check(z3.Not(z3.And(oks)))
            except Inconclusive as e:
                self.note(str(e))
                r["inconclusive"] += 1
                return
        neg = z3.Not(z3.And(oks)) if oks else None
        if res == z3.unknown:
            # one equation at a time
            res = z3.unsat
            try:
                for c in conjuncts(oks):
                    one = E.check_alone(z3.Not(c))
                    if one == z3.sat:
                        res, neg = one, z3.Not(c)
                        break
                    if one == z3.unknown:
                        res = one
            except Inconclusive:
                res = z3.unknown
        if res == z3.unknown:
            # decide it for the inputs that share most bytes with one input of the path
            part = self.restricted(E, neg)
            if part is None:
                r["inconclusive"] += 1
                self.note("solver unknown")
                return
            neg = z3.And([neg] + part)
            res = z3.sat
        if res == z3.unsat:
            r["ok"] += 1
            if r["validated"] < h.validate:
                self.validate(E, B, inp, value)
            return
        last = "no small model"
        for turn in range(10):
            try:
                extra = [neg] if turn < 4 else [neg] + self.scatter(E, neg, turn)
                m = small_model(E, B, extra)
                if m is None:
                    break
                files = files_of(E, B, m, (0, 2, 1, 3)[turn] if turn < 4 else turn % 3)
                data = plain_inputs(inp, m, files)
            except (NoValue, Inconclusive) as e:
                last = str(e)
                break
            out = self.rep.run(h.scen, data, h.replay_timeout)
            if out[0] == "timeout":
                last = "replay timed out"
                break
            if out[0] == "error":
                last = out[1][-300:]
                continue
            bad = differs(out[1])
            if bad:
                return self.violation(data, bad[0][0], diff_text(bad[0][1], bad[0][2], bad[0][0]))
            last = "counterexample not reproduced"
        r["inconclusive"] += 1
        self.note(last)
        if len(r["unreproduced"]) < 3:
            labs = [(lab, brief(e), brief(a)) for lab, ok, e, a in value if ok is not True][:2]
            r["unreproduced"].append(labs)
            if os.environ.get("SX_DEBUG"):
                print("UNREPRODUCED", h.name, last, labs, file=sys.stderr)
                try:
                    print("   ", brief(data, 3000), file=sys.stderr)
                except NameError:
                    pass

    def restricted(self, E, neg):
        """Constraints on most of the input bytes under which neg is satisfiable, or None."""
        try:
            if E.check() != z3.sat:
                return None
            m = E.solver.model()
            terms = list({bt.get_id(): bt for _, _, bt in E.reads if not z3.is_bv_value(bt)}.values())
            vals = [m.eval(t, model_completion=True) for t in terms]
            rnd = random.Random(1)
            for keep in (0.6, 0.8, 0.9, 0.9, 1.0):
                cs = [t == v for t, v in zip(terms, vals) if rnd.random() < keep]
                if E.check(neg, *cs) == z3.sat:
                    return cs
        except Inconclusive:
            pass
        return None

    def scatter(self, E, neg, turn):
        """Random bits of the input, as far as they are consistent: another
        region of the counterexamples."""
        rnd = random.Random(turn)
        cs = []
        terms = {bt.get_id(): bt for _, _, bt in E.reads if not z3.is_bv_value(bt)}
        terms = list(terms.values())
        for bt in rnd.sample(terms, min(len(terms), 8)):
            k = rnd.randrange(8)
            c = z3.Extract(k, k, bt) == rnd.randrange(2)
            if E.check(neg, *(cs + [c])) == z3.sat:
                cs.append(c)
        return cs

    def violation(self, data, label, text):
        self.r["violations"].append(dict(harness=self.h.name, scen=self.h.scen, label=label, text=text,
                                         data=base64.b64encode(pickle.dumps(data)).decode()))

    def validate(self, E, B, inp, value):
        """Run the real code on a model of a passing path."""
        r = self.r
        try:
            m = small_model(E, B, [])
            if m is None:
                return
            files = files_of(E, B, m, 0)
            data = plain_inputs(inp, m, files)
        except (NoValue, Inconclusive):
            return
        out = self.rep.run(self.h.scen, data, self.h.replay_timeout)
        if out[0] != "ok":
            self.note("replay: " + str(out[1] or out[0])[-200:])
            return
        bad = differs(out[1])
        if bad:
            r["engine_mismatch"].append(brief(bad, 800))
            return self.violation(data, bad[0][0], diff_text(bad[0][1], bad[0][2], bad[0][0]))
        r["validated"] += 1
        if len(r["samples"]) < 2:
            r["samples"].append({k: (v.hex() if isinstance(v, bytes) else brief(v, 200)) for k, v in data.items()
                                 if not isinstance(v, bytes) or len(v) < 1200})
        try:
            mine = [(lab, concretise(e, m, files), concretise(a, m, files)) for lab, _, e, a in value]
        except (NoValue, Exception):  # noqa: BLE001
            return
        for (lab, e, a), (lab2, e2, a2) in zip(mine, out[1]):
            if not (equal(e, e2) and equal(a, a2)):
                if len(r["engine_mismatch"]) < 3:
                    r["engine_mismatch"].append("%s %s" % (lab, (diff_text(e2, e) or diff_text(a2, a))))
                if os.environ.get("SX_DEBUG"):
                    print("ENGINE MISMATCH", self.h.name, lab, diff_text(e2, e), diff_text(a2, a), file=sys.stderr)


def _child(h, budget, conn):
    # 8 of these run at a time
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, resource.RLIM_INFINITY))
    try:
        conn.send(Runner(h, time.time() + budget).run())
    except BaseException:  # noqa: BLE001
        conn.send(dict(name=h.name, crash=traceback.format_exc()))
    conn.close()
    os._exit(0)


def run_all(harnesses, budget_scale=1.0, workers=8, wall=600, known=()):
    """Run each harness in its own process, `workers` at a time."""
    load_code()
    ctx = mp.get_context("fork")
    todo = list(harnesses)
    finding = {h.name: h.finding for h in harnesses if h.finding}
    live, results = [], []
    start = time.time()
    while todo or live:
        while todo and len(live) < workers:
            h = todo.pop(0)
            left = wall - (time.time() - start)
            if left < 3:
                results.append(dict(name=h.name, skipped="time"))
                continue
            b = min(h.budget * budget_scale, left)
            a, c = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(h, b, c))
            p.start()
            c.close()
            live.append((h, p, a, time.time() + b + 90))
        mp.connection.wait([x[2] for x in live], timeout=1)
        rest = []
        for h, p, a, end in live:
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(dict(name=h.name, crash="process died"))
                p.join()
            elif time.time() > end:
                p.kill()
                p.join()
                results.append(dict(name=h.name, crash="killed: time"))
            else:
                rest.append((h, p, a, end))
        live = rest
        if any(r.get("violations") and finding.get(r["name"]) not in known for r in results):
            # decided
            for h, p, a, end in live:
                p.kill()
                p.join()
            results += [dict(name=h.name, skipped="a violation was found") for h in [x[0] for x in live] + todo]
            break
    return results
