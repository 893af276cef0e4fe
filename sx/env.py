"""The environment a scenario runs in: symbolic (instrumented code, models of
effects) or plain (ordinary Python, real effects captured)."""
import contextlib
import io
import json
import re
import sys
import warnings

from sx.compare import Any, Near


class Cap:
    """Outcome of one call: value or exception name, warnings, printed text."""

    def __init__(self, value, raised, warns, out):
        self.value = value
        self.raised = raised
        self.warns = warns
        self.out = out

    def result(self):
        return ["raised", self.raised] if self.raised else ["returned", self.value]


class Json:
    def __init__(self, tree, keys_sorted, single):
        self.tree = tree
        self.keys_sorted = keys_sorted
        self.single = single


class Skip(Exception):
    """The input is outside the scenario's assumptions."""


STATE = None


class PlainEnv:
    symbolic = False

    def fresh(self):
        """Go on as in a new process."""
        import importlib

        for m in [m for m in sys.modules if m == self.package or m.startswith(self.package + ".")]:
            del sys.modules[m]
        self.L = importlib.import_module(self.package + ".lnk_file")

    def assume(self, cond):
        if not cond:
            raise Skip()

    def __init__(self, L, package):
        self.L = L
        self.package = package
        self.choices = {}

    def capture(self, f, *a, **k):
        buf = io.StringIO()
        value = raised = None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(buf):
                try:
                    value = f(*a, **k)
                except Exception as e:  # noqa: BLE001
                    raised = type(e).__name__
                except SystemExit:
                    raised = "SystemExit"
        return Cap(value, raised, [str(w.message) for w in ws], buf.getvalue())

    def any(self):
        return Any()

    def zeros(self, d, end):
        """Assume zero bytes before end: every text that starts before them
        ends there at the latest."""
        self.assume(d[end - 3 : end] == b"\0\0\0")

    def near(self, tenths, tol):
        return Near(tenths, tol)

    def file(self, data):
        return io.BytesIO(data)

    def main(self, argv, data):
        """Run the command line tool; FILE in argv is replaced by a file
        holding data."""
        import os
        import tempfile

        fd, path = tempfile.mkstemp(suffix=".lnk")
        old = sys.argv
        try:
            os.write(fd, data)
            os.close(fd)
            sys.argv = ["lnkparse"] + [path if x == "FILE" else x for x in argv]
            return self.capture(self.L.main)
        finally:
            sys.argv = old
            os.unlink(path)

    def json_doc(self, text):
        ok = []

        def pairs(ps):
            ks = [k for k, _ in ps]
            ok.append(ks == sorted(ks))
            return dict(ps)

        try:
            tree = json.loads(text, object_pairs_hook=pairs)
        except ValueError as e:
            return Json(None, False, False)
        return Json(tree, all(ok), text.endswith("\n"))

    def yaml_doc(self, text):
        """Readable output -> (title, tree) with the tree as nested lists of
        (key, value) pairs in order."""
        import yaml

        title, _, body = text.partition("\n")
        lines = body.split("\n")
        ind = [len(x) - len(x.lstrip(" ")) for x in lines if x.strip()]
        n = min(ind) if ind else 0
        body = "\n".join(x[n:] if x.strip() else x for x in lines)

        class Loader(yaml.SafeLoader):
            pass

        Loader.add_constructor(
            "tag:yaml.org,2002:map",
            lambda ld, node: dict(ld.construct_pairs(node, deep=True)),
        )
        try:
            tree = yaml.load(body, Loader=Loader)
        except yaml.YAMLError as e:
            return [title, "not YAML: " + type(e).__name__, n > 0]
        return [title, tree, n > 0]

    def iso(self, d):
        return d.replace(microsecond=0).isoformat()

    def fields(self, *f):
        import datetime

        return datetime.datetime(*f, tzinfo=datetime.timezone.utc)

    def sha256(self, data):
        import hashlib

        return hashlib.sha256(data).hexdigest()

    def length(self, x):
        return len(x)

    def fresh_process(self):
        pass

    def tuple_of(self, x):
        return x


class SymEnv:
    symbolic = True

    @staticmethod
    def restart():
        from sx.core import eng

        if STATE is not None:
            STATE.restore()
        for k in ("memo", "symkeys"):
            eng().path_state.pop(k, None)

    def fresh(self):
        self.restart()

    def assume(self, cond):
        from sx.core import eng
        from sx.values import bterm

        if isinstance(cond, bool):
            eng().assume(cond)
        else:
            eng().assume(bterm(cond))

    def __init__(self, L, package):
        self.L = L
        self.package = package

    def capture(self, f, *a, **k):
        from sx.core import eng

        st = eng().path_state
        saved = st.get("warnings") or [], st.get("out") or []
        st["warnings"], st["out"] = [], []
        value = raised = None
        try:
            value = f(*a, **k)
        except Exception as e:  # noqa: BLE001
            raised = type(e).__name__
            st["last_exception"] = e
        except SystemExit:
            raised = "SystemExit"
        warns, outs = st["warnings"], st["out"]
        st["warnings"], st["out"] = saved
        from sx.values import mk_str

        return Cap(value, raised, warns, mk_str([x for _, x in outs]))

    def any(self):
        return Any()

    def zeros(self, d, end):
        from sx.core import eng
        from sx.values import b8, mk_bool

        for i in (3, 2, 1):
            self.assume(mk_bool(b8(d.term(end - i)) == b8(0)))
        st = eng().path_state
        st["nul_witness"] = tuple(st.get("nul_witness", ())) + (end - 3, end - 2)

    def near(self, tenths, tol):
        return Near(tenths, tol)

    def file(self, data):
        from sx.rt import SymFile

        return SymFile(data)

    def main(self, argv, data):
        from sx.core import eng

        eng().path_state["files"] = {"file.lnk": data}
        old = sys.argv
        sys.argv = ["lnkparse"] + ["file.lnk" if x == "FILE" else x for x in argv]
        try:
            return self.capture(self.L.main)
        finally:
            sys.argv = old

    def json_doc(self, text):
        from sx.core import Inconclusive
        from sx.values import SymStr, Tok

        if isinstance(text, str):
            return PlainEnv.json_doc(self, text)
        ps = [p for p in text.parts if not (isinstance(p, str) and not p.strip())]
        if len(ps) == 1 and isinstance(ps[0], Tok) and ps[0].kind == "json":
            key = ps[0].key
            tree = ps[0].vals[0].x
            return Json(tree, key[3] or not _needs_sorting(tree), isinstance(text.parts[-1], str))
        # text written next to a document, or several documents
        if any(isinstance(p, Tok) and p.kind == "json" for p in ps) and len(ps) > 1:
            return Json(None, False, False)
        raise Inconclusive("JSON text")

    def yaml_doc(self, text):
        from sx.core import Inconclusive
        from sx.values import SymStr, Tok, mk_str

        if isinstance(text, str):
            return PlainEnv.yaml_doc(self, text)
        parts = list(text.parts)
        title = ""
        if parts and isinstance(parts[0], str):
            title, _, rest = parts[0].partition("\n")
            parts = ([rest] if rest else []) + parts[1:]
        parts = [p for p in parts if not (isinstance(p, str) and not p.strip())]
        if len(parts) != 1 or not isinstance(parts[0], Tok):
            raise Inconclusive("readable text")
        indented = False
        p = parts[0]
        subs = []
        while p.kind != "yaml":
            if p.kind == "indent" and not p.key.strip():
                indented = indented or bool(p.key)
                inner = p.vals[0]
            elif p.kind in ("resub", "replace"):
                subs.append((p.kind, p.key))
                inner = p.vals[0]
            else:
                raise Inconclusive("readable text (%s)" % p.kind)
            ps = [q for q in inner.parts if not (isinstance(q, str) and not q.strip())]
            if len(ps) != 1 or not isinstance(ps[0], Tok):
                raise Inconclusive("readable text")
            p = ps[0]
        tree = p.vals[0].x
        opts = dict(p.key)
        for kind, key in reversed(subs):
            tree = _subst(kind, key, tree)
        if opts.get("sort_keys", "True") == "True":
            tree = _sorted(tree)
        return [title, tree, indented]

    def iso(self, d):
        return d.replace(microsecond=0).isoformat()

    def fields(self, *f):
        import datetime

        from sx.values import mk_datetime

        return mk_datetime(*f, tzinfo=datetime.timezone.utc)

    def sha256(self, data):
        from sx.rt import SymHash

        return SymHash("sha256", data).hexdigest()

    def length(self, x):
        from sx.rt import m_len

        return m_len(x)

    def fresh_process(self):
        pass


def _needs_sorting(t):
    if isinstance(t, dict):
        ks = list(t)
        return ks != sorted(ks) or any(_needs_sorting(v) for v in t.values())
    if isinstance(t, list):
        return any(_needs_sorting(v) for v in t)
    return False


def _sorted(t):
    if isinstance(t, dict):
        return {k: _sorted(t[k]) for k in sorted(t)}
    if isinstance(t, list):
        return [_sorted(v) for v in t]
    return t


def _subst(kind, key, tree):
    """The effect on a mapping of substituting in its rendered text: every
    literal key and value that the pattern can reach. A pattern anchored at
    line starts reaches only the top-level keys."""
    from sx.core import Inconclusive
    from sx.values import SymStr, mk_str

    if kind == "resub":
        pat, repl, count, fl = key
        if callable(repl) or count:
            raise Inconclusive("readable text substitution")
        anchored = pat.startswith("^") and fl & re.MULTILINE

        def f(s):
            return re.sub(pat, repl, s, flags=fl).lstrip("\n")
    else:
        a, b = key
        anchored = False

        def f(s):
            return s.replace(a, b).lstrip("\n") if a in s else s

    def g(t, depth):
        if isinstance(t, dict):
            return {
                (f(k) if isinstance(k, str) and (not anchored or depth == 0) else k): g(v, depth + 1)
                for k, v in t.items()
            }
        if anchored:
            return t
        if isinstance(t, list):
            return [g(v, depth + 1) for v in t]
        if isinstance(t, str):
            return f(t)
        if isinstance(t, SymStr):
            return mk_str([f(p) if isinstance(p, str) else p for p in t.parts])
        return t

    return g(tree, 0)
