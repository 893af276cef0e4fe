"""State of the code under test that outlives a call: module globals, class
attributes, default arguments, closures and the containers they hold. Restored
before every path, so that each path starts in a new process."""
import sys
import types
from collections import deque

_ABSENT = object()


class State:
    def __init__(self, pkg):
        self.pkg = pkg
        self.seen = {}
        self.saved = []
        for name, mod in sorted(sys.modules.items()):
            if self._mine(name):
                self._object(mod)

    def _mine(self, name):
        return isinstance(name, str) and (name == self.pkg or name.startswith(self.pkg + "."))

    def _object(self, x):
        todo = [x]
        while todo:
            x = todo.pop()
            if id(x) in self.seen or x is None:
                continue
            if isinstance(x, types.ModuleType):
                if not self._mine(x.__name__):
                    continue
                kind, copy, more = "dict", dict(x.__dict__), x.__dict__.values()
                x_, x = x, x.__dict__
                self.seen[id(x_)] = x_
            elif isinstance(x, type):
                if not self._mine(x.__module__):
                    continue
                copy = dict(vars(x))
                kind, more = "class", copy.values()
            elif isinstance(x, types.FunctionType):
                if not self._mine(x.__globals__.get("__name__")):
                    continue
                cells = [c.cell_contents if _full(c) else _ABSENT for c in x.__closure__ or ()]
                copy = (x.__defaults__, dict(x.__kwdefaults__ or {}), dict(x.__dict__), cells)
                kind, more = "function", list(x.__defaults__ or ()) + list(copy[1].values()) + list(copy[2].values()) + cells
            elif isinstance(x, (staticmethod, classmethod)):
                todo.append(x.__func__)
                continue
            elif isinstance(x, property):
                todo.extend((x.fget, x.fset, x.fdel))
                continue
            elif isinstance(x, dict):
                kind, copy = "dict", dict(x)
                more = list(x.values()) + list(x)
            elif isinstance(x, list):
                copy = list(list.__iter__(x))
                kind, more = "list", copy
            elif isinstance(x, (set, deque, bytearray)):
                kind, copy = "other", type(x)(x)
                more = list(x) if not isinstance(x, bytearray) else ()
            elif isinstance(x, (tuple, frozenset)):
                todo.extend(x)
                continue
            elif self._mine(type(x).__module__) and hasattr(x, "__dict__"):
                kind, copy, more = "dict", dict(x.__dict__), list(x.__dict__.values())
                self.seen[id(x)] = x
                x = x.__dict__
            else:
                continue
            self.seen[id(x)] = x
            self.saved.append((kind, x, copy))
            todo.extend(more)

    def restore(self):
        for kind, x, copy in self.saved:
            if kind == "dict":
                if not _same(list(dict.items(x)), list(copy.items())):
                    dict.clear(x)
                    dict.update(x, copy)
            elif kind == "list":
                now = list(list.__iter__(x))
                if len(now) != len(copy) or any(a is not b for a, b in zip(now, copy)):
                    list.clear(x)
                    list.extend(x, copy)
            elif kind == "other":
                x.clear()
                x.extend(copy) if hasattr(x, "extend") else x.update(copy)
            elif kind == "class":
                for k, v in list(vars(x).items()):
                    if k not in copy:
                        type.__delattr__(x, k)
                    elif copy[k] is not v:
                        type.__setattr__(x, k, copy[k])
                for k in copy:
                    if k not in vars(x):
                        type.__setattr__(x, k, copy[k])
            else:
                defaults, kw, attrs, cells = copy
                if x.__defaults__ is not defaults:
                    x.__defaults__ = defaults
                if x.__kwdefaults__:
                    x.__kwdefaults__.clear()
                    x.__kwdefaults__.update(kw)
                if x.__dict__ != attrs:
                    x.__dict__.clear()
                    x.__dict__.update(attrs)
                for c, v in zip(x.__closure__ or (), cells):
                    if v is _ABSENT:
                        if _full(c):
                            del c.cell_contents
                    elif not _full(c) or c.cell_contents is not v:
                        c.cell_contents = v


def _full(c):
    try:
        c.cell_contents
    except ValueError:
        return False
    return True


def _same(a, b):
    return len(a) == len(b) and all(p is r and q is s for (p, q), (r, s) in zip(a, b))
