"""Linear-integer abstraction of bit-vector path conditions.

Engine integers never wrap (their ranges are tracked), so sums and constant
multiples of bytes are integer sums. The abstraction forgets everything that
is not linear: if it is unsatisfiable, so are the bit-vector constraints.
"""
import z3

NONE = frozenset()


def union(sets):
    r = NONE
    for x in sets:
        if x and x is not r:
            r = x if not r else r | x
    return r


INT = z3.IntSort()


class Lia:
    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.ints = {}
        self.bools = {}
        self.atoms = {}
        self.bounds = {}
        self.keep = []
        self.stack = []
        self.cells = {}
        self.lemmas = {}

    # -- atoms ------------------------------------------------------------
    def atom(self, e, width):
        k = e.get_id()
        r = self.atoms.get(k)
        if r is None:
            v = z3.Int("a%d" % len(self.atoms))
            self.keep.append(e)
            self.atoms[k] = r = (v, width)
            if e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                # a byte of the input: same place, same byte
                i, _, _, side = self.signed(e.arg(0))
                self.cells.setdefault(e.decl().name(), []).append((v, i, side))
        return r[0]

    def bounded(self, v, *bounds):
        """The side condition that an atom is within its range."""
        k = v.get_id()
        if k not in self.bounds:
            self.bounds[k] = (v, bounds)
        return frozenset((k,))

    def unsigned(self, e):
        """Non-negative integer expression for a bit-vector of known width,
        with (lo, hi), or None."""
        n = e.size()
        k = e.decl().kind()
        if k == z3.Z3_OP_BNUM:
            v = e.as_long()
            return z3.IntVal(v), v, v, NONE
        if k == z3.Z3_OP_CONCAT:
            shift = 0
            terms = []
            hi = 0
            side = []
            for c in reversed(e.children()):
                t, lo, h, s = self.unsigned(c)
                side.append(s)
                if h:
                    terms.append(t * z3.IntVal(1 << shift) if shift else t)
                hi += h << shift
                shift += c.size()
            t = z3.IntVal(0) if not terms else terms[0] if len(terms) == 1 else z3.Sum(terms)
            return t, 0, hi, union(side)
        v = self.atom(e, n)
        bounds = [v >= 0, v < z3.IntVal(1 << n)]
        side = NONE
        if k == z3.Z3_OP_EXTRACT and e.arg(0).size() <= 32:
            # the bits above and below
            top, low = e.params()
            w, _, _, side = self.unsigned(e.arg(0))
            whole = v * z3.IntVal(1 << low)
            if low:
                b = z3.Int("l%d" % v.get_id())
                bounds += [b >= 0, b < z3.IntVal(1 << low)]
                whole = whole + b
            if top + 1 < e.arg(0).size():
                a = z3.Int("h%d" % v.get_id())
                bounds += [a >= 0, a < z3.IntVal(1 << (e.arg(0).size() - top - 1))]
                whole = whole + a * z3.IntVal(1 << (top + 1))
            bounds.append(w == whole)
        return v, 0, (1 << n) - 1, union((self.bounded(v, *bounds), side))

    def signed(self, e):
        """(Int expression, lo, hi, side constraints) of a signed term."""
        k = e.get_id()
        r = self.ints.get(k)
        if r is None:
            r = self._signed(e)
            self.keep.append(e)
            self.ints[k] = r
        return r

    def _signed(self, e):
        n = e.size()
        lim = 1 << (n - 1)
        k = e.decl().kind()
        if k == z3.Z3_OP_BNUM:
            v = e.as_signed_long()
            return z3.IntVal(v), v, v, NONE
        if k == z3.Z3_OP_CONCAT:
            t, lo, hi, s = self.unsigned(e)
            if hi < lim:
                return t, lo, hi, s
        elif k == z3.Z3_OP_BADD:
            ps = [self.signed(c) for c in e.children()]
            lo, hi = sum(p[1] for p in ps), sum(p[2] for p in ps)
            if -lim * 8 < lo and hi < lim * 8:
                # exact modulo 2^n; the engine's ranges make the value fit
                return z3.Sum([p[0] for p in ps]), lo, hi, union(p[3] for p in ps)
        elif k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            c = e.arg(0).as_signed_long()
            t, lo, hi, s = self.signed(e.arg(1))
            a, b = sorted((lo * c, hi * c))
            if -lim * 8 < a and b < lim * 8:
                return t * z3.IntVal(c), a, b, s
        elif k == z3.Z3_OP_BNEG:
            t, lo, hi, s = self.signed(e.arg(0))
            return -t, -hi, -lo, s
        elif k == z3.Z3_OP_BSUB and e.num_args() == 2:
            a, b = self.signed(e.arg(0)), self.signed(e.arg(1))
            return a[0] - b[0], a[1] - b[2], a[2] - b[1], union((a[3], b[3]))
        elif k == z3.Z3_OP_ITE:
            c, s0 = self.boolean(e.arg(0))
            a, b = self.signed(e.arg(1)), self.signed(e.arg(2))
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), union((s0, a[3], b[3]))
        v = self.atom(e, n)
        return v, -lim, lim - 1, self.bounded(v, v >= z3.IntVal(-lim), v < z3.IntVal(lim))

    def boolean(self, e):
        k = e.get_id()
        r = self.bools.get(k)
        if r is None:
            r = self._boolean(e)
            self.keep.append(e)
            self.bools[k] = r
        return r

    def _boolean(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return e, NONE
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (
            k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_XOR) and z3.is_bool(e.arg(e.num_args() - 1))
        ):
            ps = [self.boolean(c) for c in e.children()]
            side = union(p[1] for p in ps)
            a = [p[0] for p in ps]
            if k == z3.Z3_OP_AND:
                return z3.And(a), side
            if k == z3.Z3_OP_OR:
                return z3.Or(a), side
            if k == z3.Z3_OP_NOT:
                return z3.Not(a[0]), side
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(*a), side
            if k == z3.Z3_OP_ITE:
                return z3.If(*a), side
            if k == z3.Z3_OP_EQ:
                return a[0] == a[1], side
            return z3.Xor(*a), side
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = self.signed(e.arg(0)), self.signed(e.arg(1))
            t = {
                z3.Z3_OP_SLEQ: lambda: a[0] <= b[0], z3.Z3_OP_SLT: lambda: a[0] < b[0],
                z3.Z3_OP_SGEQ: lambda: a[0] >= b[0], z3.Z3_OP_SGT: lambda: a[0] > b[0],
            }[k]()
            return t, union((a[3], b[3]))
        if k == z3.Z3_OP_EQ and z3.is_bv(e.arg(0)) and e.num_args() == 2:
            if e.arg(0).size() >= 40:
                a, b = self.signed(e.arg(0)), self.signed(e.arg(1))
            else:
                a, b = self.unsigned(e.arg(0)), self.unsigned(e.arg(1))
            return a[0] == b[0], union((a[3], b[3]))
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.unsigned(e.arg(0)), self.unsigned(e.arg(1))
            t = {
                z3.Z3_OP_ULEQ: lambda: a[0] <= b[0], z3.Z3_OP_ULT: lambda: a[0] < b[0],
                z3.Z3_OP_UGEQ: lambda: a[0] >= b[0], z3.Z3_OP_UGT: lambda: a[0] > b[0],
            }[k]()
            return t, union((a[3], b[3]))
        k = e.get_id()
        r = self.atoms.get(("b", k))
        if r is None:
            self.keep.append(e)
            r = self.atoms[("b", k)] = z3.Bool("b%d" % len(self.atoms))
        return r, NONE

    # -- solver -----------------------------------------------------------
    def _add(self, c):
        t, side = self.boolean(c)
        self.solver.add(t)
        for x in side:
            self.solver.add(*self.bounds[x][1])

    def congruent(self, m):
        """Lemmas on bytes at places that are equal in a model; False if there
        is none to add."""
        added = False
        for cells in self.cells.values():
            at = {}
            for v, i, side in cells:
                k = m.eval(i, model_completion=True).as_long()
                if k not in at:
                    at[k] = (v, i, side)
                    continue
                w, j, _ = at[k]
                if m.eval(v, model_completion=True).as_long() != m.eval(w, model_completion=True).as_long():
                    key = (v.get_id(), w.get_id())
                    if key not in self.lemmas:
                        self.lemmas[key] = z3.Implies(i == j, v == w)
                        self.solver.add(self.lemmas[key])
                        for x in side:
                            self.solver.add(*self.bounds[x][1])
                        added = True
        return added

    def unsat_congruent(self, base, trail, extra, rounds=12):
        """unsat, with bytes being a function of their place."""
        self.unsat(base, trail, ())
        self.solver.push()
        try:
            for c in extra:
                self._add(z3.simplify(c))
            for c in self.lemmas.values():
                self.solver.add(c)
            for _ in range(rounds):
                r = self.solver.check()
                if r == z3.unsat:
                    return True
                if r != z3.sat or not self.congruent(self.solver.model()):
                    return False
            return False
        finally:
            self.solver.pop()

    def unsat(self, base, trail, extra):
        if not self.stack:
            for c in base:
                self._add(z3.simplify(c))
            self.stack.append(None)
        # the decisions of the path, as far as they are not asserted yet
        n = 1
        for d in trail:
            if n < len(self.stack) and self.stack[n][0] is d[0] and self.stack[n][1] == d[1]:
                n += 1
                continue
            break
        while len(self.stack) > n:
            self.stack.pop()
            self.solver.pop()
        for d in trail[n - 1 :]:
            self.solver.push()
            self._add(d[0] if d[1] else z3.Not(d[0]))
            self.stack.append((d[0], d[1]))
        if not extra:
            return self.solver.check() == z3.unsat
        self.solver.push()
        try:
            for c in extra:
                self._add(z3.simplify(c))
            return self.solver.check() == z3.unsat
        finally:
            self.solver.pop()
