"""Reduced ordered binary decision diagrams over atoms (used for path conditions and gates).

Atoms created later are nearer to the root, so that adding a new test to a long path condition is cheap.
"""
T = 1
F = 0


class BDD:
    def __init__(self):
        self.var = [-1, -1]
        self.lo = [0, 0]
        self.hi = [0, 0]
        self.uniq = {}
        self.memo = {}
        self.cmemo = {}
        self.smemo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
        return r

    def atom(self, v):
        return self.mk(v, F, T)

    def ite(self, f, g, h):
        if f == T:
            return g
        if f == F:
            return h
        if g == h:
            return g
        if g == T and h == F:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = max(self.var[f], self.var[g], self.var[h])
        f0, f1 = (self.lo[f], self.hi[f]) if self.var[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if self.var[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if self.var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def node(self, f):
        """(variable, low, high) of an inner node."""
        return self.var[f], self.lo[f], self.hi[f]

    def AND(self, a, b):
        if a == F or b == F:
            return F
        if a == T:
            return b
        if b == T or a == b:
            return a
        return self.ite(a, b, F) if a < b else self.ite(b, a, F)

    def OR(self, a, b):
        if a == T or b == T:
            return T
        if a == F:
            return b
        if b == F or a == b:
            return a
        return self.ite(a, T, b) if a < b else self.ite(b, T, a)

    def NOT(self, a):
        return self.ite(a, F, T)

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == F

    def restrict(self, f, c):
        """Simplify f, given that c holds (Coudert-Madre restrict)."""
        if c == F or c == T or f <= 1:
            return f
        if f == c:
            return T
        k = (f, c)
        r = self.cmemo.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[c]
        if vc > vf:
            r = self.restrict(f, self.OR(self.lo[c], self.hi[c]))
        else:
            c0, c1 = (self.lo[c], self.hi[c]) if vc == vf else (c, c)
            if c0 == F:
                r = self.restrict(self.hi[f], c1)
            elif c1 == F:
                r = self.restrict(self.lo[f], c0)
            else:
                r = self.mk(vf, self.restrict(self.lo[f], c0), self.restrict(self.hi[f], c1))
        self.cmemo[k] = r
        return r

    def support(self, f):
        r = self.smemo.get(f)
        if r is not None:
            return r
        vs = set()
        seen = {0, 1}
        st = [f]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            vs.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        r = frozenset(vs)
        self.smemo[f] = r
        return r

    def cof(self, f, v, b):
        """Cofactor by variable v := b."""
        if f <= 1 or self.var[f] < v:
            return f
        k = ('cof', f, v, b)
        r = self.memo.get(k)
        if r is None:
            if self.var[f] == v:
                r = self.hi[f] if b else self.lo[f]
            else:
                r = self.mk(self.var[f], self.cof(self.lo[f], v, b), self.cof(self.hi[f], v, b))
            self.memo[k] = r
        return r

    def cubes(self, f, limit=64):
        """Satisfying cubes of f as lists of (var, bool)."""
        out = []
        st = [(f, ())]
        while st and len(out) < limit:
            n, p = st.pop()
            if n == F:
                continue
            if n == T:
                out.append(p)
                continue
            st.append((self.hi[n], p + ((self.var[n], True),)))
            st.append((self.lo[n], p + ((self.var[n], False),)))
        return out
