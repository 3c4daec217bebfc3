"""Equality of two values of one World under a condition.

The values of the code and of a reference definition are terms over the same input symbols.  They are split
along their conditionals; integers are compared as linear forms whose byte tables may differ only on byte values
the condition excludes; everything else must be built by the same operation from equal parts.  Opaque tests of
the code (remainders, calls of other crates) are identified with those of the reference when their arguments are equal.
"""
from bdd import T, F
from term import Node

INT = ('i', 'lin', 'tab', 'byte')


class Same:
    def __init__(self, I):
        self.I, self.W, self.b = I, I.W, I.b
        self.ref_atoms = []      # atom nodes of the reference, other than input bits
        self.memo = {}
        self.links = {}
        self.busy = set()

    def reference(self, *conds):
        for c in conds:
            for v in self.b.support(c):
                a = self.W.atoms[v]
                if a.op != 'bit' and a not in self.ref_atoms:
                    self.ref_atoms.append(a)

    def reference_value(self, *values):
        """Register the opaque tests inside reference values."""
        st, seen = list(values), set()
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n.op in ('ite', 'B'):
                self.reference(n.args[0])
                for v in self.b.support(n.args[0]):
                    if self.W.atoms[v].op != 'bit':
                        st.append(self.W.atoms[v])
            for x in n.args:
                if isinstance(x, Node):
                    st.append(x)
                elif isinstance(x, tuple):
                    st += [y[0] for y in x if isinstance(y, tuple) and y and isinstance(y[0], Node)]

    # ---- conditions
    def exists(self, f, vs):
        for v in sorted(vs):
            f = self.b.OR(self.b.cof(f, v, 0), self.b.cof(f, v, 1))
        return f

    def plain(self, f):
        """Weakest condition on the input bytes alone that f implies."""
        k = ('plain', f)
        if k not in self.memo:
            self.memo[k] = self.exists(f, [v for v in self.b.support(f) if self.W.atoms[v].op != 'bit'])
        return self.memo[k]

    def allowed(self, cond, s):
        """Values of byte s (bit mask over 0..255) with which cond can hold."""
        k = ('allowed', cond, s)
        if k in self.memo:
            return self.memo[k]
        b, W = self.b, self.W
        full = (1 << 256) - 1
        mine = {}
        for j in range(8):
            v = W.atomvar.get(W.mk('bit', s, j))
            if v is not None:
                m1 = sum(1 << x for x in range(256) if x >> j & 1)
                mine[v] = (full ^ m1, m1)
        lowest = min(mine) if mine else 1 << 60
        memo = {F: 0, T: full}
        st = [cond]
        while st:
            n = st[-1]
            if n in memo:
                st.pop()
                continue
            v = b.var[n]
            if v < lowest:
                memo[n] = full
                st.pop()
                continue
            lo, hi = b.lo[n], b.hi[n]
            if lo in memo and hi in memo:
                m = mine.get(v)
                memo[n] = memo[lo] | memo[hi] if m is None else memo[lo] & m[0] | memo[hi] & m[1]
                st.pop()
            else:
                st += [x for x in (lo, hi) if x not in memo]
        self.memo[k] = memo[cond]
        return memo[cond]

    def table_values(self, tab, k, cond, s):
        m = self.allowed(cond, s)
        return {k * y for i, y in enumerate(tab) if m >> i & 1}

    def canon(self, f, cond):
        """f with the code's opaque tests replaced by the reference tests they equal wherever cond holds."""
        W, b = self.W, self.b
        for v in sorted(b.support(f)):
            a = W.atoms[v]
            if a.op == 'bit' or a in self.ref_atoms or v not in b.support(f):
                continue
            if a.op == 'rbit':
                f = self.canon_residue(f, a.args[0], cond)
                continue
            if a in self.busy:
                continue
            self.busy.add(a)
            try:
                g = self.plain(cond)
                for r in self.ref_atoms:
                    if r.op == a.op and self.parts(a, r, g):
                        rv = W.atomvar[r]
                        f = b.ite(b.atom(rv), b.cof(f, v, 1), b.cof(f, v, 0))
                        break
            finally:
                self.busy.discard(a)
        return f

    def canon_residue(self, f, x, cond):
        """Express tests on x = X mod m through the reference's remainder S mod m, X - S depending on one byte."""
        W, b = self.W, self.b
        m = x.args[1]
        bits = [W.atomvar[W.mk('rbit', x, k)] for k in range(4)]
        cond = self.plain(cond)
        for r in {a.args[0] for a in self.ref_atoms if a.op == 'rbit'}:
            if r.args[1] != m:
                continue
            c, terms = W.lin_parts(W.add(x.args[0], r.args[0], -1))
            free = None
            for t, k in terms:
                bt = W.byte_table(t)
                if bt is None:
                    break
                tab = range(256) if bt[1] is None else bt[1]
                vals = {y % m for y in self.table_values(tab, k, cond, bt[0])}
                if len(vals) == 1:
                    c += vals.pop()
                elif free is None:
                    free = (bt[0], [k * y for y in tab])
                else:
                    break
            else:
                if free is None and c % m:
                    continue
                out = F
                for k in range(m):
                    g = f
                    for j, v in enumerate(bits):
                        g = b.cof(g, v, k >> j & 1)
                    if free is None:
                        h = W.insetr(r, [k])
                    else:
                        h = F
                        for q in range(m):
                            vs = [i for i in range(256) if (q + c + free[1][i]) % m == k]
                            h = b.OR(h, b.AND(W.insetr(r, [q]), W.inset(free[0], vs)))
                    out = b.OR(out, b.AND(g, h))
                return out
        return f

    # ---- values
    def parts(self, a, r, cond):
        if len(a.args) != len(r.args):
            return False
        for x, y in zip(a.args, r.args):
            if isinstance(x, Node) != isinstance(y, Node):
                return False
            if isinstance(x, Node):
                if not self.same(x, y, cond):
                    return False
            elif x != y:
                return False
        return True

    def same(self, a, r, cond):
        return self.diff(a, r, cond) is None

    def diff(self, a, r, cond):
        """None if code value a equals reference value r wherever cond holds, else (condition, a part, r part)."""
        W, b = self.W, self.b
        if a is r or cond == F:
            return None
        k = (a, r, cond)
        if k in self.memo:
            return self.memo[k]
        res = self.diff_(a, r, cond)
        self.memo[k] = res
        return res

    def split(self, n):
        """(condition, then, else) of the outermost conditional of a value, or None."""
        if n.op == 'ite':
            return n.args
        if n.op == 'lin':
            for t, k in n.args[1]:
                if t.op == 'ite':
                    rest = self.W.add(n, t, -k)
                    return t.args[0], self.W.add(rest, t.args[1], k), self.W.add(rest, t.args[2], k)
        return None

    def diff_(self, a, r, cond):
        W, b = self.W, self.b
        sa = self.split(a)
        if sa:
            g = self.canon(sa[0], cond)
            return self.diff(sa[1], r, b.AND(cond, g)) or self.diff(sa[2], r, b.AND(cond, b.NOT(g)))
        sr = self.split(r)
        if sr:
            g = sr[0]
            return self.diff(a, sr[1], b.AND(cond, g)) or self.diff(a, sr[2], b.AND(cond, b.NOT(g)))
        if a.op == 'B' and r.op == 'B':
            x = b.AND(cond, b.ite(self.canon(a.args[0], cond), b.NOT(r.args[0]), r.args[0]))
            return None if x == F else (x, a, r)
        if a.op in INT and r.op in INT or a.op in INT and r.ty == 'int' or r.op in INT and a.ty == 'int':
            return None if self.ints(a, r, cond) else (cond, a, r)
        if a.op[0] == 'f' and r.op[0] == 'f' and 'fld' not in (a.op, r.op):
            va, vr = self.I.fconstval(a), self.I.fconstval(r)
            if va is not None or vr is not None:
                return None if va is not None and vr is not None and va == vr else (cond, a, r)
            if a.op == r.op and a.op in ('fadd', 'fmul'):
                if not self.parts(a, r, cond) and self.same(a.args[0], r.args[1], cond) and self.same(a.args[1], r.args[0], cond):
                    return None
        if a.op != r.op or len(a.args) != len(r.args):
            return cond, a, r
        for x, y in zip(a.args, r.args):
            if isinstance(x, Node) != isinstance(y, Node) or not isinstance(x, Node) and x != y:
                return cond, a, r
        for x, y in zip(a.args, r.args):
            if isinstance(x, Node):
                d = self.diff(x, y, cond)
                if d:
                    return d
        return None

    def ints(self, a, r, cond):
        """Equal linear forms, byte tables compared where cond allows, opaque terms matched by their parts."""
        W = self.W
        c, terms = W.lin_parts(W.add(a, r, -1))
        opaque = [(t, k) for t, k in terms if W.byte_table(t) is None]
        while opaque:
            t, k = opaque.pop()
            for i, (u, q) in enumerate(opaque):
                if q == -k and u.op == t.op and (self.parts(t, u, cond) or self.parts(u, t, cond)):
                    opaque.pop(i)
                    break
            else:
                return False
        for t, k in terms:
            bt = W.byte_table(t)
            if bt is None:
                continue
            tab = range(256) if bt[1] is None else bt[1]
            hit = self.table_values(tab, k, cond, bt[0])
            if len(hit) != 1:
                return False
            c += hit.pop()
        return c == 0

    # ---- explaining
    def witness(self, cond, limit=14):
        """Readable byte constraints of one way to satisfy a condition."""
        W = self.W
        cube = self.b.cubes(cond, 1)
        if not cube:
            return 'never'
        by, rest = {}, []
        for v, val in cube[0]:
            a = W.atoms[v]
            if a.op == 'bit':
                by.setdefault(a.args[0], {})[a.args[1]] = val
            else:
                from term import show
                rest.append(('' if val else 'not ') + show(a, 3)[:120])
        out = []
        for s in sorted(by, key=lambda s: (str(s.args[0]), s.args[1] if isinstance(s.args[1], int) else 0)):
            bits = by[s]
            vals = [x for x in range(256) if all((x >> k & 1) == int(v) for k, v in bits.items())]
            vals.sort(key=lambda x: (not (48 <= x < 58), not (32 <= x < 127), x))
            out.append((s, vals[0]))
        lines = {}
        for s, v in out:
            lines.setdefault(str(s.args[0]), {})[s.args[1]] = v
        txt = []
        for nm, d in lines.items():
            ks = [k for k in d if isinstance(k, int)]
            if ks:
                txt.append(f'{nm}=' + ''.join((chr(d[i]) if 32 <= d[i] < 127 else f'\\x{d[i]:02x}') if i in d else '?' for i in range(max(ks) + 1)))
        return '; '.join(txt + rest[:limit])
