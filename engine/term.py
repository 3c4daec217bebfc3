"""Hash-consed values of the value-numbering domain.

Every abstract value is an interned node (op, args); equal nodes are identical objects.
Booleans are BDDs over atoms; atoms are nodes too (comparisons, opaque tests, byte-class tests).
Integers are kept as linear forms over opaque terms and tables of single input bytes.
"""
from math import gcd
from functools import reduce
from bdd import BDD, T, F

INF = 1 << 200


class Node:
    __slots__ = ('op', 'args', 'id', 'rng', 'ty', '_deps', 'loc')

    def __repr__(self):
        return show(self, 4)


class World:
    """One analysis universe: intern table, atoms and BDD manager."""

    def __init__(self):
        self.tab = {}
        self.n = 0
        self.bdd = BDD()
        self.atoms = []          # var index -> node
        self.atomvar = {}
        self.cur = None          # source position being analysed
        self.UNDEF = self.mk('undef')
        self.UNIT = self.mk('agg', None)
        self.TRUE = self.mk('B', T)
        self.FALSE = self.mk('B', F)
        self.rmemo = {}
        self.fresh_n = 0

    def mk(self, op, *args, rng=None, ty=None):
        k = (op, args)
        r = self.tab.get(k)
        if r is None:
            r = Node()
            r.op = op
            r.args = args
            r.id = self.n
            r.rng = rng
            r.ty = ty
            r._deps = None
            r.loc = self.cur
            self.n += 1
            self.tab[k] = r
        elif rng is not None and r.rng is None:
            r.rng = rng
        return r

    # ---- booleans
    def B(self, b):
        return self.TRUE if b == T else self.FALSE if b == F else self.mk('B', b)

    def atom(self, node):
        v = self.atomvar.get(node)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(node)
            self.atomvar[node] = v
        return self.bdd.atom(v)

    # ---- integers
    def I(self, c):
        return self.mk('i', int(c))

    def range_of(self, n):
        op = n.op
        if op == 'i':
            return (n.args[0], n.args[0])
        if n.rng is not None:
            return n.rng
        if op == 'lin':
            lo = hi = n.args[0]
            for t, c in n.args[1]:
                a, b = self.range_of(t)
                if c > 0:
                    lo += c * a
                    hi += c * b
                else:
                    lo += c * b
                    hi += c * a
            r = (max(lo, -INF), min(hi, INF))
        elif op == 'tab':
            r = (min(n.args[1]), max(n.args[1]))
        elif op == 'ite':
            a = self.range_of(n.args[1])
            b = self.range_of(n.args[2])
            r = (min(a[0], b[0]), max(a[1], b[1]))
        else:
            r = (-INF, INF)
        n.rng = r
        return r

    def lin_parts(self, n):
        if n.op == 'i':
            return n.args[0], ()
        if n.op == 'lin':
            return n.args
        return 0, ((n, 1),)

    @staticmethod
    def byte_table(n):
        """(byte symbol, table) if n is a term that is a table of one byte."""
        if n.op == 'byte':
            return n, None
        if n.op == 'tab':
            return n.args[0], n.args[1]
        return None

    def lin(self, c, terms):
        """terms: dict node -> coefficient"""
        out = {}
        tabs = {}
        for t, k in terms.items():
            if k == 0:
                continue
            if t.op in ('byte', 'tab'):
                s = t if t.op == 'byte' else t.args[0]
                tab = range(256) if t.op == 'byte' else t.args[1]
                if s in tabs:
                    tabs[s] = [x + k * y for x, y in zip(tabs[s], tab)]
                else:
                    tabs[s] = [k * y for y in tab]
            else:
                out[t] = out.get(t, 0) + k
        for s, tab in tabs.items():
            z = tab[0]
            c += z
            tab = tuple(x - z for x in tab)
            d = tab[1]
            if all(x == d * i for i, x in enumerate(tab)):
                if d:
                    out[s] = d
            else:
                out[self.mk('tab', s, tab)] = 1
        items = tuple(sorted(((t, k) for t, k in out.items() if k), key=lambda p: p[0].id))
        if not items:
            return self.I(c)
        if c == 0 and len(items) == 1 and items[0][1] == 1:
            return items[0][0]
        return self.mk('lin', c, items)

    def add(self, a, b, kb=1):
        ca, ta = self.lin_parts(a)
        cb, tb = self.lin_parts(b)
        d = dict(ta)
        for t, k in tb:
            d[t] = d.get(t, 0) + kb * k
        return self.lin(ca + kb * cb, d)

    def scale(self, a, k):
        c, t = self.lin_parts(a)
        return self.lin(c * k, {x: y * k for x, y in t})

    def single_byte(self, n):
        """(byte symbol, table) when n depends on exactly one byte and nothing else."""
        if n.op == 'byte':
            return n, tuple(range(256))
        if n.op == 'tab':
            return n.args
        if n.op == 'lin' and len(n.args[1]) == 1:
            t, k = n.args[1][0]
            r = self.byte_table(t)
            if r:
                s, tab = r
                tab = range(256) if tab is None else tab
                return s, tuple(n.args[0] + k * x for x in tab)
        return None

    def from_table(self, s, tab):
        tab = tuple(tab)
        if all(x == tab[0] for x in tab):
            return self.I(tab[0])
        if tab == tuple(range(256)):
            return s
        return self.lin(0, {self.mk('tab', s, tab): 1})

    def inset(self, s, vals):
        """Condition: byte s is in vals."""
        vals = frozenset(vals)
        if not vals:
            return F
        if len(vals) == 256:
            return T
        k = ('inset', s, vals)
        r = self.rmemo.get(k)
        if r is None:
            vs = [self.atomvar_of(self.mk('bit', s, b)) for b in range(7, -1, -1)]

            def build(depth, base):
                if depth == 8:
                    return T if base in vals else F
                lo = build(depth + 1, base)
                hi = build(depth + 1, base | (1 << (7 - depth)))
                return self.bdd.ite(self.bdd.atom(vs[depth]), hi, lo)
            r = build(0, 0)
            self.rmemo[k] = r
        return r

    def atomvar_of(self, node):
        self.atom(node)
        return self.atomvar[node]

    def ite_leaves(self, n, limit=128):
        """[(cond, leaf)] of an integer term whose linear form contains conditional terms; None if none or too many."""
        c, t = self.lin_parts(n)
        it = [(x, k) for x, k in t if x.op == 'ite']
        if not it:
            return None
        x, k = it[0]
        rest = self.add(n, x, -k)
        out = []
        st = [(T, x)]
        while st:
            cond, y = st.pop()
            if y.op == 'ite':
                g = y.args[0]
                c1 = self.bdd.AND(cond, g)
                c0 = self.bdd.AND(cond, self.bdd.NOT(g))
                if c0 != F:
                    st.append((c0, y.args[2]))
                if c1 != F:
                    st.append((c1, y.args[1]))
            else:
                out.append((cond, self.add(rest, y, k)))
                if len(out) > limit:
                    return None
        return out

    def int_cases(self, n, pc=T, limit=512):
        """[(cond, constant node)] covering pc, splitting conditionals and small byte tables; None if not constant."""
        k = ('cases', n, pc)
        r = self.rmemo.get(k)
        if r is not None:
            return r if r != 0 else None
        out = []
        st = [(pc, n)]
        while st:
            c, v = st.pop()
            if v.op == 'i':
                out.append((c, v))
                if len(out) > limit:
                    out = None
                    break
                continue
            lv = self.ite_leaves(v)
            if lv is None:
                t = self.lin_parts(v)[1]
                tb = next(((x, q) for x, q in t if x.op == 'tab' and len(set(x.args[1])) <= 16), None)
                if tb is None:
                    out = None
                    break
                x, q = tb
                rest = self.add(v, x, -q)
                vals = {}
                for i, y in enumerate(x.args[1]):
                    vals.setdefault(y, []).append(i)
                lv = [(self.inset(x.args[0], ix), self.add(rest, self.I(y), q)) for y, ix in vals.items()]
            for g, l in lv:
                cc = self.bdd.AND(c, g)
                if cc != F:
                    st.append((cc, l))
        if out is not None:
            m = {}
            for c, v in out:
                m[v] = self.bdd.OR(m.get(v, F), c)
            out = sorted(((c, v) for v, c in m.items()), key=lambda p: p[1].args[0])
        self.rmemo[k] = out if out is not None else 0
        return out

    def ge0(self, n):
        lo, hi = self.range_of(n)
        if lo >= 0:
            return T
        if hi < 0:
            return F
        sb = self.single_byte(n)
        if sb:
            return self.inset(sb[0], [v for v in range(256) if sb[1][v] >= 0])
        r = self.residue(n, lambda x: x >= 0)
        if r is not None:
            return r
        lv = self.ite_leaves(n)
        if lv:
            rs = [(c, self.ge0(l)) for c, l in lv]
            if len({x for _, x in rs if x > 1}) <= 8:
                r = F
                for c, x in rs:
                    r = self.bdd.OR(r, self.bdd.AND(c, x))
                return r
            return self.atom(self.mk('ige0', n))
        c, t = self.lin_parts(n)
        g = reduce(gcd, [k for _, k in t])
        if g > 1:
            t = tuple((x, k // g) for x, k in t)
            c = c // g
        if t[0][1] < 0:
            m = self.lin(-c - 1, {x: -k for x, k in t})
            return self.bdd.NOT(self.atom(self.mk('ige0', m)))
        return self.atom(self.mk('ige0', self.lin(c, dict(t))))

    def eq0(self, n):
        lo, hi = self.range_of(n)
        if lo == 0 == hi:
            return T
        if lo > 0 or hi < 0:
            return F
        sb = self.single_byte(n)
        if sb:
            return self.inset(sb[0], [v for v in range(256) if sb[1][v] == 0])
        r = self.residue(n, lambda x: x == 0)
        if r is not None:
            return r
        lv = self.ite_leaves(n)
        if lv:
            rs = [(c, self.eq0(l)) for c, l in lv]
            if len({x for _, x in rs if x > 1}) <= 8:
                r = F
                for c, x in rs:
                    r = self.bdd.OR(r, self.bdd.AND(c, x))
                return r
            return self.atom(self.mk('ieq0', n))
        c, t = self.lin_parts(n)
        g = reduce(gcd, [k for _, k in t])
        if g > 1:
            if c % g:
                return F
            t = tuple((x, k // g) for x, k in t)
            c = c // g
        if t[0][1] < 0:
            t = tuple((x, -k) for x, k in t)
            c = -c
        return self.atom(self.mk('ieq0', self.lin(c, dict(t))))

    def residue(self, n, test):
        """test(n) for n built from one small remainder and at most one byte, or from two bytes taking few values:
        a condition on their values; else None."""
        c, t = self.lin_parts(n)
        if len(t) == 2:
            bs = [(self.byte_table(x), k) for x, k in t]
            if all(x for x, _ in bs):
                vs = []
                for (s, tab), k in bs:
                    m = {}
                    for i in range(256):
                        m.setdefault(k * (i if tab is None else tab[i]), []).append(i)
                    vs.append((s, m))
                if len(vs[0][1]) * len(vs[1][1]) <= 400:
                    acc = F
                    for a, ia in vs[0][1].items():
                        iz = [i for z, ix in vs[1][1].items() if test(c + a + z) for i in ix]
                        if iz:
                            acc = self.bdd.OR(acc, self.bdd.AND(self.inset(vs[0][0], ia), self.inset(vs[1][0], iz)))
                    return acc
        r = [(x, k) for x, k in t if x.op == 'irem']
        o = [(x, k) for x, k in t if x.op != 'irem']
        if len(r) != 1 or len(o) > 1 or r[0][0].args[1] > 16 or self.range_of(r[0][0])[0] < 0:
            return None
        x, k = r[0]
        if not o:
            return self.insetr(x, [v for v in range(x.args[1]) if test(c + k * v)])
        bt = self.byte_table(o[0][0])
        if bt is None:
            return None
        tab = range(256) if bt[1] is None else bt[1]
        acc = F
        for v in range(x.args[1]):
            vals = [i for i in range(256) if test(c + k * v + o[0][1] * tab[i])]
            if vals:
                acc = self.bdd.OR(acc, self.bdd.AND(self.insetr(x, [v]), self.inset(bt[0], vals)))
        return acc

    def insetr(self, x, vals):
        """Condition: the remainder x (below 16) is in vals; unused codes repeat the largest remainder."""
        m = x.args[1]
        vs = [self.atomvar_of(self.mk('rbit', x, b)) for b in range(3, -1, -1)]

        def build(depth, base):
            if depth == 4:
                return T if min(base, m - 1) in vals else F
            return self.bdd.ite(self.bdd.atom(vs[depth]), build(depth + 1, base | 8 >> depth), build(depth + 1, base))
        return build(0, 0)

    def map_int(self, n, f, opname):
        """Apply integer function f to n where it is a table or a small conditional; else None."""
        if n.op == 'i':
            return self.I(f(n.args[0]))
        sb = self.single_byte(n)
        if sb:
            return self.from_table(sb[0], [f(x) for x in sb[1]])
        lv = self.ite_leaves(n)
        if lv:
            rs = [(c, self.map_int(l, f, opname)) for c, l in lv]
            if all(r is not None for _, r in rs):
                return self.select(rs)
        return None

    def select(self, rs):
        """Disjoint guarded values to a nested conditional; the value is irrelevant outside the guards."""
        if len(rs) > 1 and all(v.op in ('i', 'lin', 'tab', 'byte') for _, v in rs):
            gs = []
            for c, v in rs:
                for k, (g, w) in enumerate(gs):
                    if w is v or self.same_under(w, v, c):
                        gs[k] = (self.bdd.OR(g, c), w)
                        break
                    if self.same_under(w, v, g):
                        gs[k] = (self.bdd.OR(g, c), v)
                        break
                else:
                    gs.append((c, v))
            rs = gs
        acc = rs[-1][1]
        for c, v in reversed(rs[:-1]):
            acc = self.ite(c, v, acc)
        return acc

    # ---- conditionals on any value
    def ite(self, c, a, b):
        if a is b or c == T:
            return a
        if c == F:
            return b
        U = self.UNDEF
        if a is U:
            return b
        if b is U:
            return a
        if a.op == 'B' and b.op == 'B':
            return self.B(self.bdd.ite(c, a.args[0], b.args[0]))
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            return self.mk('agg', a.args[0], *[self.ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
        if a.op == 'slice' and b.op == 'slice' and a.args[0] is b.args[0]:
            return self.mk('slice', a.args[0], self.ite(c, a.args[1], b.args[1]), self.ite(c, a.args[2], b.args[2]))
        # same-condition simplification
        if a.op == 'ite' and a.args[0] == c:
            a = a.args[1]
        if b.op == 'ite' and b.args[0] == c:
            b = b.args[2]
        if a is b:
            return a
        isint = lambda x: x.op in ('i', 'lin', 'tab', 'byte') or (x.op == 'ite' and x.ty == 'int')
        ty = None
        if isint(a) or isint(b):
            ty = 'int'
            r = self.byte_ite(c, a, b)
            if r is not None:
                return r
            if self.same_under(a, b, c):
                return b
            if self.same_under(a, b, self.bdd.NOT(c)):
                return a
        n = self.mk('ite', c, a, b)
        if ty:
            n.ty = ty
        return n

    def same_under(self, a, b, c):
        """Do two integer terms that differ only in byte tables agree whenever c holds?"""
        k0, terms = self.lin_parts(self.add(a, b, -1))
        if not terms:
            return False
        total = k0
        for t, k in terms:
            bt = self.byte_table(t)
            if bt is None:
                return False
            tab = range(256) if bt[1] is None else bt[1]
            vals = {}
            for i, y in enumerate(tab):
                vals.setdefault(k * y, []).append(i)
            hit = None
            for y, ix in vals.items():
                if self.bdd.AND(c, self.inset(bt[0], ix)) != F:
                    if hit is not None:
                        return False
                    hit = y
            if hit is None:
                return False
            total += hit
        return total == 0

    def byte_ite(self, c, a, b):
        """Conditional on one byte whose arms differ only in tables of that byte: one table."""
        sup = self.bdd.support(c)
        s = None
        for v in sup:
            at = self.atoms[v]
            if at.op != 'bit':
                return None
            if s is None:
                s = at.args[0]
            elif s is not at.args[0]:
                return None
        ca, ta = self.lin_parts(a)
        cb, tb = self.lin_parts(b)

        def split(c0, t):
            rest = []
            tab = [c0] * 256
            for x, k in t:
                r = self.byte_table(x)
                if r and r[0] is s:
                    for v in range(256):
                        tab[v] += k * (v if r[1] is None else r[1][v])
                else:
                    rest.append((x, k))
            return tuple(rest), tab
        ra, tabA = split(ca, ta)
        rb, tabB = split(cb, tb)
        if ra != rb:
            return None
        tab = []
        for v in range(256):
            tab.append(tabA[v] if self.eval_byte(c, s, v) else tabB[v])
        d = dict(ra)
        d[self.mk('tab', s, tuple(tab))] = 1
        return self.lin(0, d)

    def eval_byte(self, c, s, v):
        while c > 1:
            at = self.atoms[self.bdd.var[c]]
            c = self.bdd.hi[c] if (v >> at.args[1]) & 1 else self.bdd.lo[c]
        return c == T

    def restrict(self, n, pc):
        """Simplify the conditionals of value n, given that pc holds."""
        if pc == T or n.op in ('i', 'byte', 'sym', 'f', 'undef', 'cell', 'fn'):
            return n
        k = (n, pc)
        r = self.rmemo.get(k)
        if r is not None:
            return r
        op = n.op
        if op == 'ite':
            g = n.args[0]
            if self.bdd.AND(pc, g) == F:
                r = self.restrict(n.args[2], pc)
            elif self.bdd.implies(pc, g):
                r = self.restrict(n.args[1], pc)
            else:
                r = self.ite(self.bdd.restrict(g, pc), self.restrict(n.args[1], self.bdd.AND(pc, g)),
                             self.restrict(n.args[2], self.bdd.AND(pc, self.bdd.NOT(g))))
        elif op == 'B':
            r = self.B(self.bdd.restrict(n.args[0], pc))
        elif op == 'agg':
            r = self.mk('agg', n.args[0], *[self.restrict(x, pc) for x in n.args[1:]])
        elif op == 'slice':
            r = self.mk('slice', n.args[0], self.restrict(n.args[1], pc), self.restrict(n.args[2], pc))
        elif op == 'lin':
            acc = self.I(n.args[0])
            for t, kk in n.args[1]:
                acc = self.add(acc, self.restrict(t, pc), kk)
            r = acc
        else:
            r = n
        self.rmemo[k] = r
        return r

    def leaves(self, n, pc=T):
        """[(cond, leaf value)] of a conditional value, under pc; conditions are disjoint and feasible."""
        out = []
        st = [(pc, n)]
        while st:
            c, v = st.pop()
            if v.op == 'ite':
                g = v.args[0]
                c0 = self.bdd.AND(c, self.bdd.NOT(g))
                c1 = self.bdd.AND(c, g)
                if c0 != F:
                    st.append((c0, v.args[2]))
                if c1 != F:
                    st.append((c1, v.args[1]))
            else:
                out.append((c, v))
        return out

    def fresh(self, tag, rng=None):
        self.fresh_n += 1
        return self.mk('sym', f'{tag}#{self.fresh_n}', rng=rng)


def show(n, d=6):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'i':
        return str(n.args[0])
    if n.op == 'f':
        return repr(n.args[0])
    if n.op in ('sym', 'byte'):
        return str(n.args[0]) + (f'[{n.args[1]}]' if n.op == 'byte' else '')
    if d == 0:
        return f'<{n.op}#{n.id}>'
    if n.op == 'lin':
        return '(' + ' + '.join([str(n.args[0])] * (n.args[0] != 0) + [(f'{k}*' if k != 1 else '') + show(t, d - 1) for t, k in n.args[1]]) + ')'
    if n.op == 'tab':
        return f'tab{hash(n.args[1]) % 1000}({show(n.args[0])})'
    if n.op == 'agg':
        return ('{' if n.args[0] is None else f'#{n.args[0]}{{') + ', '.join(show(a, d - 1) for a in n.args[1:]) + '}'
    return f'{n.op}(' + ', '.join(show(a, d - 1) if isinstance(a, Node) else str(a) for a in n.args) + ')'
