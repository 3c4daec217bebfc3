"""Termination of loops that the engine keeps as fixpoints: a variable that moves by a constant amount
away from every bound under which the loop goes round again, whatever the other values are."""
from bdd import T, F
from term import Node

STRICT = ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'fsin', 'fcos', 'frem', 'ffloor', 'fceil', 'ftrunc', 'fround')


class Ranking:
    def __init__(self, W, loop):
        self.W, self.b, self.loop = W, W.bdd, loop
        self.lvs = {n for n, _, _ in loop['vars']}
        self.memo = {}

    def mentions(self, n, what, memo=None):
        memo = {} if memo is None else memo
        if n in memo:
            return memo[n]
        memo[n] = False
        if n in what:
            memo[n] = True
            return True
        for a in n.args:
            if isinstance(a, Node):
                if self.mentions(a, what, memo):
                    memo[n] = True
                    return True
            elif isinstance(a, tuple):
                for x in a:
                    x = x[0] if isinstance(x, tuple) and x else x
                    if isinstance(x, Node) and self.mentions(x, what, memo):
                        memo[n] = True
                        return True
        return memo[n]

    def pieces(self, n):
        """[(condition, {term: coefficient}, constant)]: the value as conditional linear forms over opaque terms."""
        if n in self.memo:
            return self.memo[n]
        r = self._pieces(n)
        if len(r) > 24:
            r = [(T, {n: 1}, 0)]
        self.memo[n] = r
        return r

    def _pieces(self, n):
        b = self.b
        if n.op in ('f', 'i'):
            return [(T, {}, n.args[0])]
        if n.op == 'lin':
            c, ts = n.args
            r = [(T, {}, c)]
            for t, k in ts:
                r = self.comb(r, self.pieces(t), k)
            return r
        if n.op == 'ite':
            out = []
            g = n.args[0]
            for side, v in ((g, n.args[1]), (b.NOT(g), n.args[2])):
                out += [(b.AND(side, c), d, k) for c, d, k in self.pieces(v) if b.AND(side, c) != F]
            return out
        if n.op == 'fadd':
            return self.comb(self.pieces(n.args[0]), self.pieces(n.args[1]), 1)
        if n.op == 'fsub':
            return self.comb(self.pieces(n.args[0]), self.pieces(n.args[1]), -1)
        if n.op == 'fneg':
            return self.comb([(T, {}, 0)], self.pieces(n.args[0]), -1)
        if n.op in ('fmul', 'fdiv'):
            x, y = self.pieces(n.args[0]), self.pieces(n.args[1])
            if n.op == 'fmul' and all(not d for _, d, _ in x):
                x, y = y, x
            if all(not d for _, d, _ in y) and (n.op == 'fmul' or all(k for _, _, k in y)):
                out = []
                for c1, d, k in x:
                    for c2, _, m in y:
                        c = b.AND(c1, c2)
                        m = m if n.op == 'fmul' else 1 / m
                        if c != F:
                            out.append((c, {t: v * m for t, v in d.items()}, k * m))
                return out
        if n.op == 'fcopysign' or n.op == 'fsignum':
            x = n.args[0]
            if n.op == 'fcopysign' and x.op == 'f':
                s = self.W.atom(self.W.mk('signpos', n.args[1]))
                return [(s, {}, abs(x.args[0])), (b.NOT(s), {}, -abs(x.args[0]))]
            if n.op == 'fsignum':
                s = self.W.atom(self.W.mk('signpos', x))
                return [(s, {}, 1.0), (b.NOT(s), {}, -1.0)]
        return [(T, {n: 1}, 0)]

    def comb(self, x, y, k):
        out = []
        for c1, d1, k1 in x:
            for c2, d2, k2 in y:
                c = self.b.AND(c1, c2)
                if c == F:
                    continue
                d = dict(d1)
                for t, v in d2.items():
                    d[t] = d.get(t, 0) + k * v
                out.append((c, {t: v for t, v in d.items() if v}, k1 + k * k2))
        return out

    def difference(self, a):
        """Pieces of left minus right for a comparison atom."""
        if a.op in ('flt', 'fle', 'feq'):
            return self.comb(self.pieces(a.args[0]), self.pieces(a.args[1]), -1)
        if a.op in ('ige0', 'ieq0'):
            return self.pieces(a.args[0])
        return None

    @staticmethod
    def truth(op, sign):
        return {'flt': sign < 0, 'fle': sign < 0, 'feq': False, 'ige0': sign > 0, 'ieq0': False}[op]

    def force(self, f, a, parts):
        """f under atom a <-> the given truth values of its pieces (None: undecided)."""
        b, v = self.b, self.b.atom(self.W.atomvar_of(a))
        for c, t in parts:
            if t is not None:
                f = b.AND(f, b.OR(b.NOT(c), v if t else b.NOT(v)))
        return f

    def away(self, f, var, sign, atoms):
        """f when var lies beyond every bound in the direction of sign."""
        for a in atoms:
            ps = self.difference(a)
            if ps is None:
                continue
            parts = []
            for c, d, _ in ps:
                k = d.get(var, 0)
                free = not any(self.mentions(t, self.lvs) for t in d if t is not var)
                parts.append((c, self.truth(a.op, sign * k) if k and free else None))
            f = self.force(f, a, parts)
        return f

    def special(self, f, x, val, atoms):
        """f when the term x is not a number ('nan') or infinite (+1, -1)."""
        W, b = self.W, self.b
        for a in atoms:
            if a.op in ('finite', 'infinite', 'signpos'):
                e = a.args[0]
                if not self.mentions(e, {x}):
                    continue
                if a.op == 'finite':
                    lin = all(d.get(x) for _, d, _ in self.pieces(e))
                    if lin or val == 'nan' and self.strict(e, x):
                        f = self.force(f, a, [(T, False)])
                elif e is x and a.op == 'infinite':
                    f = self.force(f, a, [(T, val != 'nan')])
                elif e is x and val != 'nan':
                    f = self.force(f, a, [(T, val > 0)])
                continue
            if a.op not in ('flt', 'fle', 'feq'):
                continue
            l, r = (self.mentions(e, {x}) for e in a.args)
            if not (l or r):
                continue
            u, w = (value(e, x, float('nan') if val == 'nan' else val * float('inf')) for e in a.args)
            if u is not None and w is not None:
                f = self.force(f, a, [(T, u < w if a.op == 'flt' else u <= w if a.op == 'fle' else u == w)])
                continue
            if val == 'nan':
                if (l and self.strict(a.args[0], x)) or (r and self.strict(a.args[1], x)):
                    f = self.force(f, a, [(T, False)])
                continue
            if l and r:
                continue
            parts = []
            for c, d, _ in self.difference(a):
                k = d.get(x, 0)
                parts.append((c, self.truth(a.op, val * k) if k and not any(self.mentions(t, {x}) for t in d if t is not x) else None))
            f = self.force(f, a, parts)
        return f

    def ordered(self, f, atoms, finite):
        """f with the order relations between comparisons of the same finite values."""
        b, W = self.b, self.W
        have = {(a.op, a.args): b.atom(W.atomvar_of(a)) for a in atoms if a.op in ('flt', 'fle', 'feq') and all(self.inputs(e) <= finite for e in a.args)}
        for (op, (x, y)), v in have.items():
            if op != 'flt':
                continue
            o = have.get(('fle', (y, x)))
            if o is not None:           # x < y exactly if not y <= x
                f = b.AND(f, b.OR(b.AND(v, b.NOT(o)), b.AND(b.NOT(v), o)))
            for r, w in ((('fle', (x, y)), True), (('flt', (y, x)), False), (('feq', (x, y)), False), (('feq', (y, x)), False)):
                o = have.get(r)
                if o is not None:
                    f = b.AND(f, b.OR(b.NOT(v), o if w else b.NOT(o)))
        return f

    def strict(self, e, x):
        """A not-a-number x makes e not a number."""
        if e is x:
            return True
        return e.op in STRICT and any(isinstance(a, Node) and self.strict(a, x) for a in e.args)

    def decide(self, minimum):
        """None if the loop terminates, else the reason for which no argument is found. minimum: least step of a float variable."""
        W, b = self.W, self.b
        back = self.loop['back_pc']
        if back == F:
            return None
        atoms = [W.atoms[v] for v in sorted(b.support(back))]
        why = ['no variable of the loop moves by a constant']
        for var, _, step in self.loop['vars']:
            if step is None or step.op == 'B':
                continue
            ps = [(b.AND(c, back), d, k) for c, d, k in self.pieces(step)]
            ps = [p for p in ps if p[0] != F]
            moves = [(c, k) for c, d, k in ps if d == {var: 1}]
            if len(moves) != len(ps):
                continue
            if any(k == 0 for _, k in moves):
                why.append('a step leaves the variable unchanged')
                continue
            if var.ty != 'int' and any(abs(k) < minimum for _, k in moves):
                why.append(f'a step of {min(abs(k) for _, k in moves)} minutes is smaller than {minimum}')
                continue
            # terms that bound the variable
            bounds = set()
            for a in atoms:
                for c, d, _ in self.difference(a) or []:
                    if var in d:
                        bounds |= {t for t in d if t is not var and t not in self.lvs}
            leaves = set()
            if var.ty != 'int':
                for t in bounds:
                    leaves |= self.inputs(t)
            bad = None
            for c, k in moves:
                s = 1 if k > 0 else -1
                f = c
                for a in atoms:
                    if a.op == 'finite' and a.args[0] in leaves:
                        f = self.force(f, a, [(T, True)])
                    if a.op == 'infinite' and a.args[0] in leaves:
                        f = self.force(f, a, [(T, False)])
                f = self.ordered(f, atoms, leaves)
                if self.away(f, var, s, atoms) != F:
                    bad = 'it goes round again however far the variable has moved'
                    break
                for x in leaves:
                    for val in ('nan', 1, -1):
                        g = self.away(self.special(c, x, val, atoms), var, s, [a for a in atoms if not self.mentions(a, {x})])
                        if g != F:
                            bad = f'it never ends when {name(x)} is ' + ('not a number' if val == 'nan' else 'infinite')
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad is None:
                return None
            why.append(bad)
        return why[-1]

    def inputs(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return set()
        seen.add(t)
        if t.op in ('sym', 'fld', 'lv'):
            return {t}
        r = set()
        for a in t.args:
            if isinstance(a, Node):
                r |= self.inputs(a, seen)
        return r


def value(e, x, v):
    """Value of an expression over x alone at x = v, or None."""
    if e is x:
        return v
    if e.op in ('f', 'i'):
        return float(e.args[0])
    a = [value(y, x, v) if isinstance(y, Node) else None for y in e.args]
    if None in a:
        return None
    try:
        return {'fneg': lambda p: -p, 'fabs': abs, 'fadd': lambda p, q: p + q, 'fsub': lambda p, q: p - q, 'fmul': lambda p, q: p * q}[e.op](*a)
    except KeyError:
        return None


def name(x):
    return str(x.args[0]) if x.op == 'sym' else repr(x)
