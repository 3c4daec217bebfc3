"""Small expression language for writing reference definitions in the value domain of the engine."""
from bdd import T, F
from term import Node


class X:
    """A real-valued reference expression."""
    __slots__ = ('R', 'n')

    def __init__(self, R, n):
        self.R = R
        self.n = n

    def _b(self, op, o, rev=False):
        a, c = self.n, self.R.num(o).n
        if rev:
            a, c = c, a
        return X(self.R, self.R.I.fl(op, a, c))

    def __add__(self, o): return self._b('fadd', o)
    def __radd__(self, o): return self._b('fadd', o, True)
    def __sub__(self, o): return self._b('fsub', o)
    def __rsub__(self, o): return self._b('fsub', o, True)
    def __mul__(self, o): return self._b('fmul', o)
    def __rmul__(self, o): return self._b('fmul', o, True)
    def __truediv__(self, o): return self._b('fdiv', o)
    def __rtruediv__(self, o): return self._b('fdiv', o, True)
    def __mod__(self, o): return self._b('frem', o)
    def __neg__(self): return X(self.R, self.R.I.fl('fneg', self.n))

    def __pow__(self, k):
        if isinstance(k, int):
            return X(self.R, self.R.I.fl('fpowi', self.n, self.R.W.I(k)))
        return X(self.R, self.R.I.fl('fpow', self.n, self.R.num(k).n))

    def _c(self, op, o): return C(self.R, self.R.I.fcmp(op, self.n, self.R.num(o).n))
    def __lt__(self, o): return self._c('Lt', o)
    def __le__(self, o): return self._c('Le', o)
    def __gt__(self, o): return self._c('Gt', o)
    def __ge__(self, o): return self._c('Ge', o)


class C:
    """A reference condition."""
    __slots__ = ('R', 'b')

    def __init__(self, R, b):
        self.R = R
        self.b = b

    def __and__(self, o): return C(self.R, self.R.bdd.AND(self.b, o.b))
    def __or__(self, o): return C(self.R, self.R.bdd.OR(self.b, o.b))
    def __invert__(self): return C(self.R, self.R.bdd.NOT(self.b))


class Ref:
    def __init__(self, I):
        self.I = I
        self.W = I.W
        self.bdd = I.b
        self.pi = self.num(3.141592653589793)
        self.nloops = 0

    def num(self, x):
        if isinstance(x, X):
            return x
        return X(self, self.I.fconst(float(x)))

    def x(self, node):
        return X(self, node)

    def f1(self, op, a):
        return X(self, self.I.fl(op, self.num(a).n))

    def sin(self, a): return self.f1('fsin', a)
    def cos(self, a): return self.f1('fcos', a)
    def sqrt(self, a): return self.f1('fsqrt', a)
    def abs(self, a): return self.f1('fabs', a)
    def floor(self, a): return self.f1('ffloor', a)
    def round(self, a): return self.f1('fround', a)
    def trunc(self, a): return self.f1('ftrunc', a)

    def atan2(self, a, c):
        return X(self, self.I.fl('fatan2', self.num(a).n, self.num(c).n))

    def modp(self, a, c):
        return X(self, self.I.fl('fmodp', self.num(a).n, self.num(c).n))

    def i2f(self, n):
        return X(self, self.I.fl('i2f', n))

    def ite(self, c, a, b):
        if isinstance(a, Node):
            return self.W.ite(c.b, a, b)
        return X(self, self.W.ite(c.b, self.num(a).n, self.num(b).n))

    def loop(self, inits, step, exit_test, entry=T):
        """Variables at exit of: while not exit_test(vars): vars = step(vars).  Returns the exit values."""
        self.nloops += 1
        lid = ('ref', self.nloops)
        vs = [X(self, self.W.mk('lv', (lid, k), ())) for k in range(len(inits))]
        for v in vs:
            v.n.ty = 'float'
        st = step(*vs)
        self.I.loops[lid] = dict(vars=[(v.n, self.num(i).n, s.n) for v, i, s in zip(vs, inits, st)],
                                 exits=[exit_test(*vs).b], fn='reference')
        return vs


class Shape:
    """Fields and variants of program types, looked up by name."""

    def __init__(self, I):
        self.I = I
        self.W = I.W
        self.P = I.P

    def root_types(self, root):
        """(argument types by name, return type)"""
        body = self.P.insts[self.P.roots[root]]['body']
        return ({body['names'].get(str(i + 1), f'a{i + 1}'): body['locals'][i + 1] for i in range(body['argc'])},
                body['locals'][0])

    def strip(self, t):
        d = self.P.ty(t)
        while d['k'] in ('ref', 'ptr'):
            t = d['e']
            d = self.P.ty(t)
        return t

    def variants(self, t):
        return self.P.ty(self.strip(t))['variants']

    def findex(self, t, field, variant=None):
        """(variant index, field index, field type)"""
        for vi, v in enumerate(self.variants(t)):
            if variant is None or v['name'] == variant:
                for fi, (nm, ft) in enumerate(v['fields']):
                    if nm == field:
                        return vi, fi, ft
        raise KeyError(f'{self.P.ty(t)["s"]} has no field {variant or ""}.{field}')

    def vindex(self, t, variant):
        for vi, v in enumerate(self.variants(t)):
            if v['name'] == variant:
                return vi
        raise KeyError(f'{self.P.ty(t)["s"]} has no variant {variant}')

    def ftype(self, t, field, variant=None):
        return self.findex(t, field, variant)[2]

    def get(self, v, t, field, variant=None):
        """Field of a value (conditional values are distributed)."""
        vi, fi, ft = self.findex(t, field, variant)
        return self.proj(v, vi, fi, ft)

    def proj(self, v, vi, fi, ft):
        W = self.W
        if v.op == 'ite':
            out = None
            for c, l in reversed(W.leaves(v)):
                if l.op == 'agg' and l.args[0] is not None and l.args[0] != vi:
                    continue
                x = self.proj(l, vi, fi, ft)
                out = x if out is None else W.ite(c, x, out)
            return out if out is not None else W.UNDEF
        if v.op == 'agg':
            return v.args[1 + fi]
        return self.I.mat(ft, W.mk('fld', v, vi, fi))

    def make(self, ty_, variant_=None, **fields):
        """Value of a struct or enum variant from fields by name."""
        vs = self.variants(ty_)
        vi = 0 if variant_ is None else self.vindex(ty_, variant_)
        isenum = len(vs) > 1 or variant_ is not None
        names = [n for n, _ in vs[vi]['fields']]
        if set(names) != set(fields):
            raise KeyError(f'{self.P.ty(ty_)["s"]}::{vs[vi]["name"]} has fields {names}')
        return self.W.mk('agg', vi if isenum else None, *[fields[n].n if isinstance(fields[n], X) else fields[n] for n in names])

    def is_variant(self, v, vi):
        """Condition under which the value is of the variant."""
        W, b = self.W, self.I.b
        memo = {}

        def go(n):
            r = memo.get(n)
            if r is None:
                if n.op == 'ite':
                    r = b.ite(n.args[0], go(n.args[1]), go(n.args[2]))
                elif n.op == 'agg':
                    r = T if (n.args[0] or 0) == vi else F
                elif n.op == 'undef':
                    r = F
                else:
                    r = W.atom(W.mk('isvar', n, vi))
                memo[n] = r
            return r
        return go(v)
