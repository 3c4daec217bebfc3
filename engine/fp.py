"""Random interpretation of real-valued terms and a regime-splitting comparator.

Terms denote real functions of the inputs.  A term is mapped to an element of a prime field by interpreting + - * / and
rational powers in the field, inputs and irreducible operations (sin, atan2, floor, calls through pointers, loop
variables) by pseudo-random field elements that depend only on the field values of their operands.  Terms that are equal
by algebra get equal values; different ones collide with probability about degree / 2^61 (Schwartz-Zippel).  Conditional
terms are mapped to multilinear combinations over their tests.  When the values of two terms differ, the comparator
assumes outcomes for the tests they contain, one at a time, until the values agree or no test is left: the assumed
outcomes are then the regime in which the two terms denote different functions.
"""
import hashlib
import math
from fractions import Fraction
from bdd import T, F
from term import Node, show

# p = 3 mod 4 (square roots by exponentiation) and p = 2 mod 3 (unique cube roots)
P = (1 << 89) - 1


def _find_prime():
    def is_prime(n):
        d, s = n - 1, 0
        while d % 2 == 0:
            d //= 2
            s += 1
        for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
            if n % a == 0:
                return n == a
            x = pow(a, d, n)
            if x in (1, n - 1):
                continue
            for _ in range(s - 1):
                x = x * x % n
                if x == n - 1:
                    break
            else:
                return False
        return True
    p = (1 << 80) - 1
    while p % 12 != 11 or not is_prime(p):
        p -= 1
    return p


P = _find_prime()
INV3 = pow(3, -1, P - 1)


def inv(x):
    return pow(x, -1, P) if x % P else 0


_snap = {}


def snap(x):
    """(rational, power of pi) meant by a float constant."""
    r = _snap.get(x)
    if r is None:
        r = _snap[x] = _snap1(x)
    return r


def _snap1(x):
    if x == int(x) and abs(x) < 2 ** 53:
        return Fraction(int(x)), 0
    s = repr(x)
    dec = Fraction(s)
    digits = len(s.split('e')[0].replace('.', '').replace('-', '').strip('0'))
    if digits >= 15:
        u = math.ulp(x)
        q = Fraction(x / math.pi).limit_denominator(200000)
        if q and abs(q.numerator) * q.denominator < 10 ** 7 and abs(float(q) * math.pi - x) <= 2 * u:
            return q, 1
        q = Fraction(x * math.pi).limit_denominator(2000)
        if q and abs(q.numerator) * q.denominator < 10 ** 7 and abs(float(q) / math.pi - x) <= 2 * u:
            return q, -1
        q = Fraction(x).limit_denominator(20000)
        if q and abs(q.numerator) * q.denominator < 10 ** 7 and abs(float(q) - x) <= u:
            return q, 0
    return dec, 0


class Ctx:
    """Assumed outcomes of tests (immutable; extended by copies)."""
    __slots__ = ('iv', 'enum', 'bools', 'subst', 'known', 'facts', 'log')

    def __init__(self):
        self.iv = {}       # quantity key -> (lo, lo_open, hi, hi_open)
        self.enum = {}     # value key -> frozenset of excluded variants, or int variant
        self.bools = {}
        self.subst = {}    # field value -> field value (equalities assumed)
        self.known = {}    # field value -> float, for quantities assumed equal to a constant
        self.facts = ()    # (test number, truth, equality excluded): order tests assumed so far
        self.log = ()

    def copy(self):
        c = Ctx()
        c.iv = dict(self.iv)
        c.enum = dict(self.enum)
        c.bools = dict(self.bools)
        c.subst = dict(self.subst)
        c.known = dict(self.known)
        c.facts = self.facts
        c.log = self.log
        return c


LT, EQ, GT = 1, 2, 4
CONDS = ('ite', 'fabs', 'fmax', 'fmin', 'fclamp', 'fmodp')


class Eval:
    """Field values of terms under one set of assumptions."""

    def __init__(self, W, loops, seed, ctx=None, lvmap=None, shared=None):
        self.W = W
        self.loops = loops
        self.seed = seed
        self.ctx = ctx or Ctx()
        self.memo = {}
        self.memom = {}
        self.cmemo = {}
        self.bmemo = {}
        self.xmemo = {}
        self.ksm = {}
        self.kem = {}
        self.amemo = {}
        self.imemo = {}
        self.nat = {}      # quantity key -> range every value of the function at its root lies in
        self.lvmap = lvmap or {}
        self.loopdone = {}
        self.pi = self.h('pi')
        self.sub = None

    # ------------------------------------------------ hashing
    def h(self, *k):
        d = hashlib.blake2b(repr((self.seed, k)).encode(), digest_size=16).digest()
        return int.from_bytes(d, 'big') % P

    def frac(self, q):
        return q.numerator * inv(q.denominator) % P

    def const(self, x):
        if x == 'nan' or x in (math.inf, -math.inf):
            return self.h('special', repr(x))
        q, k = snap(x)
        v = self.frac(q)
        if k == 1:
            v = v * self.pi % P
        elif k == -1:
            v = v * inv(self.pi) % P
        return v

    # ------------------------------------------------ exact constants
    def cval(self, n):
        """Exact value of a constant term as a polynomial in pi, ((power, rational), ...), or None."""
        r = self.cmemo.get(n, 0)
        if r == 0:
            r = self.cmemo[n] = self._cval(n)
        return r

    @staticmethod
    def poly(d):
        return tuple(sorted((k, q) for k, q in d.items() if q))

    def _cval(self, n):
        op = n.op
        if op == 'f':
            x = n.args[0]
            if x == 'nan' or x in (math.inf, -math.inf):
                return None
            q, k = snap(x)
            return self.poly({k: q})
        if op == 'i':
            return self.poly({0: Fraction(n.args[0])})
        if op == 'i2f':
            return self.cval(n.args[0])
        if op == 'ite':
            v = self.bdd_decide(n.args[0])
            if v is None:
                return None
            return self.cval(n.args[1] if v else n.args[2])
        if op == 'fneg':
            a = self.cval(n.args[0])
            return self.poly({k: -q for k, q in a}) if a is not None else None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.cval(n.args[0])
            if a is None:
                return None
            b = self.cval(n.args[1])
            if b is None:
                return None
            d = {}
            if op == 'fmul':
                for k, q in a:
                    for m, r in b:
                        d[k + m] = d.get(k + m, 0) + q * r
            elif op == 'fdiv':
                if len(b) != 1:
                    return None
                (m, r), = b
                d = {k - m: q / r for k, q in a}
            else:
                d = dict(a)
                for k, q in b:
                    d[k] = d.get(k, 0) + (q if op == 'fadd' else -q)
            return self.poly(d)
        if op == 'fpowi' and n.args[1].op == 'i':
            a = self.cval(n.args[0])
            k = n.args[1].args[0]
            if a is not None and len(a) == 1 and abs(k) < 64:
                return self.poly({a[0][0] * k: a[0][1] ** k})
        return None

    @staticmethod
    def rational(c):
        """Rational value of a constant, or None."""
        if c is None:
            return None
        if c == ():
            return Fraction(0)
        return c[0][1] if len(c) == 1 and c[0][0] == 0 else None

    @staticmethod
    def cfloat(c):
        return float(sum(float(q) * math.pi ** k for k, q in c))

    def factor(self, al):
        """Float and field value of a factor (rational, power of pi)."""
        q, k = al
        v = self.frac(q)
        if k:
            v = v * pow(self.pi, k, P) if k > 0 else v * pow(inv(self.pi), -k, P)
        return float(q) * math.pi ** k, v % P

    def peel(self, n):
        """n = alpha * y + beta (alpha a nonzero factor, beta exact constant float+field) with y not a sum with a constant."""
        al, bf, bv = (Fraction(1), 0), 0.0, 0
        while True:
            op = n.op
            if op == 'fneg':
                al = (-al[0], al[1])
                n = n.args[0]
                continue
            if op in ('fadd', 'fsub'):
                c = self.cval(n.args[1])
                if c is not None:
                    s = 1 if op == 'fadd' else -1
                    x, v = self.factor(al)
                    bf += s * x * self.cfloat(c)
                    bv += s * v * self.fv(n.args[1])
                    n = n.args[0]
                    continue
                c = self.cval(n.args[0])
                if c is not None:
                    x, v = self.factor(al)
                    bf += x * self.cfloat(c)
                    bv += v * self.fv(n.args[0])
                    if op == 'fsub':
                        al = (-al[0], al[1])
                    n = n.args[1]
                    continue
            if op == 'fmul':
                done = False
                for i in (0, 1):
                    c = self.cval(n.args[i])
                    if c is not None and len(c) == 1:
                        al = (al[0] * c[0][1], al[1] + c[0][0])
                        n = n.args[1 - i]
                        done = True
                        break
                if done:
                    continue
            if op == 'fdiv':
                c = self.cval(n.args[1])
                if c is not None and len(c) == 1:
                    al = (al[0] / c[0][1], al[1] - c[0][0])
                    n = n.args[0]
                    continue
            if op in CONDS:
                m = self.expand(n)
                v = self.bdd_decide(m.args[0]) if m.op == 'ite' else None
                if v is not None:
                    n = m.args[1] if v else m.args[2]
                    continue
            if op == 'i2f':
                c, t = self.W.lin_parts(n.args[0])
                if c and t:
                    x, v = self.factor(al)
                    bf += x * c
                    bv += v * c
                    n = self.W.mk('i2f', self.W.add(n.args[0], self.W.I(-c)))
                    continue
            return n, al, bf, bv % P

    def inner(self, n):
        """Constant summands below the sums and differences that n is made of."""
        if n.op not in ('fadd', 'fsub'):
            return 0.0, 0
        if n in self.imemo:
            return self.imemo[n]
        tf, tv = 0.0, 0
        for s, m in zip((1, 1 if n.op == 'fadd' else -1), n.args):
            y, al, bf, bv = self.peel(m)
            f, g = self.inner(y)
            x, v = self.factor(al)
            tf += s * (bf + x * f)
            tv += s * (bv + v * g)
        r = self.imemo[n] = (tf, tv % P)
        return r

    # ------------------------------------------------ tests
    UNIT, POSITIVE, TURN = (-1.0, False, 1.0, False), (0.0, False, math.inf, True), (-math.pi, False, math.pi, False)

    def natural(self, n):
        """Range of the function at the root of n, or None."""
        op = n.op
        if op in ('fsin', 'fcos'):
            return self.UNIT
        if op in ('fsqrt', 'fabs', 'fmodp') or op == 'fpowi' and isinstance(n.args[1], Node) and n.args[1].op == 'i' and n.args[1].args[0] % 2 == 0 or op == 'fmul' and n.args[0] is n.args[1]:
            return self.POSITIVE
        if op == 'fatan2':
            return self.TURN
        return None

    def order_key(self, a, c):
        """Quantity compared by a ? c: (key, threshold float, threshold field value, flipped, field value of the quantity)."""
        ca, cc = self.cval(a), self.cval(c)
        if cc is not None or ca is not None:
            y, al, bf, bv = self.peel(a if cc is not None else c)
            x, v = self.factor(al)
            of, ov = self.inner(y)
            thf = (self.cfloat(ca if cc is None else cc) - bf) / x - of
            thv = ((self.fv(a if cc is None else c) - bv) * inv(v) - ov) % P
            k = (self.fv(y) - ov) % P
            r = self.natural(y)
            if r is not None and k not in self.ctx.known:
                self.nat[min(k, P - k)] = r if k <= P - k else (-r[2], r[3], -r[0], r[1])
            flip = (x < 0) == (cc is not None)
        else:
            # alpha y + beta ? alpha' y' + beta': scaled by the factor of one side
            ya, ala, bfa, bva = self.peel(a)
            yc, alc, bfc, bvc = self.peel(c)
            va, vc = self.fv(ya), self.fv(yc)
            xa, fa = self.factor(ala)
            xc, fc = self.factor(alc)
            x, v = (xa, fa) if min(va, P - va) < min(vc, P - vc) else (xc, fc)
            k = (fa * va - fc * vc) * inv(v) % P
            thf, thv = (bfc - bfa) / x, (bvc - bva) * inv(v) % P
            flip = x < 0
        thf = float('%.13g' % thf) + 0.0
        if k > P - k:
            k, thf, thv, flip = P - k, 0.0 - thf, (-thv) % P, not flip
        return k, thf, thv, flip

    def atom_info(self, v):
        """('order', key, thf, thv, mask) | ('enum', key, variant) | ('bool', key) | ('const', 0/1) for atom number v."""
        r = self.amemo.get(v)
        if r is None:
            r = self.amemo[v] = self._atom_info(self.W.atoms[v])
        return r

    def _atom_info(self, n):
        op = n.op
        if op in ('flt', 'fle', 'feq'):
            a, c = n.args
            if op == 'feq' and a is c:
                return ('const', 1)
            for x, y in ((a, c), (c, a)):       # every real number lies between the infinities
                if x.op == 'f' and x.args[0] in (math.inf, -math.inf) and y.op != 'f':
                    o = LT if (x.args[0] < 0) == (x is a) else GT
                    return ('const', 1 if {'flt': LT, 'fle': LT | EQ, 'feq': EQ}[op] & o else 0)
            ca, cc = self.cval(a), self.cval(c)
            if ca is not None and cc is not None:
                x, y = self.cfloat(ca), self.cfloat(cc)
                o = EQ if ca == cc else LT if x < y else GT
                return ('const', 1 if {'flt': LT, 'fle': LT | EQ, 'feq': EQ}[op] & o else 0)
            return self.order_info(a, c, {'flt': LT, 'fle': LT | EQ, 'feq': EQ}[op])
        if op == 'signpos':
            y, al, bf, bv = self.peel(n.args[0])
            return self.order_info(n.args[0], self.W.mk('f', 0.0, False), GT | EQ)
        if op in ('ige0', 'ieq0'):
            c, t = self.W.lin_parts(n.args[0])
            k = (self.fv(n.args[0]) - c) % P
            m = (GT | EQ) if op == 'ige0' else EQ
            thf, thv = float(-c), -c % P
            if k > P - k:
                k, thf, thv = P - k, 0.0 - thf, (-thv) % P
                m = self.flipmask(m)
            return ('order', k, thf, thv, m)
        if op in ('finite',):
            return ('const', 1)
        if op == 'infinite':
            return ('const', 0)
        if op == 'isvar':
            return ('enum', self.fv(n.args[0]), n.args[1])
        if op == 'bit':
            return ('bool', ('bit', self.fv(n.args[0]), n.args[1]))
        return ('bool', self.fv(n))

    @staticmethod
    def flipmask(m):
        return (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)

    def order_info(self, a, c, mask):
        k, thf, thv, flip = self.order_key(a, c)
        if k == thv:
            return ('const', 1 if mask & EQ else 0)
        if k in self.ctx.known:
            x = self.ctx.known[k]
            m = self.flipmask(mask) if flip else mask
            o = EQ if float('%.13g' % x) == thf else LT if x < thf else GT
            return ('const', 1 if m & o else 0)
        return ('order', k, thf, thv, self.flipmask(mask) if flip else mask)

    def outcomes(self, k, thf, iv=None):
        """Possible outcomes of comparing the quantity k with the threshold, under the assumptions."""
        iv = iv or self.ctx.iv.get(k) or self.nat.get(k)
        if iv is None:
            return LT | EQ | GT
        lo, lo_open, hi, hi_open = iv
        m = 0
        if lo < thf:
            m |= LT
        if hi > thf:
            m |= GT
        if (lo < thf or (lo == thf and not lo_open)) and (hi > thf or (hi == thf and not hi_open)):
            m |= EQ
        return m

    def decide(self, v):
        """Truth of atom v under the assumptions, or None."""
        i = self.atom_info(v)
        k = i[0]
        if k == 'const':
            return bool(i[1])
        if k == 'order':
            m = self.outcomes(i[1], i[2])
            if m & ~i[4] == 0:
                return True
            if m & i[4] == 0:
                return False
            return None
        if k == 'enum':
            e = self.ctx.enum.get(i[1])
            if e is None:
                return None
            if isinstance(e, int):
                return e == i[2]
            return False if i[2] in e else None
        return self.ctx.bools.get(i[1])

    # ---- expectations over undecided tests.  The outcomes of all tests on one quantity are events of one random (signed)
    # measure on the line, tests on different quantities are independent: the expectation of a conditional term does not
    # depend on how its tests are nested or ordered.
    ALL = (-math.inf, True, math.inf, True)

    def cum(self, k, t):
        return 0 if t == -math.inf else 1 if t == math.inf else self.h('cum', k, t)

    def mass(self, k, t):
        return self.h('mass', k, t) if abs(t) < math.inf else 0

    def measure(self, k, iv):
        lo, lo_o, hi, hi_o = iv
        r = self.cum(k, hi) - self.cum(k, lo)
        if not hi_o:
            r += self.mass(k, hi)
        if lo_o:
            r -= self.mass(k, lo)
        return r % P

    def cells(self, v, env):
        """Outcomes of test v in env: [(truth, weight, env')] or a single (truth, 1, env)."""
        i = self.atom_info(v)
        kind = i[0]
        if kind == 'const':
            return [(bool(i[1]), 1, env)]
        k = i[1]
        if kind == 'order':
            iv = env.get(k) or self.ctx.iv.get(k) or self.nat.get(k) or self.ALL
            t, mask = i[2], i[4]
            m = self.outcomes(k, t, iv)
            if m & ~mask == 0:
                return [(True, 1, env)]
            if m & mask == 0:
                return [(False, 1, env)]
            lo, lo_o, hi, hi_o = iv
            tot = inv(self.measure(k, iv))
            out = []
            for truth, mm in ((True, m & mask), (False, m & ~mask)):
                parts = []
                if mm == LT:
                    parts = [(lo, lo_o, t, True)]
                elif mm == LT | EQ:
                    parts = [(lo, lo_o, t, False)]
                elif mm == GT:
                    parts = [(t, True, hi, hi_o)]
                elif mm == GT | EQ:
                    parts = [(t, False, hi, hi_o)]
                elif mm == EQ:
                    parts = [(t, False, t, False)]
                elif mm == LT | GT:
                    parts = [(lo, lo_o, t, True), (t, True, hi, hi_o)]
                for p in parts:
                    e2 = dict(env)
                    e2[k] = p
                    out.append((truth, self.measure(k, p) * tot % P, e2))
            return out
        if kind == 'enum':
            s = env.get(k)
            if s is None:
                s = self.ctx.enum.get(k, frozenset())
            if isinstance(s, int):
                return [(s == i[2], 1, env)]
            if i[2] in s:
                return [(False, 1, env)]
            rest = (1 - sum(self.h('e', k, x) for x in s)) % P
            p = self.h('e', k, i[2]) * inv(rest) % P
            e1, e2 = dict(env), dict(env)
            e1[k] = i[2]
            e2[k] = s | {i[2]}
            return [(True, p, e1), (False, (1 - p) % P, e2)]
        s = env.get(k)
        if s is None:
            s = self.ctx.bools.get(k)
        if s is not None:
            return [(s, 1, env)]
        p = self.h('b', k)
        e1, e2 = dict(env), dict(env)
        e1[k] = True
        e2[k] = False
        return [(True, p, e1), (False, (1 - p) % P, e2)]

    def keys_bdd(self, f):
        r = self.ksm.get(f)
        if r is None:
            r = frozenset(i[1] for i in (self.atom_info(v) for v in self.W.bdd.support(f)) if i[0] != 'const')
            self.ksm[f] = r
        return r

    def keys(self, n):
        """Quantities tested by the nested conditionals at the top of n."""
        r = self.kem.get(n)
        if r is None:
            m = self.expand(n)
            if m.op == 'ite':
                r = self.keys_bdd(m.args[0]) | self.keys(m.args[1]) | self.keys(m.args[2])
            elif m.op == 'B':
                r = self.keys_bdd(m.args[0])
            else:
                r = frozenset()
            self.kem[n] = r
        return r

    def expect(self, f, env, hi, lo, memo, tag, sup):
        """Expectation over test f: hi(env') where it holds, lo(env') where it does not."""
        if f == T:
            return hi(env)
        if f == F:
            return lo(env)
        own = self.keys_bdd(f)
        key = (f, tag, frozenset((k, env[k]) for k in env if k in sup or k in own))
        r = memo.get(key)
        if r is None:
            b = self.W.bdd
            r = 0
            for truth, w, e2 in self.cells(b.var[f], env):
                r += w * self.expect(b.hi[f] if truth else b.lo[f], e2, hi, lo, memo, tag, sup)
            r %= P
            memo[key] = r
        return r

    def bv(self, f):
        if f <= 1:
            return f
        r = self.bmemo.get(f)
        if r is None:
            r = self.bmemo[f] = self.expect(f, {}, lambda e: 1, lambda e: 0, self.xmemo, 'b', ())
        return r

    def bdd_decide(self, f):
        r = self.bv(f)
        return bool(r) if r in (0, 1) else None

    def expand(self, n):
        """Conditional form of min, max, abs, clamp and Euclidean remainder."""
        if n.op not in ('fabs', 'fmax', 'fmin', 'fclamp', 'fmodp'):
            return n
        r = self.W.rmemo.get(('expand', n))
        if r is None:
            W, a = self.W, n.args
            z = W.mk('f', 0.0, False)

            def lt(x, y):
                return W.atom(W.mk('flt', x, y))
            if n.op == 'fabs':
                r = W.ite(lt(a[0], z), W.mk('fneg', a[0]), a[0])
            elif n.op == 'fmax':
                r = W.ite(lt(a[0], a[1]), a[1], a[0])
            elif n.op == 'fmin':
                r = W.ite(lt(a[1], a[0]), a[1], a[0])
            elif n.op == 'fclamp':
                r = W.ite(lt(a[0], a[1]), a[1], W.ite(lt(a[2], a[0]), a[2], a[0]))
            else:
                q = W.mk('frem', *a)
                r = W.ite(lt(q, z), W.mk('fadd', q, W.mk('fabs', a[1])), q)
            W.rmemo[('expand', n)] = r
        return r

    def cluster(self, n, env, leaf, tag):
        n = self.expand(n)
        if n.op != 'ite':
            return leaf(n)
        sup = self.keys(n)
        key = (n, tag, frozenset((k, env[k]) for k in env if k in sup))
        r = self.xmemo.get(key)
        if r is None:
            r = self.expect(n.args[0], env, lambda e: self.cluster(n.args[1], e, leaf, tag),
                            lambda e: self.cluster(n.args[2], e, leaf, tag), self.xmemo, (n, tag),
                            self.keys(n.args[1]) | self.keys(n.args[2]))
            self.xmemo[key] = r
        return r

    # ------------------------------------------------ terms
    def fv(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._fv(n) % P
            if self.ctx.subst:
                k = 0
                while r in self.ctx.subst and k < 8:
                    r = self.ctx.subst[r]
                    k += 1
            self.memo[n] = r
        return r

    def _fv(self, n):
        op, a = n.op, n.args
        f = self.fv
        if op == 'f':
            return self.const(a[0])
        if op == 'i':
            return a[0]
        if op == 'B':
            return self.bv(a[0])
        if op in CONDS:
            return self.cluster(n, {}, f, 'v')
        if op == 'fadd':
            return f(a[0]) + f(a[1])
        if op == 'fsub':
            return f(a[0]) - f(a[1])
        if op in ('fmul', 'imul'):
            return f(a[0]) * f(a[1])
        if op == 'fdiv':
            d = f(a[1])
            return f(a[0]) * inv(d) if d else self.h('div0', f(a[0]))
        if op == 'fneg':
            return -f(a[0])
        if op == 'i2f':
            return f(a[0])
        if op == 'lin':
            return a[0] + sum(k * f(t) for t, k in a[1])
        if op == 'fpowi':
            if a[1].op == 'i':
                k = a[1].args[0]
                x = f(a[0])
                return pow(x, k, P) if k >= 0 else pow(inv(x), -k, P)
            return self.h('powi', f(a[0]), f(a[1]))
        if op == 'fsqrt':
            return self.rpow(f(a[0]), Fraction(1, 2))
        if op == 'fcbrt':
            return self.rpow(f(a[0]), Fraction(1, 3))
        if op == 'fpow':
            q = self.rational(self.cval(a[1]))
            if q is not None:
                r = self.rpow(f(a[0]), q)
                if r is not None:
                    return r
            return self.h('pow', f(a[0]), f(a[1]))
        if op in ('fsin', 'fcos'):
            x = self.fm(a[0])
            s = 1
            if x > P - x:
                x, s = P - x, -1
            if x == 0:
                return 0 if op == 'fsin' else 1
            u = self.h('angle', x)
            d = inv(1 + u * u)
            return s * 2 * u * d if op == 'fsin' else (1 - u * u) * d
        if op == 'ftan':
            return f(self.W.mk('fsin', a[0])) * inv(f(self.W.mk('fcos', a[0])))
        if op == 'ffract':
            return f(a[0]) - f(self.W.mk('ftrunc', a[0]))
        if op == 'fceil':
            return -self.h('ffloor', -f(a[0]) % P)
        if op == 'irem':
            return f(a[0]) - a[1] * self.h('idiv', f(a[0]), a[1]) if isinstance(a[1], int) else self.h('irem', f(a[0]), f(a[1]))
        if op == 'agg':
            s = self.h('agg', a[0], len(a)) if a[0] is not None or len(a) == 1 else 0
            for i, x in enumerate(a[1:]):
                s += self.h('fld', a[0], i) * f(x)
            return s
        if op == 'lv':
            return self.lv(n)
        return self.h(op, tuple(self.arg(x) for x in a))

    def arg(self, x):
        if isinstance(x, Node):
            return self.fv(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return repr(x)

    def rpow(self, h, q):
        n, d = q.numerator, q.denominator
        if d == 1:
            return pow(h, n, P) if n >= 0 else pow(inv(h), -n, P)
        k = n // d
        n -= k * d
        base = pow(h, k, P) if k >= 0 else pow(inv(h), -k, P)
        if d == 2:
            return base * pow(h, (P + 1) // 4, P)
        if d == 3:
            return base * pow(pow(h, INV3, P), n, P)
        if d in (4, 8):
            r = pow(h, (P + 1) // 4, P)
            return base * self.rpow(r, Fraction(n, d // 2))
        if d == 6:
            return base * pow(pow(pow(h, INV3, P), (P + 1) // 4, P), n, P)
        return None

    def twopi(self, n):
        c = self.cval(n)
        return c is not None and len(c) == 1 and c[0][0] == 1 and abs(c[0][1]) == 2

    def fm(self, n):
        """Field value of an angle, ignoring whole turns removed by remainder operations."""
        r = self.memom.get(n)
        if r is None:
            op, a = n.op, n.args
            c = self.cval(n)
            if c is not None:
                r = 0 if len(c) == 1 and c[0][0] == 1 and c[0][1].denominator == 1 and c[0][1].numerator % 2 == 0 else self.fv(n)
            elif op in ('frem', 'fmodp') and self.twopi(a[1]):
                r = self.fm(a[0])
            elif op == 'fadd':
                r = self.fm(a[0]) + self.fm(a[1])
            elif op == 'fsub':
                r = self.fm(a[0]) - self.fm(a[1])
            elif op == 'fneg':
                r = -self.fm(a[0])
            elif op == 'fmul' and self.intconst(a[0]) is not None:
                r = self.intconst(a[0]) * self.fm(a[1])
            elif op == 'fmul' and self.intconst(a[1]) is not None:
                r = self.intconst(a[1]) * self.fm(a[0])
            elif op in CONDS:
                r = self.cluster(n, {}, self.fm, 'm')
            else:
                r = self.fv(n)
            r %= P
            if self.ctx.subst and r in self.ctx.subst:
                r = self.ctx.subst[r]
            self.memom[n] = r
        return r

    def intconst(self, n):
        q = self.rational(self.cval(n))
        return q.numerator if q is not None and q.denominator == 1 else None

    # ------------------------------------------------ loops
    def lv(self, n):
        if n in self.lvmap:
            return self.lvmap[n]
        lid = n.args[0][0]
        r = self.loopdone.get(lid)
        if r is None:
            r = self.loopdone[lid] = self.loopfp(lid)
        v = r.get(n)
        if v is None:
            return self.h('lv?', repr(n.args))
        return v

    def loopfp(self, lid):
        """Values of the loop variables at exit, from their initial values, one-iteration transfer and exit test."""
        info = self.loops[lid]
        vs = info['vars']
        cur = {}
        for n, init, step in vs:
            cur[n] = self.h('lv0', self.fv(init))
        b = self.W.bdd
        ent = info.get('entry_pc', T)
        ex = b.restrict(info['exit_pc'], ent) if 'exit_pc' in info else None
        xs = [ex] if ex is not None else [b.restrict(p, ent) for p in info.get('exit_pcs', {}).values()]
        if 'exits' in info:
            xs = info['exits']
        xh = 0
        for rnd in range(3):
            m = dict(self.lvmap)
            m.update(cur)
            e = Eval(self.W, self.loops, self.seed, self.ctx, m)
            e.loopdone = self.loopdone
            nxt = {}
            for n, init, step in vs:
                nxt[n] = self.h('lv1', self.fv(init), cur[n], e.fv(step) if step is not None else 0)
            xh = self.h('exit', sum(e.bv(x) for x in xs) % P)     # exits exclude each other
            cur = nxt
        return {n: self.h('lvx', v, xh) for n, v in cur.items()}


# ---------------------------------------------------------------- comparator
class Mismatch(Exception):
    def __init__(self, ctx, where):
        self.ctx = ctx
        self.where = where


class Comparer:
    """Decides whether two terms denote the same function under a premise."""

    def __init__(self, W, loops, seeds=(1, 2, 3), budget=4000):
        self.W = W
        self.loops = loops
        self.seeds = seeds
        self.budget = budget
        self.lits = {}
        self.stats = {'contexts': 0, 'splits': 0, 'terms': 0, 'atoms': 0}

    def equal(self, a, c, premise=T, ctx=None):
        """None if equal wherever the premise holds, else a description of a differing regime."""
        last = None
        for s in self.seeds:
            self.seed = s
            self.n = 0
            r = self.go(a, c, premise, self.assume(premise, ctx or Ctx()))
            if r is None:
                return None
            last = last or r
        return last

    def literals(self, premise):
        """Tests that the premise decides."""
        r = self.lits.get(premise)
        if r is None:
            b = self.W.bdd
            r = []
            for v in sorted(b.support(premise)):
                at = b.atom(v)
                if b.AND(premise, b.NOT(at)) == F:
                    r.append((v, True, False))
                elif b.AND(premise, at) == F:
                    r.append((v, False, False))
            self.lits[premise] = r
        return r

    def assume(self, premise, ctx):
        """Extend the assumptions by the tests that the premise decides, and state the earlier assumptions anew
        (an assumed equality changes the values by which quantities are known)."""
        for v, val, strict in self.literals(premise) + list(ctx.facts):
            e = self.ev(ctx)
            i = e.atom_info(v)
            if i[0] == 'const' or e.decide(v) is not None and not strict:
                continue
            if i[0] == 'order':
                m = e.outcomes(i[1], i[2]) & (i[4] if val else ~i[4])
                if strict:
                    m &= ~EQ
                lo, lo_o, hi, hi_o = ctx.iv.get(i[1]) or e.nat.get(i[1]) or e.ALL
                c = ctx.copy()
                if not m & GT and (hi, not hi_o) > (i[2], bool(m & EQ)):
                    hi, hi_o = i[2], not m & EQ
                if not m & LT and (lo, lo_o) < (i[2], not m & EQ):
                    lo, lo_o = i[2], not m & EQ
                c.iv[i[1]] = (lo, lo_o, hi, hi_o)
                ctx = c
            elif i[0] == 'enum':
                ctx = ctx.copy()
                if val:
                    ctx.enum[i[1]] = i[2]
                else:
                    ctx.enum[i[1]] = ctx.enum.get(i[1], frozenset()) | {i[2]}
            elif i[0] == 'bool':
                ctx = ctx.copy()
                ctx.bools[i[1]] = val
        return ctx

    def ev(self, ctx):
        self.stats['contexts'] += 1
        return Eval(self.W, self.loops, self.seed, ctx)

    def go(self, a, c, premise, ctx):
        e = self.ev(ctx)
        p = e.bv(premise)
        if p == 0:
            return None
        x, y = e.fv(a), e.fv(c)
        self.stats['terms'] = max(self.stats['terms'], len(e.memo))
        self.stats['atoms'] = max(self.stats['atoms'], len(e.amemo))
        if x == y:
            return None
        self.n += 1
        if self.n > self.budget:
            return {'regime': list(ctx.log), 'note': 'case budget exhausted', **self.locate(e, a, c)}
        at = self.pick(e, a, c, premise)
        if at is None:
            if self.infeasible(ctx):
                return None
            return {'regime': list(ctx.log), **self.locate(e, a, c)}
        self.stats['splits'] += 1
        for c2 in self.split(e, at, ctx, premise):
            r = self.go(a, c, premise, c2)
            if r is not None:
                return r
        return None

    @staticmethod
    def infeasible(ctx):
        """Whether the assumed ranges contradict each other: a quantity that is the sum or difference of two others is out of their reach."""
        ks = list(ctx.iv)
        for i, k1 in enumerate(ks):
            a = ctx.iv[k1]
            for k2 in ks[i:]:
                b = ctx.iv[k2]
                for sg in (1, -1):
                    k3 = (k1 + sg * k2) % P
                    neg = k3 not in ctx.iv
                    c = ctx.iv.get(P - k3 if neg else k3)
                    if c is None or k3 in (k1, k2) or P - k3 in (k1, k2) or (k1 == k2 and sg < 0):
                        continue
                    if neg:
                        c = (-c[2], c[3], -c[0], c[1])
                    lo = (a[0] + (b[0] if sg > 0 else -b[2]), a[1] or (b[1] if sg > 0 else b[3]))
                    hi = (a[2] + (b[2] if sg > 0 else -b[0]), a[3] or (b[3] if sg > 0 else b[1]))
                    if lo[0] > c[2] or hi[0] < c[0] or (lo[0] == c[2] and (lo[1] or c[3])) or (hi[0] == c[0] and (hi[1] or c[1])):
                        return True
        return False

    # ---- choosing a test
    def kids(self, e, n):
        """Operands of a term that matter under the assumptions."""
        n = e.expand(n)
        if n.op == 'ite':
            d = e.bdd_decide(n.args[0])
            if d is True:
                return [n.args[1]]
            if d is False:
                return [n.args[2]]
            return self.atoms_of(e, n.args[0]) + [n.args[1], n.args[2]]
        if n.op == 'B':
            return self.atoms_of(e, n.args[0])
        if n.op == 'lv' and n not in e.lvmap:
            info = e.loops[n.args[0][0]]
            ks = []
            for m, i, s in info['vars']:
                ks.append(i)
                if s is not None:
                    ks.append(s)
            return ks
        if n.op == 'lin':
            return [t for t, _ in n.args[1]]
        ks = []
        for x in n.args:
            if isinstance(x, Node):
                ks.append(x)
            elif isinstance(x, tuple):
                ks += [y for y in x if isinstance(y, Node)]
        return ks

    def walk(self, e, root):
        """Terms and tests reachable under the assumptions, operands first."""
        seen = set()
        out = []
        st = [(root, False)]
        while st:
            n, done = st.pop()
            if done:
                out.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            st.append((n, True))
            for k in reversed(self.kids(e, n)):
                if k not in seen:
                    st.append((k, False))
        return out

    def atoms_of(self, e, f):
        b = self.W.bdd
        seen, st, out = {0, 1}, [f], []
        vs = set()
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            d = e.decide(b.var[n])
            if d is not False:
                st.append(b.hi[n])
            if d is not True:
                st.append(b.lo[n])
            if d is None and b.var[n] not in vs:
                vs.add(b.var[n])
                out.append(self.W.atoms[b.var[n]])
        return out

    def has_loopvar(self, e, n, memo):
        r = memo.get(n)
        if r is None:
            if n.op == 'lv':
                r = True
            else:
                memo[n] = False
                ks = []
                for x in n.args:
                    if isinstance(x, Node):
                        ks.append(x)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, Node):
                                ks.append(y)
                            elif isinstance(y, tuple):
                                ks += [z for z in y if isinstance(z, Node)]
                r = any(self.has_loopvar(e, k, memo) for k in ks)
            memo[n] = r
        return r

    COND = CONDS + ('B',)

    def tests(self, e, n):
        """Undecided tests of a conditional term, as info tuples with a printable form."""
        n = e.expand(n)
        if n.op not in ('ite', 'B'):
            return []
        return [(e.atom_info(self.W.atomvar[at]), at) for at in self.atoms_of(e, n.args[0])]

    def pick(self, e, a, c, premise):
        pr = self.W.mk('B', premise)
        wa, wc = self.walk(e, a), self.walk(e, c)
        fa = {e.fv(n) for n in wa}
        fc = {e.fv(n) for n in wc}
        clean = {}

        def is_clean(n):
            """No undecided conditional below n."""
            r = clean.get(n)
            if r is None:
                clean[n] = True
                r = all(not (k.op in self.COND and self.tests(e, k)) and is_clean(k) for k in self.kids(e, n))
                clean[n] = r
            return r
        lm = {}
        best = None
        for w, other in ((wa, fc), (wc, fa), (self.walk(e, pr), ())):
            for n in w:
                if n.op not in self.COND:
                    continue
                ts = self.tests(e, n)
                if not ts:
                    continue
                unmatched = e.fv(n) not in other
                if not unmatched and best is not None:
                    continue
                for i, at in ts:
                    if self.has_loopvar(e, at, lm):
                        continue
                    if not is_clean(at):
                        continue
                    if unmatched:
                        return i, at
                    best = best or (i, at)
        return best

    def split(self, e, pick, ctx, premise):
        i, at = pick
        if i[0] == 'order':
            _, k, thf, thv, mask = i
            m = e.outcomes(k, thf)
            lo, lo_o, hi, hi_o = ctx.iv.get(k) or e.nat.get(k) or e.ALL
            for o in (LT, GT, EQ):
                if not m & o:
                    continue
                c = ctx.copy()
                if o == LT:
                    c.iv[k] = (lo, lo_o, thf, True)
                elif o == GT:
                    c.iv[k] = (thf, True, hi, hi_o)
                else:
                    c.iv[k] = (thf, False, thf, False)
                    if k != thv:
                        c.subst[k] = thv
                        c.subst[(-k) % P] = (-thv) % P
                        c.known[thv] = thf
                        c.known[(-thv) % P] = -thf
                    if at.op in ('flt', 'fle', 'feq'):
                        x, y = at.args
                        if e.cval(x) is None and e.cval(y) is None:
                            vx, vy = e.fv(x), e.fv(y)
                            if vx != vy:
                                c.subst.pop(k, None)
                                c.subst.pop((-k) % P, None)
                                c.subst[vx] = vy
                                c.subst[(-vx) % P] = (-vy) % P
                c.log = ctx.log + (self.say(at, o, mask),)
                if o == EQ:
                    c = self.assume(premise, c)
                else:
                    c.facts = ctx.facts + ((self.W.atomvar[at], bool(mask & o), True),)
                yield c
        elif i[0] == 'enum':
            c = ctx.copy()
            c.enum[i[1]] = i[2]
            c.log = ctx.log + (f'{show(at, 5)} is true',)
            yield c
            c = ctx.copy()
            ex = c.enum.get(i[1], frozenset())
            c.enum[i[1]] = ex | {i[2]}
            c.log = ctx.log + (f'{show(at, 5)} is false',)
            yield c
        else:
            for v in (True, False):
                c = ctx.copy()
                c.bools[i[1]] = v
                c.log = ctx.log + (f'{show(at, 5)} is {str(v).lower()}',)
                yield c

    @staticmethod
    def say(at, o, mask):
        if o == EQ:
            return f'equality in {show(at, 5)}'
        return f'{show(at, 5)} is {str(bool(mask & o)).lower()}'

    # ---- reporting
    ANCHOR = ('fsin', 'fcos', 'frem', 'fmodp', 'fatan2', 'fsqrt', 'fpow', 'ffloor', 'ftrunc', 'fround', 'lv', 'callptr', 'app',
              'i2f', 'f2i')

    def locate(self, e, a, c):
        """Irreducible operations of the first term (the code) whose value has no counterpart in the second (the reference)."""
        def anchors(root, other):
            out = []
            bad = {}
            for n in self.walk(e, root):
                ks = self.kids(e, n)
                below = any(bad.get(k) for k in ks)
                here = n.op in self.ANCHOR and n.op != 'frem' and e.fv(n) not in other
                if here and not below:
                    out.append(n)
                bad[n] = below or here
            return out
        def vals(root):
            r = {e.fv(n) for n in self.walk(e, root) if n.op in self.ANCHOR}
            return r | {(-x) % P for x in r}
        va, vc = vals(a), vals(c)
        return {'code_terms': anchors(a, vc)[:8], 'reference_terms': anchors(c, va)[:8]}
