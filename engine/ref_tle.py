"""Reference definition of the two-line element set format over the bytes of two symbolic lines.

Columns, number syntax, checksum and date rules of the published format; nothing here is taken from the program.
"""
from bdd import T, F
from interp import State
import natives

WS = natives.WS_ASCII
SPACES = {1: (1, 8, 17, 32, 43, 52, 61, 63), 2: (1, 7, 16, 25, 33, 42, 51)}


class Tle:
    def __init__(self, I, line1, line2, designator=True):
        self.I, self.W, self.b = I, I.W, I.b
        self.st = State(T, {})
        self.lines = {1: line1, 2: line2}
        self.checks = []        # (kinds, line, {(start, end)}, failure condition, end is the line length)
        self.fields = {}
        self.ok = T
        self.build(designator)

    # ---- pieces
    def byte(self, l, i):
        return self.I.slice_elem(self.st, self.lines[l], self.W.I(i))

    def cut(self, l, a, z):
        return natives.sub_slice(self.I, self.lines[l], self.W.I(a), self.W.I(z))

    def require(self, kinds, line, cols, okc, after=T):
        """The check named by kinds and columns fails when okc does not hold (and `after` does)."""
        f = self.b.AND(after, self.b.NOT(okc))
        self.checks.append((kinds, line, cols, f))
        self.ok = self.b.AND(self.ok, self.b.NOT(f))
        return okc

    def lists(self, l, a, z, trim):
        s = self.cut(l, a, z)
        if trim:
            s = natives.trim(self.I, self.st, s, WS, True, False)
        return natives.byte_lists(self.I, self.st, s)

    def number(self, l, a, z, kind, kinds, lo=0, hi=0, trim=True):
        """Number written in columns a..z, leading blanks allowed unless trim is off."""
        W, b, I = self.W, self.b, self.I
        okc, vals = F, []
        for c, xs in self.lists(l, a, z, trim):
            if kind == 'f64':
                o = natives.float_ok(I, xs)
                v = W.mk('pf64', *natives.canon_float_bytes(xs))
                v.ty = 'float'
            else:
                o, v = natives.parse_int_bytes(I, xs, lo, hi)
            o = b.AND(c, o)
            if o != F:
                okc = b.OR(okc, o)
                vals.append((o, v))
        self.require(kinds, l, {(a, z)}, okc)
        return okc, W.select(vals)

    def decimal(self, l, a, z):
        """Number with an implied leading decimal point, optional sign."""
        W, b, I = self.W, self.b, self.I
        okc, vals = F, []
        for c, xs in self.lists(l, a, z, True):
            if not xs:
                continue
            dot = W.I(46)
            minus, plus = natives.byte_in(I, xs[0], {45}), natives.byte_in(I, xs[0], {43})
            for g, ys in ((minus, [W.I(45), dot] + xs[1:]), (plus, [dot] + xs[1:]), (b.NOT(b.OR(minus, plus)), [dot] + xs)):
                o = b.AND(b.AND(c, g), natives.float_ok(I, ys))
                if o != F:
                    v = W.mk('pf64', *ys)
                    v.ty = 'float'
                    okc = b.OR(okc, o)
                    vals.append((o, v))
        self.require({'ExpectedFloatWithAssumedDecimalPoint'}, l, {(a, z)}, okc)
        return W.select(vals)

    def exponent(self, l, a, z):
        I = self.I
        e = self.number(l, a, z, 'i8', {'ExpectedFloat', 'ExpectedInteger'}, -128, 127, trim=False)[1]
        return I.fl('fpowi', I.fconst(10.0), e)

    def year(self, okv):
        W = self.W
        v = okv[1]
        return W.ite(W.ge0(W.add(v, W.I(57), -1)), W.add(v, W.I(1900)), W.add(v, W.I(2000)))

    # ---- the format
    def build(self, designator):
        W, b, I = self.W, self.b, self.I
        self.lens = {}
        for l in (1, 2):
            n = self.I.slice_len(self.lines[l])
            self.lens[l] = n
            self.require({'BadLength'}, l, {(0, n)}, W.eq0(W.add(n, W.I(69), -1)))
        for l in (1, 2):
            self.require({'BadFirstCharacter'}, l, {(0, 1)}, natives.byte_in(I, self.byte(l, 0), {48 + l}))
        for l in (1, 2):
            for i in SPACES[l]:
                self.require({'ExpectedSpace'}, l, {(i, i + 1)}, natives.byte_in(I, self.byte(l, i), {32}))
        U64 = (1 << 64) - 1
        o1, n1 = self.number(1, 2, 7, 'u64', {'ExpectedInteger'}, 0, U64)
        o2, n2 = self.number(2, 2, 7, 'u64', {'ExpectedInteger'}, 0, U64)
        self.require({'NoradIdMismatch'}, 0, {(2, 7)}, W.eq0(W.add(n1, n2, -1)), b.AND(o1, o2))
        self.fields['norad_id'] = n1
        for l in (1, 2):
            acc = {}
            for i in range(68):
                v = self.byte(l, i)
                acc[W.mk('tab', v, tuple(x - 48 if 48 <= x < 58 else 1 if x == 45 else 0 for x in range(256)))] = 1
            r = W.mk('irem', W.lin(0, acc), 10, rng=(0, 9), ty='int')
            okc = W.residue(W.lin(48, {r: 1, self.byte(l, 68): -1}), lambda x: x == 0)
            self.require({'BadChecksum'}, l, {(68, 69)}, okc)
        c = self.byte(1, 7)
        self.classes = {n: natives.byte_in(I, c, {ord(x)}) for n, x in (('Unclassified', 'U'), ('Classified', 'C'), ('Secret', 'S'))}
        known = F
        for x in self.classes.values():
            known = b.OR(known, x)
        self.require({'UnknownClassification'}, 1, {(7, 8)}, known)
        if designator:
            blank = T
            for i in range(9, 17):
                blank = b.AND(blank, natives.byte_in(I, self.byte(1, i), WS))
            self.blank = blank
            there = b.NOT(blank)
            okc, v = natives.parse_int_bytes(I, [self.byte(1, i) for i in (9, 10)], 0, 255)
            self.require({'ExpectedInteger'}, 1, {(9, 11)}, okc, there)
            self.launch = self.year((okc, v))
            self.require({'ExpectedString'}, 1, {(11, 17)}, natives.utf8_ok(I, [self.byte(1, i) for i in range(11, 17)]), there)
            self.piece = W.mk('strtrim', I.content(self.st, self.cut(1, 11, 17)))
        od, day = self.number(1, 20, 32, 'f64', {'ExpectedFloat'})
        oy, yy = self.number(1, 18, 20, 'u8', {'ExpectedFloat', 'ExpectedInteger'}, 0, 255, trim=False)
        u32 = (0, (1 << 32) - 1)
        toint = lambda v: natives_f2i(I, v, *u32)
        sec = I.fl('fmul', I.fl('ffract', day), I.fconst(86400.0))
        ns = toint(I.fl('fround', I.fl('fmul', I.fl('ffract', sec), I.fconst(1e9))))
        s = toint(sec)
        over = W.ge0(W.add(ns, W.I(1000000000), -1))
        ns, s = W.ite(over, W.add(ns, W.I(1000000000), -1), ns), W.ite(over, W.add(s, W.I(1)), s)
        date = W.mk('app', 'date_yo', self.year((oy, yy)), toint(day))
        both = b.AND(od, oy)
        dok = b.NOT(W.atom(W.mk('isvar', date, 0)))
        self.require({'FromYoOptFailed'}, 1, {(18, 20), (18, 32), (20, 32), (20, 23)}, dok, both)
        time = W.mk('app', 'time_sn', s, ns)
        tok = b.NOT(W.atom(W.mk('isvar', time, 0)))
        self.require({'FromNumSecondsFromMidnightFailed'}, 1, {(20, 32)}, tok, od)
        self.fields['datetime'] = W.mk('app', 'datetime', W.mk('fld', date, 1, 0), W.mk('fld', time, 1, 0))
        fl = lambda l, a, z: self.number(l, a, z, 'f64', {'ExpectedFloat'})[1]
        self.fields['mean_motion_dot'] = fl(1, 33, 43)
        self.fields['mean_motion_ddot'] = I.fl('fmul', self.decimal(1, 44, 50), self.exponent(1, 50, 52))
        self.fields['drag_term'] = I.fl('fmul', self.decimal(1, 53, 59), self.exponent(1, 59, 61))
        num = lambda l, a, z, hi: self.number(l, a, z, 'int', {'ExpectedInteger'}, 0, hi)[1]
        self.fields['ephemeris_type'] = num(1, 62, 63, 255)
        self.fields['element_set_number'] = num(1, 64, 68, U64)
        self.fields['inclination'] = fl(2, 8, 16)
        self.fields['right_ascension'] = fl(2, 17, 25)
        self.fields['eccentricity'] = self.decimal(2, 26, 33)
        self.fields['argument_of_perigee'] = fl(2, 34, 42)
        self.fields['mean_anomaly'] = fl(2, 43, 51)
        self.fields['mean_motion'] = fl(2, 52, 63)
        self.fields['revolution_number'] = num(2, 63, 68, U64)


def natives_f2i(I, v, lo, hi):
    """Saturating conversion to an unsigned integer, as the engine represents it."""
    if v.op == 'ite':
        return I.W.ite(v.args[0], natives_f2i(I, v.args[1], lo, hi), natives_f2i(I, v.args[2], lo, hi))
    return I.W.mk('f2i', v, lo, hi, rng=(lo, hi), ty='int')
