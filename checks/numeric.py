"""Propagation and initialisation checks: the value computed by the compiled code against a reference definition."""
import os
import pickle
import re
import sys

from bdd import T, F
from interp import Interp, Prog, State, show
from dsl import Ref, Shape, X, C
from fp import Comparer, Eval, Ctx
import natives
import ref_sgp4
from checks import base

TRUST = base.TRUSTED + [
    'engine/fp.py: equality of expressions over the reals decided in a 2^80 prime field, all elementary-function arguments '
    'and constants tracked (chance of accepting a wrong expression below 2^-60 per comparison)',
    'engine/ref_sgp4.py: transcription of the published SGP4/SDP4 equations',
]
REAL = 'floating-point operations are read as exact real arithmetic: rounding, overflow and not-a-number are outside the comparison unless an obligation names them'


def pmap(fn, items, jobs=None):
    """fn over items in forked children of this (already analysed) process; results must be picklable."""
    jobs = min(jobs or int(os.environ.get('VERIF_JOBS', '8')), len(items))
    if jobs <= 1:
        return [fn(x) for x in items]
    todo, running, res = list(enumerate(items)), {}, {}
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < jobs:
            i, x = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    out = pickle.dumps((True, fn(x)))
                except BaseException as e:
                    import traceback
                    out = pickle.dumps((False, traceback.format_exc()))
                    code = 1
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(out)
                finally:
                    os._exit(code)
            os.close(w)
            running[pid] = (i, r)
        # read the pipes of the oldest child first; children block on full pipes until read
        pid = next(iter(running))
        i, r = running.pop(pid)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        okk, v = pickle.loads(data) if data else (False, 'worker died')
        if not okk:
            raise RuntimeError(v)
        res[i] = v
    return [res[i] for i in range(len(items))]


_dumps = {}


def program(feature='default'):
    if feature not in _dumps:
        _dumps[feature] = base.dump(feature)
    return Prog(_dumps[feature][0])


def describe(res):
    """Readable account of a difference found by the comparer."""
    out = []
    for x in res['regime'][:12]:
        out.append('where ' + x[:160])
    locs = []
    for x in res['code_terms'][:6]:
        loc = getattr(x, 'loc', None)
        if loc and loc not in locs:
            locs.append(loc)
        out.append(f'code term at {loc}: {show(x, 4)[:240]}')
    for x in res['reference_terms'][:4]:
        out.append(f'reference term: {show(x, 4)[:240]}')
    if res.get('note'):
        out.append(res['note'])
    return '; '.join(out)


class Model:
    """new_propagate of the compiled code and the reference definition over the same symbols."""

    def __init__(self, feature='default', root='new_propagate', P=None):
        self.P = P or program(feature)
        self.I = I = Interp(self.P, natives=natives.find)
        self.S, self.R, self.W, self.b = Shape(I), Ref(I), I.W, I.b
        self.root = root
        S, R, W = self.S, self.R, self.W
        self.args, self.ret = S.root_types(root)
        args = self.args
        self.r, self.st = I.run_root(root)
        gv, ov = I.sym('g', args['g']), I.sym('orbit', args['orbit'])
        g = {k: R.x(S.get(gv, args['g'], k)) for k in ('ae', 'ke', 'j2', 'j3', 'j4')}
        o = {k: R.x(S.get(ov, args['orbit'], f)) for k, f in ORBIT}
        epoch = self.sym('epoch')
        gsto = R.x(W.mk('callptr', I.sym('sidereal', args['sidereal']), epoch.n))
        gsto.n.ty = 'float'
        self.g, self.o, self.epoch, self.gsto = g, o, epoch, gsto
        self.M = ref_sgp4.Sgp4(R, g, o, self.sym('drag'), epoch, gsto)
        self.t = self.sym('t')
        self.afspc = C(R, I.sym('afspc', args['afspc']).args[0])

    def sym(self, n):
        return self.R.x(self.I.sym(n, self.args[n]))

    def reference(self, **kw):
        self.out = self.M.propagate(self.t, self.afspc, **kw)
        return self.out

    def unpack(self, r=None):
        """(outer ok, inner result, inner ok, prediction) of a Result<Result<Prediction, Error>, _> value."""
        S = self.S
        r = r or self.r
        okt = S.ftype(self.ret, '0', 'Ok')
        inner = S.get(r, self.ret, '0', 'Ok')
        pt = S.ftype(okt, '0', 'Ok')
        pred = S.get(inner, okt, '0', 'Ok')
        return S.is_variant(r, 0), inner, S.is_variant(inner, 0), pred, okt, pt

    def refok(self, d):
        b = self.b
        return b.NOT(b.OR(d['err1'].b, b.OR(d['err4'].b, d['err2'].b if 'err2' in d else F)))

    def conj(self, *cs):
        r = T
        for c in cs:
            r = self.b.AND(r, c.b if isinstance(c, C) else c)
        return r


ORBIT = (('incl', 'inclination'), ('node', 'right_ascension'), ('ecc', 'eccentricity'), ('argp', 'argument_of_perigee'),
         ('m', 'mean_anomaly'), ('n', 'mean_motion'))


def compare_many(rep, W, loops, jobs, seeds):
    """jobs: [(key, what, code node, reference node, premise)].  One obligation each."""
    def one(j):
        key, what, a, c, pr = j
        if pr == F:
            return ('vacuous', None, {})
        cmp = Comparer(W, loops, seeds=seeds)
        res = cmp.equal(W.restrict(a, pr), W.restrict(c, pr), pr)
        return ('diff' if res else 'equal', describe(res) if res else None, dict(cmp.stats))
    for (key, what, *_), (k, text, stats) in zip(jobs, pmap(one, jobs)):
        if k == 'vacuous':
            rep.fail(key, f'{what}: the case cannot arise in the analysed code')
        elif k == 'equal':
            rep.ok(what)
        else:
            rep.fail(key, f'{what}: computed value differs from the definition; {text}')
        for n, v in stats.items():
            rep.count('comparison_' + n, v)


def seeds_of(rep):
    s = int(os.environ.get('VERIF_SEED', '1'))
    n = 3 if rep.tier == 'quick' else 6
    return tuple(1000 * s + i for i in range(1, n + 1))


def vec(W, xs):
    return W.mk('agg', None, *[x.n for x in xs])


def predictions(rep, which):
    m = Model()
    I, S, W, b = m.I, m.S, m.W, m.b
    out = m.reference()
    oko, inner, oki, pred, okt, pt = m.unpack()
    pos, vel = S.get(pred, pt, 'position'), S.get(pred, pt, 'velocity')
    M = m.M
    jobs = []
    if which == 'near':
        d = out['near']
        cases = [(f'{a}{e}', m.conj(~M.deep, x, z))
                 for a, x in (('perigee at least 220 km, elliptic', m.conj(~M.low, M.elliptic)),
                              ('perigee at least 220 km, near-circular', m.conj(~M.low, ~M.elliptic)),
                              ('perigee from 156 km to 220 km', m.conj(M.low, ~M.below156)),
                              ('perigee from 98 km to 156 km', m.conj(M.low, M.below156, ~M.below98)),
                              ('perigee below 98 km', m.conj(M.low, M.below98)))
                 for e, z in (('', ~M.retrograde), (', retrograde near 180 degrees', M.retrograde))]
    elif which == 'deep':
        d = out['deep']
        cases = [(f'deep-space, {a}, inclination {c}', m.conj(M.deep, ~M.resonant, x, y))
                 for a, x in (('off the equator at the epoch', ~M.equatorial), ('near-equatorial at the epoch', M.equatorial))
                 for c, y in (('at least 0.2 rad', ~d['lyddane']), ('below 0.2 rad', d['lyddane']))]
    else:
        d = out['deep']
        t = m.t
        cases = [(f'{a}, {c}{e}', m.conj(M.deep, x, y, z))
                 for a, x in (('24-hour resonant', M.day1), ('12-hour resonant', M.half))
                 for c, y in (('forward in time', t > 0), ('at or before the epoch', ~(t > 0)))
                 for e, z in (('', ~d['lyddane']), (', inclination below 0.2 rad', d['lyddane']))]
    for nm, prem in cases:
        pr = m.conj(prem, oko, oki, m.refok(d))
        for q, code, ref in (('position', pos, d['r']), ('velocity', vel, d['v'])):
            for i, axis in enumerate('xyz'):
                jobs.append((f'{which}:{nm}:{q} {axis}', f'{q} {axis}, {nm}', I.elem(code, W.I(i)), ref[i].n, pr))
    if which == 'res':
        # which orbits are treated as resonant is visible in whether a state exists
        v, _ = I.run_root('new')
        nret = S.root_types('new')[1]
        state, _ = I.run_root('initial_state', args=[I.new_ref(S.get(v, nret, '0', 'Ok'))])
        some = S.is_variant(state, 1)
        jobs.append(('res:classification', 'which orbits carry a resonance state', W.B(some),
                     W.B(m.conj(M.deep, M.resonant)), S.is_variant(v, 0)))
    rep.interp(I)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


def C13(rep):
    rep.rule = 'position and velocity returned by initialisation followed by propagation equal the SGP4 definition, as expressions, in every near-earth regime'
    predictions(rep, 'near')


def C14(rep):
    rep.rule = 'position and velocity returned by initialisation followed by propagation equal the SDP4 definition, as expressions, in every non-resonant deep-space regime'
    predictions(rep, 'deep')


def C15(rep):
    rep.rule = 'as C14 for resonant orbits, the 720-minute integration compared as a loop (initial values, one step, exit test), and the set of orbits that carry a resonance state compared with the definition'
    predictions(rep, 'res')


def rebuild(W, v, f):
    """Map the leaves of a conditional value."""
    memo = {}

    def go(n):
        r = memo.get(n)
        if r is None:
            r = memo[n] = W.ite(n.args[0], go(n.args[1]), go(n.args[2])) if n.op == 'ite' else f(n)
        return r
    return go(v)


# ------------------------------------------------------------------ not-a-number
FLOAT_OPS = ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'fsin', 'fcos', 'ftan', 'fatan2', 'frem', 'fmodp', 'ffloor',
             'fround', 'ftrunc', 'fceil', 'fpow', 'fpowi', 'fclamp', 'fcbrt', 'ffract')


class Nan:
    """Truth of conditions when the given terms are not a number: every ordered comparison with such an operand is false."""

    def __init__(self, W, seeds):
        self.W = W
        self.b = W.bdd
        self.memo = {n: T for n in seeds}
        self.cmemo = {}

    def nan(self, n):
        """Condition under which the term is not a number (given the seeds are)."""
        r = self.memo.get(n)
        if r is None:
            b = self.b
            r = F
            if n.op == 'ite':
                r = b.ite(self.cond(n.args[0]), self.nan(n.args[1]), self.nan(n.args[2]))
            elif n.op in FLOAT_OPS:
                if n.op == 'fpowi' and n.args[1].op == 'i' and n.args[1].args[0] == 0:
                    r = F
                else:
                    for a in n.args:
                        if hasattr(a, 'op'):
                            r = b.OR(r, self.nan(a))
            elif n.op in ('fmax', 'fmin'):
                r = b.AND(self.nan(n.args[0]), self.nan(n.args[1]))
            self.memo[n] = r
        return r

    def cond(self, f):
        """The condition with comparisons of not-a-number operands made false."""
        b = self.b
        if f in (T, F):
            return f
        r = self.cmemo.get(f)
        if r is None:
            v, lo, hi = b.node(f)
            lo, hi = self.cond(lo), self.cond(hi)
            at = self.W.atoms[v]
            isn = F
            if at.op in ('flt', 'fle', 'feq', 'finite', 'infinite'):
                for a in at.args:
                    if hasattr(a, 'op'):
                        isn = b.OR(isn, self.nan(a))
            r = b.ite(isn, lo, b.ite(b.atom(v), hi, lo))
            self.cmemo[f] = r
        return r


# ------------------------------------------------------------------ C17
def C17(rep):
    rep.rule = ('the error conditions, kinds and carried values of a propagation equal the definition; with a not-a-number '
                'eccentricity every comparison is false and the refusal must still follow')
    m = Model()
    I, S, W, b, M = m.I, m.S, m.W, m.b, m.M
    out = m.reference()
    oko, inner, oki, pred, okt, pt = m.unpack()
    et = S.ftype(okt, '0', 'Err')
    ok_mark = W.mk('agg', 'accepted')

    def marked(n):
        if n.op == 'agg':
            return n.args[1] if n.args[0] == 1 else ok_mark
        return n
    code = rebuild(W, inner, marked)
    t = m.t

    def expect(d):
        v = W.ite(d['err4'].b, S.make(et, 'NegativeSemiLatusRectum', t=t), ok_mark)
        if 'err2' in d:
            v = W.ite(d['err2'].b, S.make(et, 'OutOfRangePerturbedEccentricity', eccentricity=d['ep'], t=t), v)
        return W.ite(d['err1'].b, S.make(et, 'OutOfRangeEccentricity', eccentricity=d['em'], t=t), v)
    jobs = []
    near, deep = out['near'], out['deep']
    cases = [('near-earth', near, m.conj(~M.deep)), ('deep-space non-resonant', deep, m.conj(M.deep, ~M.resonant)),
             *[(f'{k} resonant, {dn}', deep, m.conj(M.deep, x, y)) for k, x in (('24-hour', M.day1), ('12-hour', M.half))
               for dn, y in (('forward in time', t > 0), ('at or before the epoch', ~(t > 0)))]]
    for nm, d, prem in cases:
        jobs.append((f'{nm}:outcome', f'refusal conditions, error kinds and carried values, {nm}', code, expect(d), m.conj(prem, oko)))
    rep.interp(I)
    # not-a-number eccentricities
    for nm, d, prem in (cases[0], cases[1], ('deep-space resonant', deep, m.conj(M.deep, M.resonant))):
        pr = m.conj(prem, oko)
        here = W.restrict(inner, pr)
        accept = b.AND(pr, S.is_variant(here, 0))
        for variant in ('OutOfRangeEccentricity', 'OutOfRangePerturbedEccentricity'):
            if variant == 'OutOfRangePerturbedEccentricity' and 'err2' not in d:
                continue
            # the value the error carries is the value that was tested
            x = S.get(S.get(here, okt, '0', 'Err'), et, 'eccentricity', variant)
            what = f'{variant}: tested value not a number, {nm}'
            left = Nan(W, [l for _, l in W.leaves(x)]).cond(accept)
            rep.check(left == F, f'{nm}:{variant}:not-a-number', f'{what}: the value is not refused; a prediction is returned when every comparison with it is false', what)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


# ------------------------------------------------------------------ C16
def C16(rep):
    rep.rule = ('value of the propagation with the flag on and off equal as expressions outside the low-inclination deep-space regime; inside it both equal '
                'the definition; the convenience calls equal the general call with a fresh state as expressions')
    m = Model()
    I, S, W, b, M = m.I, m.S, m.W, m.b, m.M
    out = m.reference()
    d = out['deep']
    names = [n for n in m.args]
    vals = []
    for flag in (T, F):
        args = [I.sym(n, m.args[n]) if n != 'afspc' else W.B(flag) for n in names]
        v, _ = I.run_root('new_propagate', args=args)
        vals.append(v)
    jobs = [('flag:near-earth', 'flag without influence, near-earth', vals[0], vals[1], m.conj(~M.deep)),
            ('flag:deep-space', 'flag without influence, deep-space with perturbed inclination of at least 0.2 rad', vals[0], vals[1], m.conj(M.deep, ~M.resonant, ~d['lyddane'])),
            ('flag:24-hour', 'flag without influence, 24-hour resonant with perturbed inclination of at least 0.2 rad', vals[0], vals[1], m.conj(M.deep, M.day1, ~d['lyddane'])),
            ('flag:12-hour', 'flag without influence, 12-hour resonant with perturbed inclination of at least 0.2 rad', vals[0], vals[1], m.conj(M.deep, M.half, ~d['lyddane']))]
    for v, flag, nm in ((vals[0], T, 'on'), (vals[1], F, 'off')):
        oko, inner, oki, pred, okt, pt = m.unpack(v)
        dd = M.propagate(m.t, C(m.R, flag))['deep']
        ref = W.mk('agg', None, vec(W, dd['r']), vec(W, dd['v']))
        code = W.mk('agg', None, S.get(pred, pt, 'position'), S.get(pred, pt, 'velocity'))
        jobs.append((f'flag:low-inclination:{nm}', f'flag {nm}, low-inclination deep-space orbit', code, ref,
                     m.conj(M.deep, ~M.resonant, d['lyddane'], oko, oki, m.refok(dd))))
    # convenience calls
    fargs, _ = S.root_types('propagate_fresh')
    cv = I.sym('constants', fargs['constants'])
    t = m.t.n
    mins = W.mk('agg', None, t)
    for root, flag in (('propagate', F), ('propagate_afspc', T)):
        n0 = len(I.panics)
        x, _ = I.run_root(root, args=[cv, mins])
        y, _ = I.run_root('propagate_fresh', args=[cv, t, W.B(flag)])
        jobs.append((f'convenience:{root}', f'{root} against the general call with a fresh state', x, y, T))
    rep.interp(I)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


# ------------------------------------------------------------------ C09
def C09(rep):
    rep.rule = 'both sidereal time functions equal their published expression, as expressions, in every feature set'
    for feat, (client, _) in base.dumps(['default', 'libm', 'std'] if rep.tier == 'quick' else list(base.FEATURES)).items():
        I = Interp(Prog(client), natives=natives.find)
        R = Ref(I)
        jobs = []
        for root, ref in (('sidereal_iau', ref_sgp4.sidereal_iau), ('sidereal_afspc', ref_sgp4.sidereal_afspc)):
            v, _ = I.run_root(root)
            e = R.x(I.sym('epoch', Shape(I).root_types(root)[0]['epoch']))
            x = ref(R, e)
            jobs.append((f'{root}:{feat}', f'{root} in feature set {feat}', v, x.n, T))
        rep.interp(I)
        compare_many(rep, I.W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


# ------------------------------------------------------------------ C08
def day_number(I, R, dt):
    """Days since J2000 noon of a date and time, by the civil-calendar formula."""
    W = I.W
    part = lambda k: natives.chrono_field(I, dt, k)
    i32 = next(i for i, t in enumerate(I.P.types) if t['k'] == 'int' and t['signed'] and t['bits'] == 32)
    idiv = lambda a, k: I.int_bin(State(T, {}), 'Div', a, W.I(k), i32)
    y, mo, d = part('year'), part('month'), part('day')
    n = W.add(W.scale(y, 367), idiv(W.add(W.scale(y, 7), idiv(W.add(mo, W.I(9)), 12), 7), 4), -1)
    n = W.add(W.add(n, idiv(W.scale(mo, 275), 9)), d)
    sec = W.add(W.add(W.scale(part('hour'), 3600), part('minute'), 60), part('second'))
    # whole days are counted from noon: 730531 is the day number of 1 January 2000, whose noon is 43200 s into the day
    return R.i2f(n) - 730531 + (R.i2f(sec) - 43200 + R.i2f(part('nanosecond')) / 1e9) / 86400


def C08(rep):
    rep.rule = 'both epoch expressions equal the civil-calendar day number formula plus the time of day, as expressions over the parts of the date, and the element-set accessors apply them to the element-set date'
    I = Interp(program(), natives=natives.find)
    R, S, W = Ref(I), Shape(I), I.W
    jobs = []
    for root, arg in (('epoch_of', None), ('epoch_of_afspc', None), ('elements_epoch', 'datetime'), ('elements_epoch_afspc', 'datetime')):
        args, _ = S.root_types(root)
        (an, at), = args.items()
        p = I.sym(an, at)
        v, st = I.run_root(root, args=[p])
        dt = I.load(st, p)
        if arg:
            dt = S.get(dt, at, arg)
        jobs.append((f'{root}', f'{root}: Julian years since J2000', v, (day_number(I, R, dt) / 365.25).n, T))
    rep.interp(I)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    for pn in I.panics:
        rep.fail(f'overflow:{pn["own"]}:{pn["kind"]}', f'{pn["own"]} at {pn["own_loc"]}: {pn["kind"]} of {pn["detail"]} possible for some date')
    rep.ok('no arithmetic overflow for any date')
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


# ------------------------------------------------------------------ C10
def C10(rep):
    rep.rule = 'results and error conditions of both conversions equal the definition as expressions; a not-a-number argument makes every comparison false and must still give the error'
    I = Interp(program(), natives=natives.find)
    R, S, W, b = Ref(I), Shape(I), I.W, I.b
    jobs = []
    # date -> minutes
    args, ret = S.root_types('to_minutes')
    ep, dp = I.sym('elements', args['elements']), I.sym('datetime', args['datetime'])
    v, st = I.run_root('to_minutes', args=[ep, dp])
    epoch, dt = S.get(I.load(st, ep), args['elements'], 'datetime'), I.load(st, dp)
    diff = W.mk('dtdiff', dt, epoch)
    fits, ns = natives.delta_ns(I, diff)
    mt, et = S.ftype(ret, '0', 'Ok'), S.ftype(ret, '0', 'Err')
    want = W.ite(fits, W.mk('agg', 0, S.make(mt, None, **{'0': R.i2f(ns) / 60e9})), W.mk('agg', 1, S.make(et, None, **{'from': epoch, 'to': dt})))
    jobs.append(('to_minutes', 'date to minutes: value, error condition and error content', v, want, T))
    # minutes -> date
    args, ret = S.root_types('to_datetime')
    mp = I.sym('minutes', args['minutes'])
    v2, st = I.run_root('to_datetime', args=[ep, mp])
    mv = R.x(S.get(I.load(st, mp), args['minutes'], '0'))
    x = mv * 60e9
    inrange = (x >= -2.0 ** 63) & (x < 2.0 ** 63)
    i64 = next(i for i, t in enumerate(I.P.types) if t['k'] == 'int' and t['signed'] and t['bits'] == 64)
    delta = W.mk('td_ns', I.f2i(State(T, {}), R.round(x).n, i64))
    okc, val = natives.dt_add(I, epoch, delta)
    et = S.ftype(ret, '0', 'Err')
    want = W.ite(inrange.b, W.ite(okc, W.mk('agg', 0, val), W.mk('agg', 1, S.make(et, 'Add', datetime=epoch, duration=delta))),
                 W.mk('agg', 1, S.make(et, 'MinutesToNanoseconds', **{'0': mv})))
    jobs.append(('to_datetime', 'minutes to date: value, error conditions and error contents', v2, want, T))
    rep.interp(I)
    accept = S.is_variant(v2, 0)
    left = Nan(W, [mv.n]).cond(accept)
    rep.check(left == F, 'to_datetime:not-a-number', 'minutes that are not a number are converted to a date instead of an error (every comparison with them is false)', 'minutes not a number refused')
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    report_panics(rep, I)
    rep.trusted = TRUST
    rep.assumptions.append('chrono subtraction, Duration::nanoseconds, num_nanoseconds and checked_add_signed are exact or report overflow, as documented')


def report_panics(rep, I, where=''):
    if not I.panics:
        rep.ok('no reachable panic' + where)
    for pn in I.panics:
        rep.fail(f'panic:{pn["own"]}:{pn["kind"]}', f'{pn["own"]} at {pn["own_loc"]} can panic{where}: {pn["kind"]} {pn["detail"]} (via {" > ".join(pn["stack"][:4])})')


# ------------------------------------------------------------------ C11
def C11(rep):
    rep.rule = 'result of the element conversion and acceptance by the constructor equal the definition as expressions (value, error kind, carried value); not-a-number inputs must be refused'
    I = Interp(program(), natives=natives.find)
    R, S, W, b = Ref(I), Shape(I), I.W, I.b
    args, ret = S.root_types('kozai')
    v, st = I.run_root('kozai')
    gv = I.load(st, I.sym('g', args['g']))
    g = {k: R.x(S.get(gv, args['g'], k)) for k in ('ae', 'ke', 'j2', 'j3', 'j4')}
    x = {k: R.x(I.sym(k, args[k])) for k in 'ioewmn'}
    nb = ref_sgp4.kozai(R, g, x['i'], x['e'], x['n'])
    ot, et = S.ftype(ret, '0', 'Ok'), S.ftype(ret, '0', 'Err')
    orbit = S.make(ot, None, inclination=x['i'], right_ascension=x['o'], eccentricity=x['e'], argument_of_perigee=x['w'],
                   mean_anomaly=x['m'], mean_motion=nb)
    want = W.ite((x['n'] > 0).b, W.ite((nb > 0).b, W.mk('agg', 0, orbit), W.mk('agg', 1, S.make(et, 'NegativeBrouwerMeanMotion'))),
                 W.mk('agg', 1, S.make(et, 'NegativeKozaiMeanMotion')))
    jobs = [('kozai', 'mean motion conversion: orbit, error conditions and kinds', v, want, T)]
    left = Nan(W, [x['n'].n]).cond(S.is_variant(v, 0))
    rep.check(left == F, 'kozai:mean-motion:not-a-number', 'Orbit::from_kozai_elements accepts a mean motion that is not a number', 'mean motion not a number refused')
    # constructor
    args, ret = S.root_types('new')
    c, st = I.run_root('new')
    ecc = R.x(S.get(I.sym('orbit', args['orbit']), args['orbit'], 'eccentricity'))
    et = S.ftype(ret, '0', 'Err')
    accepted = W.mk('agg', 'accepted')
    code = rebuild(W, c, lambda n: (n.args[1] if n.args[0] == 1 else accepted) if n.op == 'agg' else n)
    jobs.append(('new', 'constructor: accepted exactly for eccentricities in [0, 1), else the eccentricity is reported', code,
                 W.ite(((ecc >= 0) & (ecc < 1)).b, accepted, S.make(et, None, **{'0': ecc})), T))
    left = Nan(W, [ecc.n]).cond(S.is_variant(c, 0))
    rep.check(left == F, 'new:eccentricity:not-a-number', 'Constants::new accepts an eccentricity that is not a number', 'eccentricity not a number refused')
    # element sets: which error of which stage
    for root in ('from_elements', 'from_elements_afspc'):
        args, ret = S.root_types(root)
        p = I.sym('elements', args['elements'])
        r, st = I.run_root(root, args=[p])
        el = I.load(st, p)
        f = lambda k: R.x(S.get(el, args['elements'], k))
        rad = R.pi / 180
        gg = {k: R.num(q) for k, q in (ref_sgp4.WGS84 if root == 'from_elements' else ref_sgp4.WGS72).items()}
        n = f('mean_motion') * (R.pi / 720)
        e = f('eccentricity')
        nb = ref_sgp4.kozai(R, gg, f('inclination') * rad, e, n)
        et = S.ftype(ret, '0', 'Err')
        ke, oe = S.ftype(et, '0', 'KozaiElementsError'), S.ftype(et, '0', 'OutOfRangeEpochEccentricity')
        k1, k2 = S.make(ke, 'NegativeKozaiMeanMotion'), S.make(ke, 'NegativeBrouwerMeanMotion')
        wrapk = lambda q: S.make(et, 'KozaiElementsError', **{'0': q})
        want = W.ite((n > 0).b, W.ite((nb > 0).b, W.ite(((e >= 0) & (e < 1)).b, accepted, S.make(et, 'OutOfRangeEpochEccentricity', **{'0': S.make(oe, None, **{'0': e})})),
                                      wrapk(k2)), wrapk(k1))
        code = rebuild(W, r, lambda n: (n.args[1] if n.args[0] == 1 else accepted) if n.op == 'agg' else n)
        jobs.append((root, f'{root}: acceptance and error kinds', code, want, T))
        for q in ('mean_motion', 'eccentricity'):
            left = Nan(W, [f(q).n]).cond(S.is_variant(r, 0))
            rep.check(left == F, f'{root}:{q}:not-a-number', f'{root} accepts elements whose {q} is not a number', f'{root}: {q} not a number refused')
    rep.interp(I)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


# ------------------------------------------------------------------ C12
def C12(rep):
    rep.rule = ('the published geopotentials equal their standard values; each high-level constructor equals the general constructor applied to its own '
                'geopotential, sidereal time, epoch and unit conversions, as expressions; and it does not reach the other mode')
    I = Interp(program(), natives=natives.find)
    R, S, W, b = Ref(I), Shape(I), I.W, I.b
    for root, want in (('wgs84', ref_sgp4.WGS84), ('wgs72', ref_sgp4.WGS72)):
        v, _ = I.run_root(root)
        gt = S.root_types(root)[1]
        for k, x in want.items():
            n = S.get(v, gt, k)
            rep.check(n.op == 'f' and n.args[0] == x, f'{root}:{k}', f'{root.upper()} {k} is {show(n, 2)}, not {x}', f'{root.upper()} {k}')
    jobs = []
    nargs, nret = S.root_types('new')
    gt, ot = nargs['g'], nargs['orbit']
    for root, g, sid, mode in (('from_elements', ref_sgp4.WGS84, 'sidereal_iau', 'default'), ('from_elements_afspc', ref_sgp4.WGS72, 'sidereal_afspc', 'AFSPC')):
        args, ret = S.root_types(root)
        p = I.sym('elements', args['elements'])
        before = set(I.funcs)
        I.funcs = {}
        r, st = I.run_root(root, args=[p])
        reached = {I.P.insts[i]['path'] for i in I.funcs}
        for i in before:
            I.funcs.setdefault(i, 1)
        el = I.load(st, p)
        f = lambda k: R.x(S.get(el, args['elements'], k))
        rad = R.pi / 180
        gx = {k: R.num(q) for k, q in g.items()}
        nb = ref_sgp4.kozai(R, gx, f('inclination') * rad, f('eccentricity'), f('mean_motion') * (R.pi / 720))
        orbit = S.make(ot, None, inclination=f('inclination') * rad, right_ascension=f('right_ascension') * rad, eccentricity=f('eccentricity'),
                       argument_of_perigee=f('argument_of_perigee') * rad, mean_anomaly=f('mean_anomaly') * rad, mean_motion=nb)
        epoch = day_number(I, R, f('datetime').n) / 365.25
        sidfn = I.fn_value(I.P.roots[sid])
        want, _ = I.run_root('new', args=[S.make(gt, None, **gx), sidfn, epoch.n, f('drag_term').n, orbit])
        cc = S.get(r, ret, '0', 'Ok')
        cw = S.get(want, nret, '0', 'Ok')
        pr = b.AND(S.is_variant(r, 0), S.is_variant(want, 0))
        jobs.append((f'{root}:constants', f'{root}: initialised propagator of the {mode} mode', cc, cw, pr))
        other = [q for q in reached if q.startswith('sgp4::') and ('afspc' in q) != (mode == 'AFSPC') and
                 re.search(r'(julian_years_since_j2000|epoch_to_sidereal_time)', q)]
        rep.check(not other, f'{root}:mode', f'the {mode} constructor reaches the other mode: {", ".join(sorted(other))}', f'{root} reaches only its own epoch and sidereal functions')
    rep.interp(I)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


# ------------------------------------------------------------------ C18
def C18(rep):
    rep.rule = 'no assertion, overflow, index, division, unwrap, expect or panic call is reachable (path condition unsatisfiable) in the high-level calls'
    for feat in (['default'] if rep.tier == 'quick' else list(base.FEATURES)):
        P = program(feat)
        for root in ('default_mode', 'afspc_mode', 'from_elements', 'from_elements_afspc', 'kozai', 'new', 'new_propagate', 'propagate', 'propagate_afspc',
                     'elements_epoch', 'elements_epoch_afspc', 'sidereal_iau', 'sidereal_afspc', 'to_minutes', 'to_datetime', 'initial_state'):
            I = Interp(P, natives=natives.find)
            I.run_root(root)
            rep.interp(I)
            report_panics(rep, I, f' in {root} ({feat})')
    rep.trusted = base.TRUSTED
    rep.assumptions.append('library functions without MIR body (elementary functions, chrono accessors) do not panic')


# ------------------------------------------------------------------ C19, C20
class Twice(Model):
    """Propagation with a given state."""

    def __init__(self):
        super().__init__(root='new_propagate_twice')
        I, S, W, b = self.I, self.S, self.W, self.b
        self.given = I.sym('state', self.args['state'])
        self.stt = S.ftype(self.args['state'], '0', 'Some')
        self.some = S.is_variant(self.given, 1)
        given = S.get(self.given, self.args['state'], '0', 'Some')
        # which field plays which role is read off the initial state
        v, _ = I.run_root('new')
        nret = S.root_types('new')[1]
        sv, _ = I.run_root('initial_state', args=[I.new_ref(S.get(v, nret, '0', 'Ok'))])
        init = S.get(sv, S.root_types('initial_state')[1], '0', 'Some')
        fields = S.variants(self.stt)[0]['fields']
        M = self.M
        roles = {}
        pr = self.conj(M.deep, M.resonant, S.is_variant(v, 0), S.is_variant(sv, 1))
        for role, want in (('t', self.R.num(0)), ('n', self.o['n']), ('lambda', M.xlamo)):
            for i, (nm, ft) in enumerate(fields):
                x = S.proj(init, 0, i, ft)
                if nm not in roles.values() and Comparer(W, I.loops, seeds=(5,)).equal(W.restrict(x, pr), W.restrict(want.n, pr), pr) is None:
                    roles[role] = nm
                    break
        self.roles, self.fields = roles, [n for n, _ in fields]
        self.start = {r: self.R.x(S.get(given, self.stt, nm)) for r, nm in roles.items()}
        self.panic = F
        for p in I.panics:
            self.panic = b.OR(self.panic, p['guard'])

    def unpack(self, r=None):
        S = self.S
        tt = S.ftype(self.ret, '0', 'Ok')
        pair = S.get(self.r, self.ret, '0', 'Ok')
        es = self.P.ty(tt)['es']
        inner, state = S.proj(pair, 0, 0, es[0]), S.proj(pair, 0, 1, es[1])
        pt = S.ftype(es[0], '0', 'Ok')
        return S.is_variant(self.r, 0), inner, S.is_variant(inner, 0), S.get(inner, es[0], '0', 'Ok'), state, pt


def C19(rep):
    rep.rule = 'the disjunction of the path conditions of all reachable panics equals the misuse condition'
    m = Twice()
    I, S, W, b, M = m.I, m.S, m.W, m.b, m.M
    rep.interp(I)
    if not roles_ok(rep, m):
        return
    t, s = m.t, m.start['t']
    some = C(m.R, m.some)
    past = ((s > 0) & (t < s)) | ((s < 0) & (t > s))
    zero = m.R.num(0)
    need = M.deep & M.resonant
    misuse = (~need & some) | (need & ~some) | (need & some & past)
    oko = m.conj(m.o['ecc'] >= 0, m.o['ecc'] < 1)
    jobs = [('misuse:near-earth', 'panic exactly when a near-earth orbit is given a state', W.B(m.panic), W.B(misuse.b), m.conj(oko, ~M.deep)),
            ('misuse:deep-space', 'panic exactly when a non-resonant orbit is given a state', W.B(m.panic), W.B(misuse.b), m.conj(oko, M.deep, ~M.resonant)),
            ('misuse:resonant:none', 'panic when a resonant orbit is given no state', W.B(m.panic), W.B(misuse.b), m.conj(oko, need, ~some)),
            ('misuse:resonant:past', 'panic exactly when the state is past the requested time or on the other side of the epoch', W.B(m.panic), W.B(misuse.b), m.conj(oko, need, some))]
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    for p in I.panics:
        rep.count('panic_sites')
        rep.samples.append(f'{p["own"]} {p["kind"]}')
    rep.trusted = TRUST
    rep.assumptions.append(REAL)


def roles_ok(rep, m):
    ok = set(m.roles) == {'t', 'n', 'lambda'}
    rep.check(ok, 'initial-state', f'the initial resonance state does not hold time 0, the mean motion and the initial mean longitude (fields {m.fields}, recognised {m.roles})',
              'initial resonance state: time 0, mean motion, mean longitude')
    return ok


def C20(rep):
    rep.rule = ('with an arbitrary state of the integration as starting point, prediction and remaining state equal the definition: the state left is the '
                'integration state after whole 720-minute steps (loop compared by initial values, step and exit test), independent of the requested time otherwise')
    m = Twice()
    I, S, W, b, M = m.I, m.S, m.W, m.b, m.M
    if not roles_ok(rep, m):
        return
    rep.check(len(m.fields) == 3, 'state:fields', f'the resonance state has fields besides time, mean motion and mean longitude: {m.fields}', 'resonance state holds three quantities')
    out = m.reference(start=(m.start['t'], m.start['n'], m.start['lambda']))
    d = out['deep']
    oko, inner, oki, pred, state, pt = m.unpack()
    pos, vel = S.get(pred, pt, 'position'), S.get(pred, pt, 'velocity')
    code = W.mk('agg', None, pos, vel)
    ref = W.mk('agg', None, vec(W, d['r']), vec(W, d['v']))
    left = S.get(state, m.args['state'], '0', 'Some')
    lv = dict(zip(('t', 'n', 'lambda'), M.state))
    sc = W.mk('agg', None, *[S.get(left, m.stt, m.roles[r]) for r in ('t', 'n', 'lambda')])
    sr = W.mk('agg', None, *[lv[r].n for r in ('t', 'n', 'lambda')])
    t, s = m.t, m.start['t']
    fwd, bwd = (t > 0) & (s >= 0) & (t >= s), ~(t > 0) & ~(s > 0) & (t <= s)
    jobs = []
    nop = b.NOT(m.panic)
    for a, x in (('24-hour', M.day1), ('12-hour', M.half)):
        for dn, y in (('forward', fwd), ('backward', bwd)):
            pr = m.conj(M.deep, x, y, oko, nop, m.some)
            jobs.append((f'state:{a}:{dn}', f'state left by a call, {a} resonant, {dn}', sc, sr, pr))
            for e, z in (('', ~d['lyddane']), (' low inclination', d['lyddane'])):
                jobs.append((f'prediction:{a}:{dn}{e}', f'prediction from a reused state, {a} resonant, {dn}{e}', code, ref, m.conj(pr, oki, m.refok(d), z)))
    rep.interp(I)
    compare_many(rep, W, I.loops, jobs, seeds_of(rep))
    rep.trusted = TRUST
    rep.assumptions.append(REAL)
    rep.assumptions.append('one integration step of the definition depends on the state and the direction only, so two calls that both stop before t have passed through the same states')


TECH = 'static analysis: gated value numbering of the MIR of all reachable functions and random-interpretation equality with a reference definition'
CHECKS = {'C08': (C08, TECH), 'C09': (C09, TECH), 'C10': (C10, TECH), 'C11': (C11, TECH), 'C12': (C12, TECH), 'C16': (C16, TECH), 'C17': (C17, TECH),
          'C18': (C18, 'static analysis: reachability of panic sites by value numbering with path conditions and integer ranges over the MIR'),
          'C19': (C19, TECH), 'C20': (C20, TECH), 'C13': (C13, TECH), 'C14': (C14, TECH), 'C15': (C15, TECH)}
