"""Checks across feature sets: the same computation in every one of them."""
from types import SimpleNamespace
from bdd import T, F
from interp import Interp, State, show
from dsl import Shape
from same import Same
from fp import Comparer
import natives
from checks import base
from checks.numeric import program, pmap, compare_many, seeds_of, describe
from checks import text

NUMERIC = ('epoch_of', 'epoch_of_afspc', 'elements_epoch', 'elements_epoch_afspc', 'sidereal_iau', 'sidereal_afspc', 'to_minutes', 'to_datetime',
           'wgs84', 'wgs72', 'kozai', 'new', 'from_elements', 'from_elements_afspc', 'initial_state', 'state_time', 'new_propagate', 'default_mode',
           'afspc_mode', 'new_propagate_twice')


def elements(I, S, t):
    """An unconstrained element set, its fields named so that the same symbols arise in every feature set."""
    vs = S.variants(t)[0]['fields']
    return I.W.mk('agg', None, *[I.sym('elements.' + n, ft) for n, ft in vs])


def run(I, root):
    S = Shape(I)
    body = I.P.insts[I.P.roots[root]]['body']
    args = []
    for i in range(body['argc']):
        nm = body['names'].get(str(i + 1), f'a{i + 1}')
        t = body['locals'][i + 1]
        d = I.P.ty(t)
        if d['k'] == 'ref' and I.P.ty(d['e']).get('path') == 'sgp4::Elements':
            args.append(I.new_ref(elements(I, S, d['e'])))
        else:
            args.append(I.sym(nm, t))
    n = len(I.panics)
    r, _ = I.run_root(root, args)
    ps = {}
    for p in I.panics[n:]:
        ps[p['kind']] = I.b.OR(ps.get(p['kind'], F), p['guard'])
    return r, body['locals'][0], ps


def parts(S, v, t, path='', pr=T, skip=()):
    """[(path, value, condition)] of a value, structure followed by the names of its fields and variants."""
    W, b = S.W, S.I.b
    d = S.P.ty(t)
    if d['k'] == 'tuple':
        return [x for i, e in enumerate(d['es']) for x in parts(S, S.proj(v, 0, i, e), e, f'{path}.{i}', pr, skip)]
    if d['k'] == 'adt' and d.get('crate') in ('sgp4', 'core') and d.get('variants') and (d['crate'] == 'sgp4' or d['path'].endswith(('Result', 'Option'))):
        out = []
        for vi, vr in enumerate(d['variants']):
            c = pr
            p = path
            if d['adt'] == 'enum':
                iv = S.is_variant(v, vi)
                p = f'{path}/{vr["name"]}'
                out.append((p, W.B(b.AND(pr, iv)), T))
                c = b.AND(pr, iv)
            if c == F:
                continue
            for fi, (n, ft) in enumerate(vr['fields']):
                if n not in skip:
                    out += parts(S, S.proj(v, vi, fi, ft), ft, f'{p}.{n}', c, skip)
        return out
    return [(path, v, pr)]


ONLY_ALLOC = ('object_name', 'international_designator')


def C24(rep):
    rep.rule = 'for every entry point, the value numbered result in each feature set is the same expression of the arguments as in the default feature set (fields matched by name)'
    names = list(base.FEATURES)
    base.dumps(names)
    seeds = seeds_of(rep)

    def one(job):
        feature, roots = job
        r = base.Report(rep.prop, rep.tier)
        if roots == ('tle',):
            lines(r, feature)
        else:
            for root in roots:
                numbers(r, feature, root, seeds)
        return r.__dict__
    groups = [('tle',), NUMERIC[:12], NUMERIC[12:16], NUMERIC[16:19], NUMERIC[19:]]
    jobs = [(f, g) for g in groups for f in names if f != 'default']
    for (f, g), d in zip(jobs, pmap(one, jobs, 6)):
        rep.obligations += d['obligations']
        rep.failed += [(k, f'[{f}] {m}') for k, m in d['failed'] if (k not in [x for x, _ in rep.failed])]
        rep.samples += [f'[{f}] {s}' for s in d['samples']][:2]
        rep.analysed |= d['analysed']
        for k, v in d['counts'].items():
            rep.count(k, v)
    rep.trusted = base.TRUSTED + ['engine/natives.py: f64 methods of std, num_traits and libm of the same name denote the same real function']
    rep.assumptions += ['rounding of elementary functions left out (real arithmetic)', 'type layouts and field names as compiled per feature set']


def pair(feature):
    A = Interp(program('default'), natives=natives.find)
    B = Interp(program(feature), world=A.W, natives=natives.find)
    return A, B


def lines(rep, feature):
    A, B = pair(feature)
    va, ta, pa = run(A, 'tle')
    vb, tb, pb = run(B, 'tle')
    rep.interp(A)
    rep.interp(B)
    M = Same(A)
    pr = T
    sa, sb = Shape(A), Shape(B)
    if not any(n == 'international_designator' for n, _ in sb.variants(sb.ftype(tb, '0', 'Ok'))[0]['fields']):
        # without that field its columns are not read: input refused for them is left out
        xt = sa.ftype(ta, '0', 'Err')
        m = SimpleNamespace(S=sa, W=A.W, b=A.b, err=sa.get(va, ta, '0', 'Err'), xt=xt, raw_ok=sa.is_variant(va, 0))
        for (kind, line, s, e), c in text.errors(m):
            if line == 'Line1' and s.op == 'i' and e.op == 'i' and s.args[0] >= 9 and e.args[0] <= 17:
                pr = A.b.AND(pr, A.b.NOT(c))
                rep.count('designator_errors_left_out')
    xs = parts(Shape(A), va, ta, skip=ONLY_ALLOC)
    ys = dict((p, (v, c)) for p, v, c in parts(Shape(B), vb, tb, skip=ONLY_ALLOC))
    M.reference(*[v.args[0] for p, v, c in xs if v.op == 'B'])
    M.reference_value(*[v for p, v, c in xs if v.op != 'B'])
    rep.check(set(p for p, _, _ in xs) == set(ys), 'tle:shape', f'results differ in shape: {sorted(set(p for p, _, _ in xs) ^ set(ys))[:6]}', 'same result type')
    for p, v, c in xs:
        if p not in ys:
            continue
        w, c2 = ys[p]
        d = None if v is w else M.diff(w, v, A.b.AND(c2, pr))
        rep.check(d is None, f'tle:{p}', '' if d is None else f'Elements::from_tle{p} is {show(d[1], 4)[:200]} instead of {show(d[2], 4)[:200]} in the default feature set, e.g. for {M.witness(d[0], 3)}', f'from_tle{p} the same')
    same_panics(rep, 'tle', A, pa, pb)


def same_panics(rep, root, A, pa, pb):
    a = b = F
    for x in pa.values():
        a = A.b.OR(a, x)
    for x in pb.values():
        b = A.b.OR(b, x)
    if a != b:
        res = Comparer(A.W, A.loops, seeds=(5, 6)).equal(A.W.B(b), A.W.B(a), T)
        rep.check(res is None, f'{root}:panics', '' if res is None else f'{root} panics under other conditions: {describe(res)}', f'{root}: same panics')
    else:
        rep.ok(f'{root}: same panics')


def numbers(rep, feature, root, seeds):
    A, B = pair(feature)
    if root not in A.P.roots or root not in B.P.roots:
        rep.fail(f'{root}:missing', f'{root} does not exist in this feature set')
        return
    va, ta, pa = run(A, root)
    vb, tb, pb = run(B, root)
    rep.interp(A)
    rep.interp(B)
    xs = parts(Shape(A), va, ta)
    ys = dict((p, (v, c)) for p, v, c in parts(Shape(B), vb, tb))
    rep.check(set(p for p, _, _ in xs) == set(ys), f'{root}:shape', f'results differ in shape: {sorted(set(p for p, _, _ in xs) ^ set(ys))[:6]}')
    loops = dict(A.loops)
    loops.update(B.loops)
    for p, v, c in xs:
        if p not in ys:
            continue
        w, c2 = ys[p]
        if v is w and c == c2:
            rep.ok(f'{root}{p} the same')
            continue
        cmp = Comparer(A.W, loops, seeds=seeds)
        pr = A.b.AND(c, c2)
        res = cmp.equal(A.W.restrict(w, pr), A.W.restrict(v, pr), pr)
        rep.check(res is None, f'{root}:{p}', '' if res is None else f'{root}{p} is computed differently from the default feature set; {describe(res)}', f'{root}{p} the same')
        rep.count('compared_by_random_interpretation')
        for n, x in cmp.stats.items():
            rep.count('comparison_' + n, x)
        if res is not None:
            return
    same_panics(rep, root, A, pa, pb)


CHECKS = {'C24': (C24, 'static analysis: value numbering of the MIR of every feature set in one term space and comparison of the results')}
