"""Element-set text checks: what the parser computes from the bytes of the lines, against the format definition."""
from bdd import T, F
from interp import Interp, State, show
from dsl import Shape
from same import Same
import natives
import ref_tle
from checks import base
from checks.numeric import program, report_panics, pmap

TRUST = base.TRUSTED + [
    'engine/ref_tle.py: transcription of the two-line element set format (columns, number syntax, checksum, dates)',
    'engine/natives.py: exact acceptance conditions of the standard integer, f64 and UTF-8 parsers over symbolic bytes',
]
NUMBERS = 'the value of an accepted number is the standard library\'s parse of its bytes (uninterpreted), the same function on both sides'
CHRONO = 'chrono constructors are uninterpreted functions of their arguments'


class Parsed:
    """The parse of two symbolic lines by the compiled code, and the format definition on the same bytes."""

    def __init__(self, feature='default', rep=None):
        self.I = I = Interp(program(feature), natives=natives.find)
        self.S, self.W, self.b = S, W, b = Shape(I), I.W, I.b
        self.args, self.ret = S.root_types('tle')
        self.r, self.st = I.run_root('tle')
        self.name = 'name' in self.args
        self.et, self.xt = S.ftype(self.ret, '0', 'Ok'), S.ftype(self.ret, '0', 'Err')
        self.has = [f for f, _ in S.variants(self.et)[0]['fields']]
        self.R = R = ref_tle.Tle(I, I.sym('line1', self.args['line1']), I.sym('line2', self.args['line2']), 'international_designator' in self.has)
        self.M = M = Same(I)
        M.reference(R.ok)
        M.reference_value(*R.fields.values())
        okc = S.is_variant(self.r, 0)
        # the code's acceptance, its opaque tests expressed through those of the definition
        self.ok = b.AND(M.canon(okc, okc), M.plain(okc))
        self.raw_ok = okc
        self.el = S.get(self.r, self.ret, '0', 'Ok')
        self.err = S.get(self.r, self.ret, '0', 'Err')
        if rep is not None:
            rep.interp(I)
            rep.count('input_bits', len([a for a in W.atoms if a.op == 'bit']))


def sets(rep):
    return ['default', 'libm'] if rep.tier == 'quick' else list(base.FEATURES)


def each(rep, fn, feats=None):
    """fn(report, feature) for every feature set of the tier, in parallel processes; obligations are gathered."""
    feats = feats or sets(rep)
    base.dumps(feats)

    def one(f):
        r = base.Report(rep.prop, rep.tier)
        fn(r, f)
        return r.__dict__
    for f, d in zip(feats, pmap(one, feats, 2 if rep.tier == 'quick' else 3)):
        rep.obligations += d['obligations']
        rep.failed += [(k, f'[{f}] {m}') for k, m in d['failed'] if (k not in [x for x, _ in rep.failed])]
        rep.samples += [f'[{f}] {s}' for s in d['samples']][:12 if f == feats[0] else 3]
        rep.analysed |= d['analysed']
        for k, v in d['counts'].items():
            rep.count(k, v)


# ------------------------------------------------------------------ C01
def C01(rep):
    rep.rule = 'for every accepted pair of lines, each field of the result is the value of its column range by the format definition (as an expression over the input bytes)'
    each(rep, c01)
    rep.trusted = TRUST
    rep.assumptions += [NUMBERS, CHRONO]


def where(m, d):
    c, a, r = d
    return f'{show(a, 4)[:220]} instead of {show(r, 4)[:220]}, e.g. for {m.M.witness(c, 3)}'


def c01(rep, feature):
    m = Parsed(feature, rep)
    S, W, b, M, R = m.S, m.W, m.b, m.M, m.R
    ok = M.plain(m.ok)
    rep.check(ok != F, 'accepts-nothing', 'no pair of lines is accepted')
    want = dict(R.fields)
    for f, v in want.items():
        d = M.diff(S.get(m.el, m.et, f), v, ok)
        rep.check(d is None, f'field:{f}', '' if d is None else f'Elements::{f} is {where(m, d)}', f'{f} equals the value in its columns')
    ct = S.ftype(m.et, 'classification')
    cv = S.get(m.el, m.et, 'classification')
    for n, c in R.classes.items():
        x = b.AND(ok, b.NOT(b.ite(S.is_variant(cv, S.vindex(ct, n)), c, b.NOT(c))))
        rep.check(x == F, f'field:classification:{n}', f'classification {n} is reported for the wrong letter, e.g. {M.witness(x, 2)}', f'classification {n} exactly for its letter')
    if 'object_name' in m.has:
        d = M.diff(S.get(m.el, m.et, 'object_name'), m.I.sym('name', m.args['name']), ok)
        rep.check(d is None, 'field:object_name', '' if d is None else f'object_name is {where(m, d)}', 'object_name is the name given')
    if 'international_designator' in m.has:
        v = S.get(m.el, m.et, 'international_designator')
        text = W.mk('text', W.mk('disp', R.launch), '-', W.mk('disp', R.piece))
        M.reference_value(text)
        d = M.diff(v, W.ite(R.blank, W.mk('agg', 0), W.mk('agg', 1, text)), ok)
        rep.check(d is None, 'field:international_designator', '' if d is None else f'international_designator is {where(m, d)}',
                  'designator absent when blank, else year, dash and trimmed piece')
    known = set(want) | {'classification', 'object_name', 'international_designator'}
    rep.check(set(m.has) <= known and set(want) <= set(m.has), 'fields', f'fields of the element set: {sorted(set(m.has) ^ known)} not covered', 'every field of the element set compared')


# ------------------------------------------------------------------ C02
def C02(rep):
    rep.rule = 'the condition on the input bytes under which the parser accepts equals the conjunction of the format\'s conditions (equality of decision diagrams)'
    each(rep, c02)
    rep.trusted = TRUST
    rep.assumptions += [NUMBERS, CHRONO]


def c02(rep, feature):
    m = Parsed(feature, rep)
    b, M, R = m.b, m.M, m.R
    rep.count('format_conditions', len(R.checks))
    for kinds, line, cols, fail in R.checks:
        x = b.AND(m.ok, fail)
        c = '/'.join(f'{a}..{z if isinstance(z, int) else "length"}' for a, z in sorted(cols, key=str))
        k = '|'.join(sorted(kinds))
        rep.check(x == F, f'accepts:{k}:{line}:{c}', f'a pair of lines failing {k} in columns {c} of line {line or "both"} is accepted, e.g. {M.witness(x, 3)}', f'{k} line {line or "both"} {c}: failing input refused')
    x = b.AND(R.ok, b.NOT(m.ok))
    rep.check(x == F, 'refuses-well-formed', '' if x == F else refused(m, x), 'every pair meeting the conditions accepted')


def refused(m, x):
    """Which errors well-formed input runs into."""
    out = []
    for (kind, line, a, z), c in errors(m):
        y = m.b.AND(m.M.canon(c, c), x)
        if y != F:
            out.append(f'{kind} line {line} columns {a}..{z} e.g. {m.M.witness(y, 3)}')
    return 'well-formed lines are refused with ' + '; '.join(out[:3])


def errors(m):
    """[((kind, line name, start, end), condition)] of every error the parser returns."""
    S, W, b = m.S, m.W, m.b
    vs = {f: (S.get(m.err, m.xt, f), S.ftype(m.xt, f)) for f in ('what', 'line', 'start', 'end')}
    name = lambda f, n: S.variants(vs[f][1])[n.args[0] or 0]['name'] if n.op == 'agg' else show(n, 3)
    out = {}
    for c1, k in W.leaves(vs['what'][0], b.NOT(m.raw_ok)):
        for c2, l in W.leaves(vs['line'][0], c1):
            for c3, s in W.int_cases(vs['start'][0], c2) or W.leaves(vs['start'][0], c2):
                for c4, e in W.int_cases(vs['end'][0], c3) or W.leaves(vs['end'][0], c3):
                    key = (name('what', k), name('line', l), s, e)
                    out[key] = b.OR(out.get(key, F), c4)
    return sorted(out.items(), key=lambda p: str([show(x, 3) if not isinstance(x, str) else x for x in p[0]]))


# ------------------------------------------------------------------ C03
LINES = {1: 'Line1', 2: 'Line2', 0: 'Both'}


def C03(rep):
    rep.rule = 'for every error (kind, line, columns) the parser can return, the condition under which it is returned implies that the check of that kind on those columns fails'
    each(rep, c03)
    rep.trusted = TRUST
    rep.assumptions += [NUMBERS, CHRONO, 'which of several failed checks is reported is left open']


def c03(rep, feature):
    m = Parsed(feature, rep)
    W, b, M, R = m.W, m.b, m.M, m.R
    es = errors(m)
    rep.count('error_forms', len(es))
    rep.check(len(es) > 10, 'errors', f'only {len(es)} distinct errors found')
    for (kind, line, s, e), c in es:
        sv, ev = show(s, 3), show(e, 3)
        key = f'{kind}:{line}:{sv}..{ev if e.op == "i" else "length"}'
        hit = None
        for kinds, l, cols, fail in R.checks:
            if kind in kinds and LINES[l] == line:
                for a, z in cols:
                    if M.same(s, W.I(a), c) and M.same(e, z if not isinstance(z, int) else W.I(z), c):
                        hit = fail
        if hit is None:
            rep.fail(f'error:{key}', f'the parser returns {kind} for {line} columns {sv}..{ev}, but no check of that kind reads exactly those columns; e.g. {M.witness(c, 3)}')
            continue
        x = b.AND(c, b.NOT(hit))
        if x != F:
            x = b.AND(M.canon(x, x), b.NOT(hit))
        rep.check(x == F, f'error:{key}', f'{kind} for {line} columns {sv}..{ev} is returned where that check passes, e.g. {M.witness(x, 3)}', f'{kind} {line} {sv}..{ev} only where that check fails')


# ------------------------------------------------------------------ C04
def C04(rep):
    rep.rule = 'no assertion, overflow, index, division, unwrap, expect or panic call is reachable (path condition unsatisfiable) while parsing'
    each(rep, c04)
    rep.trusted = base.TRUSTED
    rep.assumptions += ['library functions without MIR body (chrono constructors, number parsers, allocation) do not panic', 'list parsers: texts of up to 7 (quick) or 15 (thorough) unconstrained lines']


def c04(rep, feature):
    I = Interp(program(feature), natives=natives.find)
    I.run_root('tle')
    rep.interp(I)
    report_panics(rep, I, ' in Elements::from_tle')
    rep.count('assertions_discharged', I.stats['asserts'])
    for root in GROUPS:
        if root not in I.P.roots:
            continue
        # the group parser is covered above; here the code around it
        for count in range(8 if rep.tier == 'quick' else 16):
            J, _, _ = texts(feature, root, count)
            rep.interp(J)
            report_panics(rep, J, f' in {root} of {count} lines')
            rep.count('assertions_discharged', J.stats['asserts'])


# ------------------------------------------------------------------ C05
GROUPS = {'two_les': 2, 'three_les': 3}


def group_parsers(P):
    """Functions of the crate taking two byte slices (and at most a name) and returning one element set or an error."""
    out = {}
    for v in P.insts:
        body = v.get('body')
        if not body or v.get('crate') != 'sgp4' or not P.ty(body['locals'][0]).get('s', '').startswith('std::result::Result<sgp4::Elements, '):
            continue
        args = [P.ty(body['locals'][i + 1]).get('s') for i in range(body['argc'])]
        if args.count('&[u8]') == 2 and len(args) <= 3:
            out.setdefault(len(args), []).append(v['path'])
    return out[min(out)] if out else []


def lister(feature, count, good=False):
    """The list parser on a text of `count` unconstrained lines, the parser of one group left uninterpreted
    (good: taken to succeed)."""
    P = program(feature)

    def group(I, st, inst, args, at, dty, loc):
        r = I.external(st, inst, args, at, dty, loc)
        return I.W.mk('agg', 0, Shape(I).get(r, dty, '0', 'Ok')) if good else r
    I = Interp(P, natives=natives.find, intercept={p: group for p in group_parsers(P)})
    I.text_lines = count
    I.MAX_UNROLL = 20000
    return I


def texts(feature, root, count, good=False):
    I = lister(feature, count, good)
    r, st = I.run_root(root)
    return I, r, st


def C05(rep):
    rep.rule = 'for every number of lines up to the bound, with unconstrained lines, the list parser returns the parses of the successive groups in order, or the error of the first group that fails'
    each(rep, c05, with_alloc(rep))
    rep.trusted = base.TRUSTED
    rep.assumptions += ['str::lines divides the text into its lines (standard library)', 'number of lines 0 to 15 (quick) or 30 (thorough); 600 or 1500, and just above every integer constant up to 10000 in the functions, with groups that parse']


def with_alloc(rep):
    return ['default', 'libm-alloc'] if rep.tier == 'quick' else [f for f in base.FEATURES if f != 'libm']


def constants(I, skip):
    """Integer constants in the bodies of the crate's functions that were analysed."""
    out, st = set(), [I.P.insts[k]['body'] for k in I.funcs if I.P.insts[k].get('crate') == 'sgp4' and I.P.insts[k]['path'] not in skip]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if isinstance(x.get('i'), (int, str)) and str(x['i']).isdigit():
                out.add(int(x['i']))
            st += x.values()
        elif isinstance(x, list):
            st += x
    return out


def c05(rep, feature):
    top = 15 if rep.tier == 'quick' else 30
    more = 600 if rep.tier == 'quick' else 1500
    for root, size in GROUPS.items():
        rep.check(bool(group_parsers(program(feature))), 'no-group-parser', 'no function parsing one group of lines found')
        counts = list(range(top + 1)) + [more]
        for count in counts:
            I, r, st = texts(feature, root, count, count > top)
            S, W, b, M = Shape(I), I.W, I.b, Same(I)
            args, ret = S.root_types(root)
            targs, _ = S.root_types('tle')
            text = I.content(st, I.sym(list(args)[0], list(args.values())[0]))
            lines = [natives.text_line(I, text, i) for i in range(count)]
            parsed = []
            for g in range(count // size):
                ls = lines[g * size:(g + 1) * size]
                name = W.mk('agg', 0) if size == 2 else W.mk('agg', 1, W.mk('text', W.mk('disp', I.content(st, ls[0]))))
                parsed.append(I.run_root('tle', [name] + ls[-2:])[0])
            want = W.mk('agg', 0, W.mk('vec', *[S.get(p, S.root_types('tle')[1], '0', 'Ok') for p in parsed]))
            for p in reversed(parsed):
                want = W.ite(S.is_variant(p, 0), want, W.mk('agg', 1, S.get(p, S.root_types('tle')[1], '0', 'Err')))
            M.reference_value(want)
            d = M.diff(r, want, T)
            rep.check(d is None, f'{root}:{count}', '' if d is None else f'{root} of {count} lines returns {show(d[1], 5)[:300]} instead of {show(d[2], 5)[:300]}', f'{root}: {count} lines give {count // size} groups in order')
            if d is not None:
                break
            if count == top:
                # a limit written as a constant shows just above it
                counts += sorted({k + size + 1 for k in constants(I, group_parsers(I.P)) if top < k <= 10000} - {more})
            rep.interp(I)
            rep.count('groups_compared', len(parsed))


TECH = 'static analysis: gated value numbering of the MIR with exact decision diagrams over the input bytes, compared with the format definition'
CHECKS = {'C05': (C05, 'static analysis: value numbering of the list parsers over unconstrained lines, compared with the grouping definition'), 'C01': (C01, TECH), 'C02': (C02, TECH), 'C03': (C03, TECH),
          'C04': (C04, 'static analysis: reachability of panic sites by value numbering with exact path conditions over the input bytes')}
