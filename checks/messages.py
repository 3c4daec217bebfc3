"""Texts of the errors, as written by the Display implementations for every error value."""
import re
from bdd import T, F
from interp import Interp, show
from checks import base
from checks.numeric import program, report_panics
import natives

TECH = 'static analysis: value numbering of MIR with an exact model of the formatting machinery'

# words that the text must contain («x» stands for the quantity x) and must not contain, per kind
WHAT = {
    'BadChecksum': (['checksum'], []), 'BadLength': (['length'], []), 'BadFirstCharacter': (['first char'], []),
    'ExpectedFloat': (['float'], ['assumed', 'integer']), 'ExpectedFloatWithAssumedDecimalPoint': (['assumed'], ['more than', 'too long', 'exceed']),
    'ExpectedInteger': (['integer'], ['float']), 'ExpectedSpace': (['space'], []), 'ExpectedString': (['string'], []),
    'FloatWithAssumedDecimalPointTooLong': (['assumed', 'more than|too long|exceed'], []), 'NoradIdMismatch': (['norad'], []),
    'UnknownClassification': (['classification'], []), 'FromYoOptFailed': (['year|day'], ['seconds', 'midnight']),
    'FromNumSecondsFromMidnightFailed': (['seconds|midnight|time'], ['year']),
}
# a word of one kind must not appear in the text of another kind
OWN_WORDS = ['checksum', 'length', 'first char', 'integer', 'non-space', 'string field', 'norad', 'classification', 'year', 'midnight']
LINE = {'Line1': (['line 1'], ['line 2', 'mismatch']), 'Line2': (['line 2'], ['line 1', 'mismatch']), 'Both': (['lines|both'], ['line 1', 'line 2'])}
ECC = r'eccentricity[^«]*«eccentricity»'
MINUTES = r'«t»[^«]*minutes'
KINDS = {
    'show_tle_error': None,
    'show_error': {'OutOfRangeEccentricity': ([ECC, MINUTES, 'before|without|prior'], ['after adding', 'perturbed', 'semi-latus']),
                   'OutOfRangePerturbedEccentricity': ([ECC, MINUTES, 'after adding|perturbed|with third|including'], ['before', 'without', 'semi-latus']),
                   'NegativeSemiLatusRectum': (['semi-latus rectum', 'negative', MINUTES], ['eccentricity'])},
    'show_kozai_error': {'NegativeKozaiMeanMotion': (['kozai', 'mean motion', 'negative'], ['brouwer']), 'NegativeBrouwerMeanMotion': (['brouwer', 'mean motion', 'negative'], ['kozai'])},
    'show_eccentricity_error': {'OutOfRangeEpochEccentricity': ([r'eccentricity[^«]*«0»'], ['kozai', 'brouwer'])},
    'show_elements_error': {'KozaiElementsError.NegativeKozaiMeanMotion': (['kozai', 'mean motion', 'negative'], ['brouwer', 'eccentricity']),
                            'KozaiElementsError.NegativeBrouwerMeanMotion': (['brouwer', 'mean motion', 'negative'], ['kozai', 'eccentricity']),
                            'OutOfRangeEpochEccentricity': ([r'eccentricity[^«]*«0»'], ['kozai', 'brouwer'])},
    'show_to_minutes_error': {'DatetimeToMinutesSinceEpochError': (['overflow', r'«to»[^«]*-[^«]*«from»|«from»[^«]*\bto\b[^«]*«to»|from[^«]*«from»[^«]*to[^«]*«to»'], [])},
    'show_to_datetime_error': {'MinutesToNanoseconds': (['overflow', '«0»'], []), 'Add': (['overflow', r'«datetime»[^«]*(\+|and|plus)[^«]*«duration»|«duration»[^«]*to[^«]*«datetime»'], [])},
}


def kinds(I, v, t, name=''):
    """[(condition, label, [(field, value)])]: the values of an error type by variant."""
    d = I.tk(t)
    if d['k'] != 'adt' or not d.get('path', '').startswith('sgp4::') or not d.get('variants'):
        return [(T, [], [(name, v)])]
    out = []
    for c, a in I.W.leaves(v):
        if a.op != 'agg':
            return [(T, [], [(name, v)])]           # a type of another crate
        var = d['variants'][a.args[0] or 0]
        acc = [(c, [var['name']], [])]
        for i, ((fn, ft), x) in enumerate(zip(var['fields'], a.args[1:])):
            nxt = []
            for c1, l1, q1 in acc:
                for c2, l2, q2 in kinds(I, x, ft, fn):
                    cc = I.b.AND(c1, c2)
                    if cc != F:
                        nxt.append((cc, l1 + l2, q1 + q2))
            acc = nxt
        out += acc
    return out


def pieces(I, v, start, g):
    """Pieces written to the formatter where g holds, or None when its state is something else."""
    v = I.W.restrict(v, g)
    if v is start:
        return []
    if v.op != 'out':
        return None
    r = pieces(I, v.args[0], start, g)
    return None if r is None else r + [y for x in v.args[1:] for y in flat(x)]


def flat(x):
    if isinstance(x, str):
        return [x]
    if x.op == 'lit':
        return [x.args[0]]
    if x.op == 'text':
        return [y for p in x.args for y in flat(p)]
    if x.op == 'disp' and x.args[0].op in ('lit', 'text'):
        return flat(x.args[0])
    return [x]


def texts(feature, root):
    """[(label, text with «field» for the quantities, problems)] of all values of the error type, and the panics."""
    I = Interp(program(feature), natives=natives.find)
    body = I.P.insts[I.P.roots[root]]['body']
    et = I.tk(body['locals'][1])['e']
    r, st = I.run_root(root)
    W, b = I.W, I.b
    (ecell, e), = [(c, v) for c, v in I.opaque_cells.items() if c[0] == 'op' and c[1].op == 'sym' and c[1].args[0] == 'e']
    fcell = [c for c in I.opaque_cells if c[0] == 'op' and c[1].op == 'sym' and c[1].args[0] == 'f'][0]
    start, out = I.opaque_cells[fcell], I.cell(st, fcell)
    res = []
    for cond, label, qs in kinds(I, e, et):
        g = b.AND(cond, st.pc)
        # writing succeeds
        for v in b.support(W_conditions(W, b, out, g)):
            if W.atoms[v].op == 'fmterr':
                g = b.AND(g, b.NOT(b.atom(v)))
        o = W.restrict(out, g)
        ps = pieces(I, o, start, g)
        bad = []
        if ps is None:
            res.append((label, '', [f'the text of {".".join(label)} depends on more than the kind: {show(o, 4)[:200]}'], qs))
            continue
        text = ''
        for p in ps:
            if not isinstance(p, str) and p.op.startswith('disp'):
                p = W.mk(p.op, W.restrict(p.args[0], g))
            for p in flat(p):
                if isinstance(p, str):
                    text += p
                    continue
                hit = [n for n, q in qs if p.args[0] is I.content(st, q) or p.args[0] is q]
                if hit and p.op == 'disp':
                    text += f'«{hit[0]}»'
                else:
                    text += '«?»'
                    bad.append(f'writes {show(p, 4)[:120]}, which is not a quantity of the error' if not hit else f'writes {hit[0]} with the format {p.op[5:]}')
        res.append((label, text, bad, qs))
    return I, res


def W_conditions(W, b, n, g):
    """Conjunction of the conditions in a conditional value (for their support)."""
    seen, st, r, acc = set(), [n], T, set()
    while st:
        x = st.pop()
        if id(x) in seen or not hasattr(x, 'op'):
            continue
        seen.add(id(x))
        if x.op == 'ite':
            acc |= set(b.support(x.args[0]))
            st += [x.args[1], x.args[2]]
        elif x.op == 'out':
            st.append(x.args[0])
    for v in acc:
        r = b.AND(r, b.atom(v))
    return r


def judge(text, must, mustnot):
    t = text.lower()
    lost = [m for m in must if not re.search(m.lower(), t)]
    extra = [m for m in mustnot if re.search(m.lower(), re.sub(r'«[^»]*»', '', t))]
    return lost, extra


def C27(rep):
    rep.rule = ('for every variant of every error type, the pieces written by Display are collected (literals and the values shown); each carried quantity is shown unchanged, next to the words that '
                'say what it is; the text has the words of its own kind and none of another kind; no two kinds have the same text; no panic')
    assert judge('The eccentricity («t»)', [ECC], []) == ([ECC], [])
    for feature in (['default', 'libm'] if rep.tier == 'quick' else list(base.FEATURES)):
        for root, table in KINDS.items():
            I, res = texts(feature, root)
            report_panics(rep, I, f' [{feature}] {root}')
            rep.analysed |= {I.P.insts[k]['path'] for k in I.funcs if I.P.insts[k]['crate'] == 'sgp4'}
            rep.count('error_kinds', len(res))
            seen = {}
            for label, text, bad, qs in res:
                name = '.'.join(label)
                where = f'[{feature}] {root[5:]} {name}'
                for m in bad:
                    rep.fail(f'{root}:{name}:value', f'{where}: {m}; text: {text}')
                for q, _ in qs:
                    rep.check(f'«{q}»' in text, f'{root}:{name}:{q}', f'{where}: the text does not show {q}: {text}', f'{where}: shows {q}')
                if table is None:
                    _, what, line = label
                    if what not in WHAT or line not in LINE:
                        rep.fail(f'{root}:{name}', f'{where}: unknown kind of error')
                        continue
                    own = WHAT[what]
                    others = [w for w in OWN_WORDS if not any(re.search(x.lower(), w) for x in own[0])]
                    lost, extra = judge(text, own[0] + LINE[line][0] + ['«start».*«end»'], own[1])
                    # the words of the line are looked for outside the description of the kind
                    rest = text[text.lower().find(' tle lines') + 10:] if what == 'NoradIdMismatch' and ' tle lines' in text.lower() else text
                    lost2, extra2 = judge(rest, [], LINE[line][1] if not (what == 'NoradIdMismatch') else [x for x in LINE[line][1] if x != 'mismatch'])
                    extra += extra2 + judge(text, [], others)[1]
                else:
                    key = [k for k in table if k == name or name.endswith('.' + k) or name.startswith(k + '.')]
                    if not key:
                        rep.fail(f'{root}:{name}', f'{where}: unknown kind of error')
                        continue
                    lost, extra = judge(text, *table[key[0]])
                rep.check(not lost and not extra, f'{root}:{name}:words', f'{where}: the text {text!r} ' + '; '.join(([f'lacks {lost}'] if lost else []) + ([f'has {extra}'] if extra else [])), f'{where}: {text}')
                rep.check(text not in seen, f'{root}:{name}:same', f'{where}: same text as {seen.get(text)}')
                seen[text] = name
            if len(res) < (2 if root in ('show_kozai_error',) else 1) or (table is None and len(res) < 39):
                raise base.BuildError(f'{root}: only {len(res)} kinds found')
    rep.trusted = base.TRUSTED
    rep.assumptions.append('numbers and dates are shown by the Display implementations of the standard library and chrono')


CHECKS = {'C27': (C27, TECH)}
