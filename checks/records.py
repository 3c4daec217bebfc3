"""C06, C07 and C26: the serialised forms.

The code that reads and writes records (derived or written by hand) is value-numbered against an abstract data format
(harness/src/format.rs): a document is a term of named members whose values are unknown, so one evaluation covers all records with
these members. Reading must give each field from the member of its standard name; writing and reading again must give the value
that was written, expression for expression.
"""
from bdd import T, F
from interp import Interp, Unsupported, show
import natives
import serial
from checks import base
from checks.numeric import pmap, program

TECH = 'static analysis: value numbering of MIR against an abstract data format'

SETS = ('default', 'libm-alloc-serde')
# standard OMM names of the members (CCSDS 502.0-B) and the fields of the record
KEYS = {
    'OBJECT_NAME': 'object_name', 'OBJECT_ID': 'international_designator', 'NORAD_CAT_ID': 'norad_id', 'CLASSIFICATION_TYPE': 'classification',
    'EPOCH': 'datetime', 'MEAN_MOTION_DOT': 'mean_motion_dot', 'MEAN_MOTION_DDOT': 'mean_motion_ddot', 'BSTAR': 'drag_term',
    'ELEMENT_SET_NO': 'element_set_number', 'INCLINATION': 'inclination', 'RA_OF_ASC_NODE': 'right_ascension', 'ECCENTRICITY': 'eccentricity',
    'ARG_OF_PERICENTER': 'argument_of_perigee', 'MEAN_ANOMALY': 'mean_anomaly', 'MEAN_MOTION': 'mean_motion', 'REV_AT_EPOCH': 'revolution_number',
    'EPHEMERIS_TYPE': 'ephemeris_type',
}
OPTIONAL = ('OBJECT_NAME', 'OBJECT_ID')
LETTERS = {'U': 'Unclassified', 'C': 'Classified', 'S': 'Secret'}
NUMBERS = {**{k: 'f64' for k in KEYS if k.startswith(('MEAN_', 'INCL', 'RA_', 'ECC', 'ARG_', 'BSTAR'))},
           'NORAD_CAT_ID': 'u64', 'ELEMENT_SET_NO': 'u64', 'REV_AT_EPOCH': 'u64', 'EPHEMERIS_TYPE': 'u8'}


class Run:
    """One evaluation world for reads and writes of one feature set."""

    def __init__(self, feature):
        self.fmt = serial.Format()
        self.I = Interp(program(feature), natives=self.fmt.find)
        self.W, self.b = self.I.W, self.I.b

    def read(self, root, doc, pc=T):
        """(condition of success, value read) for a document"""
        I, W = self.I, self.W
        doc.ty = 'int'
        r, st = I.run_root(root, [W.mk('agg', None, doc)], pc)
        self.st = st
        okc, v = self.outcome(r, st)
        return okc, v

    def outcome(self, r, st):
        if r is None or st.pc == F:
            return F, None
        b, W = self.b, self.W
        okc = self.is_variant(r, 0, st.pc)
        if okc == F:
            return F, None
        v = W.restrict(r, okc)
        if v.op != 'agg':
            raise Unsupported('success of a read is not a value')
        return okc, v.args[1]

    def is_variant(self, n, i, pc):
        b = self.b
        if n.op == 'ite':
            return b.OR(self.is_variant(n.args[1], i, b.AND(pc, n.args[0])), self.is_variant(n.args[2], i, b.AND(pc, b.NOT(n.args[0]))))
        if n.op != 'agg':
            raise Unsupported(f'result of a read is {n.op}')
        return pc if n.args[0] == i else F

    def analysed(self):
        return {self.I.P.insts[k]['path'] for k in self.I.funcs if self.I.P.insts[k]['crate'] == 'sgp4'}

    def fields(self, root):
        """(type, [(name, type)]) of the record behind the root"""
        I = self.I
        body = I.P.insts[I.P.roots[root]]['body']
        t = I.tk(body['locals'][0])['variants'][0]['fields'][0][1]
        return t, I.tk(t)['variants'][0]['fields']

    def record(self, keys, **values):
        W = self.W
        return W.mk('rec', *[x for k in keys for x in (k, values.get(k) or self.member(k))])

    def member(self, k):
        W = self.W
        if k == 'CLASSIFICATION_TYPE':
            return W.mk('var', 'U', W.mk('rec'))
        return W.mk('doc', k)

    def docs(self, n):
        """Names of the documents a value depends on, conditions included."""
        seen, todo, out = set(), [n], set()
        while todo:
            x = todo.pop()
            if not hasattr(x, 'op') or id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == 'doc':
                out.add(x.args[0])
            for i, a in enumerate(x.args):
                if x.op == 'ite' and i == 0:
                    todo += [self.W.atoms[v] for v in self.b.support(a)]
                elif isinstance(a, tuple):
                    todo += list(a)
                else:
                    todo.append(a)
        return out

    def split(self, doc, g=T):
        """Cases of a conditional document: [(condition, document)]"""
        c = self.choice(doc)
        if c is None:
            return [(g, doc)]
        out = []
        for x in (c, self.b.NOT(c)):
            h = self.b.AND(g, x)
            if h != F:
                out += self.split(self.simplify(doc, h), h)
        return out

    def choice(self, d):
        if d.op == 'ite':
            return d.args[0]
        if d.op in ('rec', 'var'):
            for a in d.args:
                if hasattr(a, 'op'):
                    c = self.choice(a)
                    if c is not None:
                        return c
        return None

    def simplify(self, d, g):
        d = self.W.restrict(d, g)
        if d.op in ('rec', 'var'):
            n = self.W.mk(d.op, *[self.simplify(a, g) if hasattr(a, 'op') else a for a in d.args])
            n.ty = 'int'
            return n
        return d

    def diff(self, got, want, t, g, at=''):
        """Paths of the parts that differ, [(path, got, want)]"""
        W, I = self.W, self.I
        got, want = W.restrict(got, g), W.restrict(want, g)
        if got is want:
            return []
        if got.op == 'agg' and want.op == 'agg' and got.args[0] == want.args[0] and len(got.args) == len(want.args):
            d = I.tk(t) if t is not None else {}
            fs = d['variants'][got.args[0] or 0]['fields'] if d.get('k') == 'adt' else [(str(i), None) for i in range(len(got.args) - 1)]
            name = d['variants'][got.args[0]]['name'] + '.' if d.get('k') == 'adt' and got.args[0] is not None else ''
            out = []
            for (n, ft), x, y in zip(fs, got.args[1:], want.args[1:]):
                out += self.diff(x, y, ft, g, f'{at}.{name}{n}' if at else f'{name}{n}')
            return out
        if got.op == 'ite' or want.op == 'ite':
            c = got.args[0] if got.op == 'ite' else want.args[0]
            out = []
            for x in (c, self.b.NOT(c)):
                h = self.b.AND(g, x)
                if h != F:
                    out += self.diff(got, want, t, h, at)
            return out
        return [(at or 'value', got, want)]

    def roundtrip(self, writer, reader, arg):
        """Write an arbitrary value and read it back: ([(case, differences or None when the read fails)], panics)"""
        I, W, b = self.I, self.W, self.b
        r, st = I.run_root(writer)
        body = I.P.insts[I.P.roots[writer]]['body']
        t = I.tk(body['locals'][1])['e']
        value = I.load(st, I.sym(arg, body['locals'][1]))
        okc, doc = self.outcome(r, st)
        out = []
        if okc != T:
            out.append(('writing', None, 'not every value can be written'))
        if doc is None:
            return out
        for g, d in self.split(doc.args[1]):
            name = self.describe(d)
            try:
                o, v = self.read(reader, d, g)
            except Unsupported as e:
                raise Unsupported(f'{name}: {e}')
            bad = []
            if b.AND(g, b.NOT(o)) != F:
                bad.append(('read', 'the written form is refused'))
            if o != F:
                bad += [(p, f'reads back {show(x, 4)[:100]} instead of {show(y, 4)[:100]}') for p, x, y in self.diff(v, value, t, o)]
            out.append((name, self.size(d), bad))
        return out

    def describe(self, d):
        """Names of the chosen variants"""
        out = []

        def go(x):
            if x.op == 'var':
                out.append(x.args[0])
            for a in x.args:
                if hasattr(a, 'op') and x.op in ('rec', 'var'):
                    go(a)
        go(d)
        return '/'.join(out) or 'record'

    def size(self, d):
        if d.op == 'rec':
            return len(d.args) // 2 + sum(self.size(a) for a in d.args if hasattr(a, 'op'))
        return self.size(d.args[1]) if d.op == 'var' else 0


# ------------------------------------------------------------------ C06
def omm(job):
    feature, part = job
    R = Run(feature)
    W, b = R.W, R.b
    t, fs = R.fields('read_elements')
    out = []

    def add(cond, key, text, good):
        out.append((bool(cond), f'{feature}:{key}', f'Elements ({feature}): {text}', good))
    names = [n for n, _ in fs]
    if part == 'keys':
        add(sorted(names) == sorted(KEYS.values()), 'fields', f'the record has the fields {sorted(set(names) ^ set(KEYS.values()))} more or less than the seventeen OMM quantities', 'fields of the record')
        ok0, v0 = R.read('read_elements', R.record(KEYS))
        if v0 is None:
            add(False, 'read', 'a record with all standard members is refused', '')
            return out, R.I.panics, R.analysed()
        val = dict(zip(names, v0.args[1:]))
        for key, f in KEYS.items():
            if key == 'CLASSIFICATION_TYPE' or f not in val:
                continue
            ds = R.docs(W.restrict(val[f], ok0))
            add(ds == {key}, f'{f}:source', f'{f} is read from {", ".join(sorted(ds)) or "no member"} instead of {key}', f'{f} from {key}')
        for i, keys in enumerate((list(reversed(KEYS)), list(KEYS)[5:] + list(KEYS)[:5], sorted(KEYS))):
            o, v = R.read('read_elements', R.record(keys))
            add(o == ok0 and v is not None and not R.diff(v, v0, t, ok0), f'order:{i}', 'the result depends on the order of the members', f'order of members {i}')
        for at in (0, 8, 17):
            keys = list(KEYS)
            keys.insert(at, 'CCSDS_OMM_VERS')
            o, v = R.read('read_elements', R.record(keys))
            add(o == ok0 and v is not None and not R.diff(v, v0, t, ok0), f'unknown:{at}', 'a member that is not used changes the result', f'unused member at {at}')
        for letter, name in LETTERS.items():
            o, v = R.read('read_elements', R.record(KEYS, CLASSIFICATION_TYPE=W.mk('var', letter, W.mk('rec'))))
            got = None
            if v is not None:
                c = dict(zip(names, v.args[1:])).get('classification')
                ct = dict(fs)['classification']
                got = R.I.tk(ct)['variants'][c.args[0]]['name'] if c is not None and c.op == 'agg' else show(c, 3)
            add(got == name and o == ok0, f'classification:{letter}', f'the classification {letter} is read as {got} instead of {name}', f'classification {letter}')
        o, v = R.read('read_elements', R.record(KEYS, CLASSIFICATION_TYPE=W.mk('var', 'X', W.mk('rec'))))
        add(o == F, 'classification:other', 'a classification that is none of U, C and S is accepted', 'other classification refused')
    elif part == 'missing':
        ok0, v0 = R.read('read_elements', R.record(KEYS))
        for key, f in KEYS.items():
            o, v = R.read('read_elements', R.record([k for k in KEYS if k != key]))
            if key in OPTIONAL:
                x = dict(zip(names, v.args[1:])).get(f) if v is not None else None
                add(x is W.mk('agg', 0), f'missing:{key}', f'without {key}, {f} is not empty', f'{key} missing: empty')
            else:
                add(o == F, f'missing:{key}', f'a record without {key} is accepted ({f} takes {show(dict(zip(names, v.args[1:])).get(f), 3) if v is not None else ""})', f'{key} missing: refused')
    else:
        for name, n, bad in R.roundtrip('write_elements', 'read_elements', 'elements'):
            if n is None:
                add(False, 'write', bad, '')
                continue
            add(not bad, f'roundtrip:{name}:{bad[0][0] if bad else ""}', f'written with classification {name} and read again: {"; ".join(f"{p}: {x}" for p, x in bad[:4])}', f'written and read again ({name}, {n} members)')
    return out, R.I.panics, R.analysed()


def C06(rep):
    rep.rule = 'value of every field of a record read, as an expression over the members of the document, for all members in several orders, each one missing and unknown ones added; written form read again gives the value written'
    jobs = [(f, p) for f in SETS for p in ('keys', 'missing', 'roundtrip')]
    for job, (out, panics, fns) in zip(jobs, pmap(omm, jobs, 6)):
        for c, key, text, good in out:
            rep.check(c, key, text, f'{job[0]}: {good}')
        rep.analysed |= fns
        for pn in panics:
            rep.fail(f'panic:{pn["own"]}:{pn["kind"]}', f'{pn["own"]} at {pn["own_loc"]} can panic: {pn["kind"]}')
        rep.count(f'{job[0]}:{job[1]}', len(out))
    assumed(rep)


def assumed(rep):
    rep.trusted = base.TRUSTED
    rep.assumptions += ['library types (numbers, text, options, dates, JSON values) read back what was written from them; not-a-number and infinite values, which JSON cannot hold, are left out',
                        'the data format gives members by name, as JSON does, and hands each value over unchanged']


# ------------------------------------------------------------------ C07
def number(job):
    """Reading of one numeric member whose document is any JSON value; the other members hold given values."""
    feature, keys = job
    R = Run(feature)
    W, b, I, fmt = R.W, R.b, R.I, R.fmt
    t, fs = R.fields('read_elements')
    ft = dict(fs)
    out = []
    for key in keys:
        f, ty = KEYS[key], NUMBERS[key]
        if f not in ft:
            out.append((False, f'{feature}:{f}', f'Elements has no field {f}', ''))
            continue
        d = W.mk('doc', key)
        given = {}
        for k in KEYS:
            if k != key and k != 'CLASSIFICATION_TYPE' and KEYS[k] in ft:
                x = I.mat(ft[KEYS[k]], W.mk('sym', 'given:' + k))
                given[k] = W.mk('ser', fmt.tname(I, ft[KEYS[k]]), x)
        okc, v = R.read('read_elements', R.record(KEYS, **given))
        val = dict(zip(ft, v.args[1:]))[f] if v is not None else None
        txt = natives_parse(R, d, ty)
        for k in serial.KINDS:
            g = fmt.kind_of(I, d, k)
            want, x = F, None
            if ty == 'f64':
                if k in ('Unsigned', 'Negative', 'Float'):
                    want, x = T, fmt.f64_of(I, d, k)
            elif k == 'Unsigned':
                x = fmt.u(I, d)
                want = T if ty == 'u64' else W.ge0(W.add(W.I(255), x, -1))
            if k == 'Text':
                want, x = txt
            want = b.AND(g, want)
            got = b.AND(g, okc)
            what = f'{f} ({feature}) given as {WORDS[k]}'
            add = lambda c, kind, text: out.append((bool(c), f'{feature}:{f}:{k}:{kind}', text, f'{feature}: {f} as {WORDS[k]}'))
            if got != want:
                more, less = b.AND(got, b.NOT(want)), b.AND(want, b.NOT(got))
                add(False, 'accepted' if more != F else 'refused', f'{what}: ' + (f'accepted although a {ty} cannot hold it' if more != F else 'refused although it holds a value of the field'))
                continue
            if x is not None and want != F:
                df = R.diff(val, x, None, want)
                add(not df, 'value', f'{what}: the field takes {show(df[0][1], 4)[:120] if df else ""} instead of {show(df[0][2], 4)[:120] if df else ""}')
            else:
                add(True, 'refused', '')
    return out, I.panics, R.analysed()


WORDS = {'Null': 'null', 'Bool': 'a boolean', 'Unsigned': 'an unsigned integer', 'Negative': 'a negative integer', 'Float': 'a number with fraction or exponent',
         'Text': 'text', 'List': 'a list', 'Record': 'a record'}


def natives_parse(R, d, ty):
    """(condition, value) of the standard conversion of the text of document d to the type ty"""
    I, W, b = R.I, R.W, R.b
    lo, hi = (0, (1 << (64 if ty == 'u64' else 8)) - 1) if ty != 'f64' else (None, None)
    r = natives.parse_result(I, R.st, R.fmt.str_of(I, R.fmt.s(I, d)), ty, lo, hi)
    okc = R.is_variant(r, 0, T)
    return okc, W.restrict(r, okc).args[1]


def C07(rep):
    rep.rule = 'for every numeric member and every kind of JSON value: condition of acceptance and value of the field equal those of the exact conversion (integer within the range of the type, number to f64, text by the standard conversion)'
    ks = list(NUMBERS)
    jobs = [(f, ks[i::4]) for f in SETS for i in range(4)]
    n = 0
    for job, (out, panics, fns) in zip(jobs, pmap(number, jobs, 6)):
        for c, key, text, good in out:
            rep.check(c, key, text, good)
        rep.analysed |= fns
        for pn in panics:
            rep.fail(f'panic:{pn["own"]}:{pn["kind"]}', f'{pn["own"]} at {pn["own_loc"]} can panic: {pn["kind"]}')
        n += len(job[1])
    rep.count('members', n)
    rep.count('kinds of JSON value', len(serial.KINDS))
    rep.trusted = base.TRUSTED
    rep.assumptions += ['JSON numbers as in serde_json without arbitrary_precision: an unsigned 64-bit, a negative 64-bit or a floating-point number',
                        'text to number by the conversion of the standard library']


# ------------------------------------------------------------------ C26
def constants(feature):
    R = Run(feature)
    return R.roundtrip('write_constants', 'read_constants', 'constants'), R.I.panics, R.analysed()


def C26(rep):
    rep.rule = 'for every combination of variants of a propagator: the document written, as a tree of names and values, is read back to the same expression in every field'
    for f, (cases, panics, fns) in zip(SETS, pmap(constants, SETS, 2)):
        for name, n, bad in cases:
            if n is None:
                rep.fail(f'{f}:write', f'Constants ({f}): {bad}')
                continue
            for p, x in bad:
                rep.fail(f'{f}:{name}:{p}', f'Constants ({f}), {name}: {p}: {x}')
            for i in range(n - len(bad)):
                rep.ok(f'{f}: {name}: member {i}')
            rep.count(f'{f}:{name}', n)
        rep.analysed |= fns
        for pn in panics:
            rep.fail(f'panic:{pn["own"]}:{pn["kind"]}', f'{pn["own"]} at {pn["own_loc"]} can panic: {pn["kind"]}')
    assumed(rep)


CHECKS = {'C06': (C06, TECH), 'C07': (C07, TECH), 'C26': (C26, TECH)}
