"""Meaning of the abstract data format of the harness (harness/src/format.rs) and of the library types read and written through it.

A document is a term: `rec` (key, value, key, value, ...), `var` (name, content), `ser` (type, value) for a value of a
library type, `doc` (name) for anything. Reading a library type from the document written from a value of that type gives the
value; reading a `doc` gives an unknown value of the type, reading it as a JSON value gives one of the JSON kinds.
"""
from bdd import T, F
from interp import Unsupported
import natives
from natives import some, none, ok, err

KINDS = ('Null', 'Bool', 'Unsigned', 'Negative', 'Float', 'Text', 'List', 'Record')


class Format:
    """`find` is given to the interpreter as the source of summaries."""

    def __init__(self):
        self.table = {k: getattr(self, k) for k in ('kind', 'unsigned', 'negative', 'float', 'boolean', 'text', 'as_list', 'key_at', 'value_at',
                                                    'variant_of', 'content_of', 'empty', 'put', 'variant', 'leaf')}
        self.read, self.written = set(), set()

    def find(self, inst):
        p = inst['path']
        if p.startswith('apiclient::format::given::'):
            return self.table[inst['item']]
        if p.endswith('::missing_field') and '::de::' in p:
            return self.missing
        tr = inst.get('trait') or ''
        if inst['item'] == 'deserialize' and tr.endswith('::Deserialize') and inst['crate'] not in self.own:
            return self.deserialize
        if inst['item'] == 'serialize' and tr.endswith('::Serialize') and inst['crate'] not in self.own:
            return self.serialize
        if p.startswith('serde_json::number::Number::') and inst['item'] in self.NUMBER:
            return self.number
        return natives.find(inst)

    own = ('sgp4', 'apiclient')

    # ------------------------------------------------------------ documents
    def doc(self, I, st, v):
        n = I.load(st, v) if v.op == 'ptr' else v
        return n.args[1] if n.op == 'agg' else I.W.mk('fld', n, 0, 0)

    def mk(self, I, n):
        n.ty = 'int'
        return I.W.mk('agg', None, n)

    def kind_of(self, I, d, k):
        """Condition that document d is of the JSON kind k."""
        W, b = I.W, I.b
        if d.op not in ('doc', 'ser', 'rec', 'var'):
            raise Unsupported(f'JSON kind of {d.op}')
        r = T
        for j, x in enumerate(KINDS[:-1]):
            a = self.is_kind(I, d, x)
            if x == k:
                return b.AND(r, a)
            r = b.AND(r, b.NOT(a))
        return r

    WRITTEN = {'u8': 'Unsigned', 'u16': 'Unsigned', 'u32': 'Unsigned', 'u64': 'Unsigned', 'f64': 'Float', 'bool': 'Bool', 'String': 'Text'}

    def is_kind(self, I, d, x):
        """Condition deciding kind x of a document, when it is none of the kinds before x."""
        if d.op == 'rec':
            return F
        if d.op == 'var':
            return T if x == 'Text' and d.args[1] is I.W.mk('rec') else F
        if d.op == 'ser' and d.args[0] in self.WRITTEN:
            return T if self.WRITTEN[d.args[0]] == x else F
        if d.op == 'ser':
            raise Unsupported(f'JSON kind of a {d.args[0]}')
        return I.W.atom(I.W.mk('jkind', d, x))

    def value_of(self, I, d, what, ty, rng=None):
        if d.op == 'ser':
            return d.args[1]
        n = I.W.mk('j' + what, d)
        n.ty = ty
        if rng:
            n.rng = rng
        return n

    def u(self, I, d):
        return self.value_of(I, d, 'unsigned', 'int', (0, (1 << 64) - 1))

    def i(self, I, d):
        return self.value_of(I, d, 'negative', 'int', (-(1 << 63), -1))

    def f(self, I, d):
        return self.value_of(I, d, 'float', 'float')

    def s(self, I, d):
        if d.op == 'ser':
            return d.args[1]
        return I.W.mk('jtext', d)

    def kind(self, I, st, inst, args, at, dty, loc):
        W = I.W
        d = self.doc(I, st, args[0])
        acc = W.mk('agg', len(KINDS) - 1)
        for j in reversed(range(len(KINDS) - 1)):
            acc = W.ite(self.is_kind(I, d, KINDS[j]), W.mk('agg', j), acc)
        return acc

    def unsigned(self, I, st, inst, args, at, dty, loc):
        return self.u(I, self.doc(I, st, args[0]))

    def negative(self, I, st, inst, args, at, dty, loc):
        return self.i(I, self.doc(I, st, args[0]))

    def float(self, I, st, inst, args, at, dty, loc):
        return self.f(I, self.doc(I, st, args[0]))

    def boolean(self, I, st, inst, args, at, dty, loc):
        return I.W.B(I.W.atom(I.W.mk('jbool', self.doc(I, st, args[0]))))

    def str_of(self, I, v):
        """&str of the String v"""
        W = I.W
        n = W.mk('strof', v)
        return W.mk('slice', W.mk('ptr', ('symarr', n), ()), W.I(0), W.mk('len', n, rng=(0, 1 << 62), ty='int'))

    def text(self, I, st, inst, args, at, dty, loc):
        return self.str_of(I, self.s(I, self.doc(I, st, args[0])))

    def as_list(self, I, st, inst, args, at, dty, loc):
        return I.W.B(F)

    def lit(self, I, st, s):
        """&'static str constant to str"""
        if s.op == 'lit':
            return s.args[0]
        ps = natives.text_pieces_of_str(I, st, s)
        if len(ps) == 1 and isinstance(ps[0], str):
            return ps[0]
        raise Unsupported('name of a member that is not a constant')

    def name(self, I, s):
        return I.const({'s': s, 'bytes': list(s.encode())}, 0)

    def entries(self, d):
        if d.op != 'rec':
            raise Unsupported(f'members of {d.op}')
        a = d.args
        return [(a[i], a[i + 1]) for i in range(0, len(a), 2)]

    def pick(self, I, st, args):
        d, i = self.doc(I, st, args[0]), args[1]
        if i.op != 'i':
            raise Unsupported('member at an unknown position')
        e = self.entries(d)
        return e[i.args[0]] if i.args[0] < len(e) else None

    def key_at(self, I, st, inst, args, at, dty, loc):
        e = self.pick(I, st, args)
        return none(I.W) if e is None else some(I.W, self.name(I, e[0]))

    def value_at(self, I, st, inst, args, at, dty, loc):
        e = self.pick(I, st, args)
        if e is None:
            raise Unsupported('member after the last')
        return self.mk(I, e[1])

    def variant_of(self, I, st, inst, args, at, dty, loc):
        d = self.doc(I, st, args[0])
        if d.op != 'var':
            raise Unsupported(f'variant of {d.op}')
        return self.name(I, d.args[0])

    def content_of(self, I, st, inst, args, at, dty, loc):
        d = self.doc(I, st, args[0])
        if d.op != 'var':
            raise Unsupported(f'variant of {d.op}')
        return self.mk(I, d.args[1])

    def empty(self, I, st, inst, args, at, dty, loc):
        n = I.W.mk('rec')
        n.ty = 'int'
        return n

    def each(self, I, d, f):
        """Apply f to the cases of a conditional document."""
        if d.op == 'ite':
            return I.W.ite(d.args[0], self.each(I, d.args[1], f), self.each(I, d.args[2], f))
        n = f(d)
        n.ty = 'int'
        return n

    def put(self, I, st, inst, args, at, dty, loc):
        W = I.W
        key = self.lit(I, st, args[1])
        v = self.doc(I, st, args[2])

        def add(d):
            if d.op != 'rec':
                raise Unsupported(f'member added to {d.op}')
            return W.mk('rec', *d.args, key, v)
        return self.each(I, args[0], add)

    def variant(self, I, st, inst, args, at, dty, loc):
        name = self.lit(I, st, args[0])
        n = I.W.mk('var', name, args[1])
        n.ty = 'int'
        return n

    def tname(self, I, t):
        d = I.tk(t)
        while d['k'] == 'ref':
            d = I.tk(d['e'])
        n = d['s'] if 's' in d else d.get('path', d['k'])
        return 'String' if n in ('str', 'std::string::String', 'alloc::string::String') else n

    def wrote(self, I, t, v):
        n = self.tname(I, t)
        if v.op == 'slice' and v.args[0].op == 'ptr' and v.args[0].args[0][0] == 'symarr' and v.args[0].args[0][1].op == 'strof':
            v = v.args[0].args[0][1].args[0]
        self.written.add(n)
        return self.each(I, I.W.mk('ser', n, v), lambda d: d)

    def leaf(self, I, st, inst, args, at, dty, loc):
        return self.wrote(I, at[0], args[0])

    # ------------------------------------------------------------ library types
    def serialize(self, I, st, inst, args, at, dty, loc):
        t, v = at[0], args[0]
        if self.mentions(I, t):
            return NotImplemented
        while I.tk(t)['k'] == 'ref' and v.op == 'ptr':
            v, t = I.load(st, v), I.tk(t)['e']
        return ok(I.W, self.mk(I, self.wrote(I, t, v)))

    def mentions(self, I, t):
        """Does the type mention a type of the subject or the harness?"""
        seen, todo = set(), [t]
        while todo:
            t = todo.pop()
            if not isinstance(t, int) or t in seen:
                continue
            seen.add(t)
            d = I.tk(t)
            if d['k'] == 'adt' and d.get('crate') in self.own:
                return True
            todo += [x for k in ('e', ) for x in [d.get(k)]] + list(d.get('es') or []) + list(d.get('targs') or d.get('args') or [])
            if d['k'] == 'adt':
                todo += [ft for v in d.get('variants') or [] for _, ft in v['fields']]
        return False

    def deserialize(self, I, st, inst, args, at, dty, loc):
        W, b = I.W, I.b
        t = I.tk(dty)['variants'][0]['fields'][0][1]
        if self.mentions(I, t):
            return NotImplemented
        src = I.tk(at[0])
        if src.get('path', '').endswith('MissingFieldDeserializer'):
            return self.missing(I, st, inst, args, at, dty, loc)
        if not src.get('path', '').endswith('format::Doc'):
            return NotImplemented
        n = self.tname(I, t)
        self.read.add(n)
        d = self.doc(I, st, args[0])
        if n.endswith('IgnoredAny'):
            return ok(W, W.mk('agg', None))
        if n.startswith('serde_json') and n.endswith('Value'):
            return ok(W, self.json(I, d, t))
        if d.op == 'ser':
            if d.args[0] == n:
                return ok(W, d.args[1])
            return I.mat(dty, W.mk('convert', n, d))
        if d.op != 'doc':
            return I.mat(dty, W.mk('convert', n, d))
        return W.ite(W.atom(W.mk('de_ok', n, d)), ok(W, I.mat(t, W.mk('de', n, d))), err(W, W.mk('agg', None)))

    def json(self, I, d, t):
        W = I.W
        vs = [v['name'] for v in I.tk(t)['variants']]
        assert vs == ['Null', 'Bool', 'Number', 'String', 'Array', 'Object'], vs

        def num(k):
            return W.mk('agg', 2, W.mk('jnumber', d, k))
        out = {'Null': W.mk('agg', 0), 'Bool': W.mk('agg', 1, W.B(W.atom(W.mk('jbool', d)))), 'Unsigned': num('Unsigned'), 'Negative': num('Negative'),
               'Float': num('Float'), 'Text': W.mk('agg', 3, self.s(I, d)), 'List': W.mk('agg', 4, W.mk('jlist', d)), 'Record': W.mk('agg', 5, W.mk('jrecord', d))}
        acc = out['Record']
        for k in reversed(KINDS[:-1]):
            acc = W.ite(self.is_kind(I, d, k), out[k], acc)
        return acc

    NUMBER = ('as_u64', 'as_i64', 'as_f64', 'is_u64', 'is_i64', 'is_f64')

    def number(self, I, st, inst, args, at, dty, loc):
        v = I.W.restrict(I.load(st, args[0]), st.pc)
        return self.cases(I, v, lambda n: self.number_case(I, st, n, inst['item']))

    def cases(self, I, v, f):
        if v.op == 'ite':
            return I.W.ite(v.args[0], self.cases(I, v.args[1], f), self.cases(I, v.args[2], f))
        return f(v)

    def number_case(self, I, st, n, m):
        W = I.W
        if n.op != 'jnumber':
            raise Unsupported(f'{m} of {n.op}')
        d, k = n.args
        if m == 'is_f64':
            return W.B(T if k == 'Float' else F)
        if m == 'is_u64':
            return W.B(T if k == 'Unsigned' else F)
        small = natives.le(I, st, self.u(I, d), W.I((1 << 63) - 1)) if k == 'Unsigned' and m in ('is_i64', 'as_i64') else F
        if m == 'is_i64':
            return W.B(T if k == 'Negative' else small)
        if m == 'as_u64':
            return some(W, self.u(I, d)) if k == 'Unsigned' else none(W)
        if m == 'as_i64':
            return some(W, self.i(I, d)) if k == 'Negative' else W.ite(small, some(W, self.u(I, d)), none(W))
        return some(W, self.f64_of(I, d, k))

    def f64_of(self, I, d, k):
        return self.f(I, d) if k == 'Float' else I.fl('i2f', self.u(I, d) if k == 'Unsigned' else self.i(I, d))

    def missing(self, I, st, inst, args, at, dty, loc):
        if not I.tk(dty).get('path', '').endswith('result::Result'):
            return NotImplemented
        t = I.tk(dty)['variants'][0]['fields'][0][1]
        if I.tk(t).get('path', '').endswith('option::Option'):
            return ok(I.W, none(I.W))
        return err(I.W, I.W.mk('agg', None))
