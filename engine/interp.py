"""Interprocedural gated value numbering over monomorphised MIR.

Each function body is walked once per calling context in topological order of its control-flow graph. At a
join the values of the incoming paths are merged into conditional values gated by the path conditions
(BDDs over atomic tests). Callees are inlined (the call graph of the crate is not recursive); bodies that are
not available, or that have a summary in natives.py, are replaced by uninterpreted pure terms. Loops whose
state advances through constants are unrolled; other loops are turned into fixpoint terms (loop variables with
initial value, step and exit test). No path is enumerated separately, no solver is called and nothing runs.
"""
import struct
import math
from term import World, Node, INF, show
from bdd import T, F

INT_OPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr'}


class Unsupported(Exception):
    pass


class State:
    """Store under a path condition.  hist is the chain (parent, branch condition, depth) of the branches taken since
    they last merged; the path condition implies each of them."""
    __slots__ = ('pc', 'store', 'hist')

    def __init__(self, pc, store, hist=None):
        self.pc = pc
        self.store = store
        self.hist = hist

    def copy(self, pc=None, cond=None):
        h = self.hist
        if cond is not None:
            h = (h, cond, h[2] + 1 if h else 1)
        return State(self.pc if pc is None else pc, dict(self.store), h)


class Prog:
    """The dumped program: instances, types, roots and derived control-flow facts."""

    def __init__(self, data, own=('sgp4', 'apiclient')):
        self.types = data['types']
        self.insts = data['insts']
        self.roots = data['roots']
        self.own = own
        self.cfg = {}
        self.regions = {}

    def ty(self, i):
        return self.types[i]

    def succs(self, inst_id):
        r = self.cfg.get(inst_id)
        if r is None:
            r = []
            for b in self.insts[inst_id]['body']['blocks']:
                t = b['t']
                k = t['k']
                s = []
                if k in ('goto', 'drop', 'assert', 'call', 'other'):
                    if t.get('t') is not None:
                        s = [t['t']]
                elif k == 'switch':
                    s = [x for _, x in t['vs']]
                    if t.get('else') is not None:
                        s.append(t['else'])
                r.append(s)
            self.cfg[inst_id] = r
        return r

    def region(self, inst_id, blocks, entry):
        """Topological list of components of the region with back edges to entry removed.
        Each item: (block, None) or (header, frozenset(blocks))."""
        key = (inst_id, blocks, entry)
        r = self.regions.get(key)
        if r is not None:
            return r
        succ = self.succs(inst_id)
        index = {}
        low = {}
        onst = set()
        st = []
        out = []
        cnt = [0]

        def sx(b):
            return [x for x in succ[b] if x in blocks and x != entry]
        work = [(entry, iter(sx(entry)))]
        index[entry] = low[entry] = 0
        cnt[0] = 1
        st.append(entry)
        onst.add(entry)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(sx(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = set()
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.add(w)
                    if w == v:
                        break
                out.append((v, comp))
        out.reverse()
        res = []
        for v, comp in out:
            if len(comp) == 1 and v not in sx(v):
                res.append((v, None))
            else:
                ents = set()
                for b in blocks:
                    if b in index and b not in comp:
                        for x in sx(b):
                            if x in comp:
                                ents.add(x)
                if len(ents) != 1:
                    raise Unsupported(f'irreducible loop in {self.insts[inst_id]["name"]}')
                res.append((ents.pop(), frozenset(comp)))
        self.regions[key] = res
        return res


class Recursion(Unsupported):
    """Calls nest without end."""


OUTSIDE = ('op', 'arg', 'symarr', 'static')      # memory that exists before it is first written
UNCHECKED = ('unchecked', 'unchecked_mut')


class Interp:
    MAX_UNROLL = 3000

    def __init__(self, prog, world=None, natives=None, intercept=None):
        self.P = prog
        self.W = world or World()
        self.b = self.W.bdd
        self.natives = natives or {}
        self.native_cache = {}
        self.intercept = intercept or {}
        self.nframe = 0
        self.consts = {}
        self.const_cells = {}
        self.panics = []
        self.loops = {}
        self.externals = {}
        self.stack = []
        self.unchecked_calls = []
        self.unrolled = []          # (function, crate, iterations, ends early depending on data)
        self.stats = dict(blocks=0, statements=0, calls=0, branches=0, unrolled=0, mu_loops=0, asserts=0)
        self.funcs = {}
        self.fact_memo = {}
        self.opaque_cells = {}
        self.native_used = {}
        self.trail = []

    # ------------------------------------------------------------ types
    def tk(self, t):
        return self.P.types[t]

    def int_range(self, t):
        d = self.tk(t)
        if d['k'] == 'int':
            n = d['bits']
            return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if d['signed'] else (0, (1 << n) - 1)
        if d['k'] == 'char':
            return (0, 0x10ffff)
        if d['k'] == 'bool':
            return (0, 1)
        return (-INF, INF)

    def materializable(self, d):
        if d['k'] in ('tuple', 'array'):
            return True
        if d['k'] == 'adt' and d.get('adt') in ('struct', 'enum'):
            if d['crate'] in self.P.own:
                return True
            p = d['path']
            return any(p.endswith(x) for x in ('option::Option', 'result::Result', 'cmp::Ordering', 'ops::ControlFlow', 'ops::control_flow::ControlFlow')) or 'ops::range::' in p or p.startswith('std::ops::Range') or p.startswith('core::ops::Range')
        return False

    def mat(self, t, node, depth=0):
        """Value of type t standing for the opaque term node."""
        d = self.tk(t)
        k = d['k']
        W = self.W
        if k == 'bool':
            return W.B(W.atom(node))
        if k in ('int', 'char'):
            if node.rng is None:
                node.rng = self.int_range(t)
            if node.ty is None:
                node.ty = 'int'
            return node
        if k == 'float':
            if node.ty is None:
                node.ty = 'float'
            return node
        if k == 'tuple':
            return W.mk('agg', None, *[self.mat(e, W.mk('fld', node, 0, i)) for i, e in enumerate(d['es'])])
        if k == 'array' and isinstance(d['n'], int) and d['n'] <= 64:
            return W.mk('agg', None, *[self.mat(d['e'], W.mk('fld', node, 0, i)) for i in range(d['n'])])
        if self.materializable(d) and depth < 8:
            vs = d['variants']
            if d['adt'] == 'struct':
                return W.mk('agg', None, *[self.mat(ft, W.mk('fld', node, 0, i), depth + 1) for i, (_, ft) in enumerate(vs[0]['fields'])])
            acc = None
            for vi in reversed(range(len(vs))):
                v = W.mk('agg', vi, *[self.mat(ft, W.mk('fld', node, vi, i), depth + 1) for i, (_, ft) in enumerate(vs[vi]['fields'])])
                acc = v if acc is None else W.ite(W.atom(W.mk('isvar', node, vi)), v, acc)
            return acc if acc is not None else node
        if k in ('ref', 'ptr'):
            e = self.tk(d['e'])
            if e['k'] in ('slice', 'str'):
                ln = W.mk('len', node, rng=(0, (1 << 63) - 1))
                ln.ty = 'int'
                return W.mk('slice', W.mk('ptr', ('symarr', node), ()), W.I(0), ln)
            cell = ('op', node)
            if cell not in self.opaque_cells:
                self.opaque_cells[cell] = self.mat(d['e'], W.mk('deref', node), depth + 1)
            return W.mk('ptr', cell, ())
        return node

    def sym(self, name, t):
        return self.mat(t, self.W.mk('sym', name))

    def new_ref(self, v):
        """Pointer to a fresh cell holding the value."""
        cell = ('arg', len(self.opaque_cells), id(self))
        self.opaque_cells[cell] = v
        return self.W.mk('ptr', cell, ())

    def fn_value(self, iid):
        return self.W.mk('fn', iid, self.P.insts[iid]['path'])

    # ------------------------------------------------------------ constants
    def const(self, c, t):
        W = self.W
        d = self.tk(t)
        k = d['k']
        if 'i' in c:
            v = int(c['i'])
            if k == 'bool':
                return W.B(T if v else F)
            return W.I(v)
        if 'f' in c:
            x = struct.unpack('<d', struct.pack('<Q', int(c['f'])))[0]
            return self.fconst(x)
        if 'fn' in c:
            return W.mk('fn', c['fn'], c.get('path'))
        if 'z' in c:
            if k == 'fndef':
                return W.mk('fn', d.get('inst'), d.get('path'))
            return W.UNIT
        if 'static' in c:
            return W.mk('ptr', ('static', c['static']), ())
        if 's' in c:
            a = W.mk('agg', None, *[W.I(x) for x in c['bytes']])
            cell = ('const', a.id)
            self.const_cells[cell] = a
            return W.mk('slice', W.mk('ptr', cell, ()), W.I(0), W.I(len(c['bytes'])))
        if 'sl' in c:
            et = self.tk(d['e'])['e'] if k in ('ref', 'ptr') else None
            a = W.mk('agg', None, *[self.const(x, et) for x in c['sl']])
            cell = ('const', a.id)
            self.const_cells[cell] = a
            return W.mk('slice', W.mk('ptr', cell, ()), W.I(0), W.I(len(c['sl'])))
        if 'r' in c:
            a = self.const(c['r'], d['e'])
            cell = ('const', a.id)
            self.const_cells[cell] = a
            return W.mk('ptr', cell, ())
        if 'a' in c:
            if k == 'array':
                return W.mk('agg', None, *[self.const(x, d['e']) for x in c['a']])
            if k == 'tuple':
                return W.mk('agg', None, *[self.const(x, e) for x, e in zip(c['a'], d['es'])])
            if k == 'closure':
                return W.mk('agg', None, *[self.const(x, e) for x, e in zip(c['a'], d['es'])])
            if k == 'adt':
                enum = d['adt'] == 'enum'
                vi = c.get('v', 0) or 0
                fs = d['variants'][vi]['fields']
                return W.mk('agg', vi if enum else None, *[self.const(x, ft) for x, (_, ft) in zip(c['a'], fs)])
        return self.mat(t, W.mk('sym', 'const:' + str(c.get('u', c)) + ':' + d.get('s', '')))

    def fconst(self, x):
        n = self.W.mk('f', 'nan' if x != x else x, math.copysign(1.0, x) < 0 if x == 0 else None)
        n.ty = 'float'
        return n

    # ------------------------------------------------------------ memory
    def cell(self, st, cell):
        v = st.store.get(cell)
        if v is None:
            v = self.const_cells.get(cell)
            if v is None:
                v = self.opaque_cells.get(cell)
            if v is None:
                if cell[0] == 'symarr':
                    return self.W.mk('symarr', cell[1])
                if cell[0] == 'static':
                    return self.W.mk('static', cell[1])
                return self.W.UNDEF
        return v

    def proj(self, v, e):
        W = self.W
        if v is W.UNDEF:
            return v
        if v.op == 'ite':
            key = ('proj', v, e)
            r = W.rmemo.get(key)
            if r is None:
                r = W.ite(v.args[0], self.proj(v.args[1], e), self.proj(v.args[2], e))
                W.rmemo[key] = r
            return r
        k = e[0]
        if k == 'f':
            if v.op == 'agg':
                if e[1] + 1 < len(v.args):
                    return v.args[1 + e[1]]
                return W.UNDEF
            t = e[2]
            return self.mat(t, W.mk('fld', v, 0, e[1])) if t is not None else W.mk('fld', v, 0, e[1])
        if k == 'v':
            if v.op == 'agg':
                return v if v.args[0] == e[1] else W.UNDEF
            return W.mk('as', v, e[1])
        if k == 'x':
            return self.elem(v, e[1])
        raise Unsupported(f'projection {e}')

    def elem(self, v, idx):
        W = self.W
        if v.op == 'ite':
            return W.ite(v.args[0], self.elem(v.args[1], idx), self.elem(v.args[2], idx))
        if v.op in ('agg', 'vec'):
            xs = v.args[1:] if v.op == 'agg' else v.args
            if idx.op == 'i':
                i = idx.args[0]
                return xs[i] if 0 <= i < len(xs) else W.UNDEF
            lv = W.int_cases(idx)
            if lv:
                return W.select([(c, xs[l.args[0]] if 0 <= l.args[0] < len(xs) else W.UNDEF) for c, l in lv])
            lo, hi = W.range_of(idx)
            acc = W.UNDEF
            for i in range(len(xs) - 1, -1, -1):
                if lo <= i <= hi:
                    c = W.eq0(W.add(idx, W.I(i), -1))
                    acc = xs[i] if acc is W.UNDEF else W.ite(c, xs[i], acc)
            return acc
        if v.op == 'symarr':
            if idx.op == 'i':
                return self.sym_elem(v, idx)
            lv = W.int_cases(idx)
            if lv:
                return W.select([(c, self.sym_elem(v, l)) for c, l in lv])
            return W.mk('elem', v, idx, rng=(0, 255), ty='int')
        return W.mk('elem', v, idx)

    def sym_elem(self, v, idx):
        n = self.W.mk('byte', v.args[0].args[0] if v.args[0].op == 'sym' else v.args[0], idx.args[0], rng=(0, 255))
        n.ty = 'int'
        return n

    def load(self, st, p):
        W = self.W
        if p is W.UNDEF:
            return p
        if p.op == 'ite':
            return W.ite(p.args[0], self.load(st, p.args[1]), self.load(st, p.args[2]))
        if p.op == 'ptr':
            v = self.cell(st, p.args[0])
            for e in p.args[1]:
                v = self.proj(v, e)
            return v
        if p.op == 'slice':
            return p
        return W.mk('deref', p)

    def upd(self, v, path, new):
        W = self.W
        if not path:
            return new
        e = path[0]
        if v.op == 'ite' and e[0] != 'v':
            return W.ite(v.args[0], self.upd(v.args[1], path, new), self.upd(v.args[2], path, new))
        if e[0] == 'v':
            if v.op == 'ite':
                return W.ite(v.args[0], self.upd(v.args[1], path, new), self.upd(v.args[2], path, new))
            if v.op == 'agg' and v.args[0] == e[1]:
                return self.upd(v, path[1:], new)
            if v is W.UNDEF or v.op == 'agg':
                # writing fields of a variant before its discriminant is set
                if v.op == 'agg' and v.args[0] is not None:
                    return v
                return W.mk('agg', e[1], *self.upd(W.mk('agg', None), path[1:], new).args[1:])
            raise Unsupported('write through opaque variant')
        if e[0] == 'f':
            if v is W.UNDEF:
                v = W.mk('agg', None)
            if v.op != 'agg':
                raise Unsupported(f'write to field of opaque value {show(v, 2)}')
            xs = list(v.args[1:])
            while len(xs) <= e[1]:
                xs.append(W.UNDEF)
            xs[e[1]] = self.upd(xs[e[1]], path[1:], new)
            return W.mk('agg', v.args[0], *xs)
        if e[0] == 'x':
            if v.op not in ('agg', 'vec'):
                raise Unsupported('write to element of opaque value')
            off = 1 if v.op == 'agg' else 0
            xs = list(v.args[off:])
            idx = e[1]
            if idx.op == 'i':
                if 0 <= idx.args[0] < len(xs):
                    xs[idx.args[0]] = self.upd(xs[idx.args[0]], path[1:], new)
            else:
                lo, hi = W.range_of(idx)
                for i in range(max(lo, 0), min(hi, len(xs) - 1) + 1):
                    c = W.eq0(W.add(idx, W.I(i), -1))
                    xs[i] = W.ite(c, self.upd(xs[i], path[1:], new), xs[i])
            return W.mk('agg', v.args[0], *xs) if off else W.mk('vec', *xs)
        raise Unsupported(f'update {e}')

    def storep(self, st, p, v):
        W = self.W
        if p.op == 'ite':
            for c, q in W.leaves(p):
                if q is W.UNDEF:
                    continue
                if q.op != 'ptr':
                    raise Unsupported('store through opaque pointer')
                old = self.load(st, q)
                self.storep(st, q, W.ite(c, v, old))
            return
        if p.op != 'ptr':
            raise Unsupported(f'store through {p.op}')
        c, path = p.args
        st.store[c] = self.upd(self.cell(st, c), path, v) if path else v

    def pmap(self, p, f):
        """Apply f to the leaves of a conditional pointer."""
        if p.op == 'ite':
            return self.W.ite(p.args[0], self.pmap(p.args[1], f), self.pmap(p.args[2], f))
        if p is self.W.UNDEF:
            return p
        return f(p)

    def place_ptr(self, st, fr, place):
        """Address (and type) of a MIR place."""
        W = self.W
        local, projs = place
        fid, body = fr
        p = W.mk('ptr', (fid, local), ())
        t = body['locals'][local]
        for e in projs:
            if e == '*':
                p = self.load(st, p)
                d = self.tk(t)
                t2 = d.get('e')
                if t2 is None and d['k'] == 'adt':     # Box
                    t2 = d['args'][0] if d.get('args') else None
                if p.op not in ('ptr', 'slice', 'ite') and p is not W.UNDEF:
                    q = p
                    p = W.mk('ptr', ('op', q), ())
                    if ('op', q) not in self.opaque_cells and ('op', q) not in st.store:
                        self.opaque_cells[('op', q)] = self.mat(t2, W.mk('deref', q)) if t2 is not None else W.mk('deref', q)
                t = t2
            elif e[0] == 'f':
                pe = ('f', e[1], e[2])
                p = self.pmap(p, lambda q: self.addpath(q, pe))
                t = e[2]
            elif e[0] == 'v':
                pe = ('v', e[1])
                p = self.pmap(p, lambda q: self.addpath(q, pe))
            elif e[0] == 'i':
                idx = st.store.get((fid, e[1]), W.UNDEF)
                p = self.pmap(p, lambda q: self.index_ptr(st, q, idx))
                t = self.tk(t)['e']
            elif e[0] == 'ci':
                off, _, fe = e[1], e[2], e[3]

                def g(q):
                    if fe:
                        ln = q.args[2] if q.op == 'slice' else W.I(self.arr_len(st, q))
                        i = W.add(ln, W.I(off), -1)
                        if q.op == 'slice':
                            i = W.add(i, q.args[1], -1)
                        return self.index_ptr(st, q, i)
                    return self.index_ptr(st, q, W.I(off))
                p = self.pmap(p, g)
                t = self.tk(t)['e']
            elif e[0] == 'sub':
                fro, to, fe = e[1], e[2], e[3]

                def g(q):
                    if q.op == 'ptr':
                        q = W.mk('slice', q, W.I(0), W.I(self.arr_len(st, q)))
                    s = W.add(q.args[1], W.I(fro))
                    en = W.add(q.args[2], W.I(to), -1) if fe else W.add(q.args[1], W.I(to))
                    return W.mk('slice', q.args[0], s, en)
                p = self.pmap(p, g)
            else:
                raise Unsupported(f'place projection {e}')
        return p, t

    def addpath(self, q, pe):
        if q.op == 'ptr':
            return self.W.mk('ptr', q.args[0], q.args[1] + (pe,))
        raise Unsupported(f'field of {q.op}')

    def arr_len(self, st, q):
        v = self.load(st, q)
        if v.op == 'agg':
            return len(v.args) - 1
        if v.op == 'ite':
            return len(self.W.leaves(v)[0][1].args) - 1
        raise Unsupported('array length of opaque value')

    def index_ptr(self, st, q, idx):
        W = self.W
        if q.op == 'slice':
            base = q.args[0]
            i = W.add(q.args[1], idx)
            return self.pmap(base, lambda bq: W.mk('ptr', bq.args[0], bq.args[1] + (('x', i),)))
        return W.mk('ptr', q.args[0], q.args[1] + (('x', idx),))

    def slice_elem(self, st, s, idx):
        return self.load(st, self.pmap(s, lambda q: self.index_ptr(st, q, idx)))

    def slice_len(self, p):
        W = self.W
        if p.op == 'ite':
            return W.ite(p.args[0], self.slice_len(p.args[1]), self.slice_len(p.args[2]))
        if p.op == 'slice':
            return W.add(p.args[2], p.args[1], -1)
        n = W.mk('len', p, rng=(0, (1 << 63) - 1))
        n.ty = 'int'
        return n

    # ------------------------------------------------------------ integer facts under a path condition
    def facts(self, pc):
        r = self.fact_memo.get(pc)
        if r is not None:
            return r
        W, b = self.W, self.b
        r = {}
        for v in b.support(pc):
            a = W.atoms[v]
            if a.op not in ('ige0', 'ieq0'):
                continue
            c, terms = W.lin_parts(a.args[0])
            key = terms
            at = b.atom(v)
            lo, hi = r.get(key, (-INF, INF))
            if b.AND(pc, b.NOT(at)) == F:
                lo = max(lo, -c)
                if a.op == 'ieq0':
                    hi = min(hi, -c)
            elif b.AND(pc, at) == F and a.op == 'ige0':
                hi = min(hi, -c - 1)
            else:
                continue
            r[key] = (lo, hi)
        self.fact_memo[pc] = r
        return r

    def rng(self, st, n):
        """Range of an integer term under the path condition."""
        W = self.W
        lo, hi = W.range_of(n)
        if n.op == 'ite':
            r = None
            for c, l in W.leaves(n, st.pc):
                a = self.rng_leaf(self.facts(c), l)
                r = a if r is None else (min(r[0], a[0]), max(r[1], a[1]))
            return r if r else (lo, hi)
        fs = self.facts(st.pc)
        if not fs:
            return lo, hi
        return self.rng_leaf(fs, n)

    def rng_leaf(self, fs, n):
        W = self.W
        lo, hi = W.range_of(n)
        if not fs:
            return lo, hi
        c, terms = W.lin_parts(n)
        f = fs.get(terms)
        if f:
            lo, hi = max(lo, f[0] + c), min(hi, f[1] + c)
        neg = tuple((t, -k) for t, k in terms)
        f = fs.get(neg)
        if f:
            lo, hi = max(lo, c - f[1]), min(hi, c - f[0])
        l2 = h2 = c
        for t, k in terms:
            a, b2 = W.range_of(t)
            g = fs.get(((t, 1),))
            if g:
                a, b2 = max(a, g[0]), min(b2, g[1])
            if k > 0:
                l2 += k * a
                h2 += k * b2
            else:
                l2 += k * b2
                h2 += k * a
        return max(lo, l2), min(hi, h2)

    def ge0(self, st, n):
        lo, hi = self.rng(st, n)
        if lo >= 0:
            return T
        if hi < 0:
            return F
        lv = self.W.ite_leaves(n)
        if lv:
            rs = []
            for c, l in lv:
                cc = self.b.AND(c, st.pc)
                if cc != F:
                    rs.append((c, self.ge0(State(cc, None), l)))
            if len({x for _, x in rs if x > 1}) <= 8:
                r = F
                for c, x in rs:
                    r = self.b.OR(r, self.b.AND(c, x))
                return r
            return self.W.atom(self.W.mk('ige0', n))
        return self.W.ge0(n)

    def eq0(self, st, n):
        lo, hi = self.rng(st, n)
        if lo == hi == 0:
            return T
        if lo > 0 or hi < 0:
            return F
        lv = self.W.ite_leaves(n)
        if lv:
            rs = []
            for c, l in lv:
                cc = self.b.AND(c, st.pc)
                if cc != F:
                    rs.append((c, self.eq0(State(cc, None), l)))
            if len({x for _, x in rs if x > 1}) <= 8:
                r = F
                for c, x in rs:
                    r = self.b.OR(r, self.b.AND(c, x))
                return r
            return self.W.atom(self.W.mk('ieq0', n))
        return self.W.eq0(n)

    # ------------------------------------------------------------ floats: structural intervals
    def frange(self, n):
        """Interval enclosing the finite or NaN value of a float term (NaN is outside every interval)."""
        op = n.op
        inf = math.inf
        if op == 'f':
            x = n.args[0]
            return (inf, -inf) if x == 'nan' else (x, x)
        if n.rng is not None and op != 'ite':
            return n.rng
        r = (-inf, inf)
        if op == 'ffract':
            a = self.frange(n.args[0])
            r = (0.0 if a[0] >= 0 else -1.0, 0.0 if a[1] <= 0 else 1.0)
        elif op == 'fabs':
            a = self.frange(n.args[0])
            m = max(abs(a[0]), abs(a[1]))
            r = (max(0.0, a[0], -a[1]), m)
        elif op in ('fsin', 'fcos'):
            r = (-1.0, 1.0)
        elif op == 'i2f':
            a = self.W.range_of(n.args[0])
            try:
                r = (float(a[0]), float(a[1]))
            except OverflowError:
                pass
        elif op == 'fmul':
            a, c = self.frange(n.args[0]), self.frange(n.args[1])
            ps = [x * y for x in a for y in c]
            if all(p == p for p in ps):
                r = (min(ps), max(ps))
        elif op == 'fadd':
            a, c = self.frange(n.args[0]), self.frange(n.args[1])
            lo, hi = a[0] + c[0], a[1] + c[1]
            r = (lo if lo == lo else -inf, hi if hi == hi else inf)
        elif op == 'fsub':
            a, c = self.frange(n.args[0]), self.frange(n.args[1])
            lo, hi = a[0] - c[1], a[1] - c[0]
            r = (lo if lo == lo else -inf, hi if hi == hi else inf)
        elif op == 'fneg':
            a = self.frange(n.args[0])
            r = (-a[1], -a[0])
        elif op in ('fround', 'ffloor', 'fceil', 'ftrunc'):
            a = self.frange(n.args[0])
            r = (math.floor(a[0]) if abs(a[0]) < inf else a[0], math.ceil(a[1]) if abs(a[1]) < inf else a[1])
        elif op == 'ite':
            a, c = self.frange(n.args[1]), self.frange(n.args[2])
            return (min(a[0], c[0]), max(a[1], c[1]))
        elif op == 'fclamp':
            a, lo, hi = (self.frange(x) for x in n.args)
            r = (max(a[0], lo[0]), min(a[1], hi[1]))
        elif op == 'fmax':
            a, c = self.frange(n.args[0]), self.frange(n.args[1])
            r = (max(a[0], c[0]), max(a[1], c[1]))
        elif op == 'fmin':
            a, c = self.frange(n.args[0]), self.frange(n.args[1])
            r = (min(a[0], c[0]), min(a[1], c[1]))
        if op not in ('sym', 'app', 'fld'):
            n.rng = r
        return r

    def fconstval(self, n):
        """Value of a float term built from constants only, else None."""
        if n.op == 'f':
            return math.nan if n.args[0] == 'nan' else n.args[0]
        if n.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.fconstval(n.args[0])
            if a is None:
                return None
            c = self.fconstval(n.args[1])
            if c is None:
                return None
            if n.op == 'fadd':
                return a + c
            if n.op == 'fsub':
                return a - c
            if n.op == 'fmul':
                return a * c
            return a / c if c else math.copysign(math.inf, a) if a else math.nan
        if n.op == 'fneg':
            a = self.fconstval(n.args[0])
            return None if a is None else -a
        if n.op == 'i2f' and n.args[0].op == 'i':
            return float(n.args[0].args[0])
        return None

    def fl(self, op, *a):
        n = self.W.mk(op, *a)
        n.ty = 'float'
        return n

    def fcmp(self, op, a, c):
        """BDD of a float comparison."""
        W, b = self.W, self.b
        if op == 'Gt':
            return self.fcmp('Lt', c, a)
        if op == 'Ge':
            return self.fcmp('Le', c, a)
        if op == 'Ne':
            return b.NOT(self.fcmp('Eq', a, c))
        x, y = self.fconstval(a), self.fconstval(c)
        if x is not None and y is not None:
            return T if {'Lt': x < y, 'Le': x <= y, 'Eq': x == y}[op] else F
        # conditional operands: compare case by case; absolute values: compare both signs
        for u, v, sw in ((a, c, False), (c, a, True)):
            if u.op == 'ite':
                lv = W.leaves(u)
                if len(lv) <= 4:
                    r = F
                    for g, l in lv:
                        r = b.OR(r, b.AND(g, self.fcmp(op, v, l) if sw else self.fcmp(op, l, v)))
                    return r
            if u.op == 'fabs' and (y if u is a else x) is not None and (y if u is a else x) >= 0 and op in ('Lt', 'Le'):
                m = self.fl('fneg', v) if v.op != 'f' else self.fconst(-v.args[0])
                if sw:
                    return b.OR(self.fcmp(op, v, u.args[0]), self.fcmp(op, u.args[0], m))
                return b.AND(self.fcmp(op, u.args[0], v), self.fcmp(op, m, u.args[0]))
        if op in ('Lt', 'Le'):
            ra, rc = self.frange(a), self.frange(c)
            if ra[0] > rc[1] or (op == 'Lt' and ra[0] == rc[1]):
                return F
        if op == 'Eq':
            if a.id > c.id:
                a, c = c, a
            return W.atom(W.mk('feq', a, c))
        return W.atom(W.mk('flt' if op == 'Lt' else 'fle', a, c))

    # ------------------------------------------------------------ integers
    def wrap(self, st, n, t):
        W = self.W
        lo, hi = self.int_range(t)
        a, c = self.rng(st, n)
        if a >= lo and c <= hi:
            return n
        m = hi - lo + 1

        def f(x):
            return (x - lo) % m + lo
        r = W.map_int(n, f, 'wrap')
        if r is not None:
            return r
        return W.mk('wrap', n, lo, hi, rng=(lo, hi), ty='int')

    def int_bin(self, st, op, a, c, t):
        """Mathematical result of an integer operation (not wrapped)."""
        W = self.W
        if op == 'Add':
            return W.add(a, c)
        if op == 'Sub':
            return W.add(a, c, -1)
        if op == 'Mul':
            if a.op == 'i':
                return W.scale(c, a.args[0])
            if c.op == 'i':
                return W.scale(a, c.args[0])
            for x, y in ((a, c), (c, a)):
                lv = W.ite_leaves(x)
                if lv:
                    rs = [self.int_bin(st, 'Mul', l, y, t) for _, l in lv]
                    return W.select([(g, r) for (g, _), r in zip(lv, rs)])
            x, y = sorted((a, c), key=lambda n: n.id)
            ra, rc = self.rng(st, a), self.rng(st, c)
            ps = [p * q for p in ra for q in rc]
            return W.mk('imul', x, y, rng=(max(min(ps), -INF), min(max(ps), INF)), ty='int')
        if c.op == 'i':
            k = c.args[0]
            lo, hi = self.int_range(t)
            bits = (hi - lo).bit_length()

            def tdiv(x, y):
                q = abs(x) // abs(y)
                return q if (x >= 0) == (y >= 0) else -q
            if op in ('Div', 'Rem') and k == 0:
                return W.mk('undefdiv', a, rng=(lo, hi), ty='int')
            fs = {
                'Div': lambda x: tdiv(x, k), 'Rem': lambda x: x - tdiv(x, k) * k,
                'BitAnd': lambda x: x & k, 'BitOr': lambda x: x | k, 'BitXor': lambda x: x ^ k,
                'Shl': lambda x: x << (k % bits), 'Shr': lambda x: x >> (k % bits),
            }
            r = W.map_int(a, fs[op], op)
            if r is not None:
                return r
            al, ah = self.rng(st, a)
            if op == 'Shl':
                return W.scale(a, 1 << (k % bits))
            if op == 'Shr' and al >= 0:
                return self.int_bin(st, 'Div', a, W.I(1 << (k % bits)), t)
            if op == 'BitAnd' and al >= 0 and k >= 0 and (k + 1) & k == 0:
                return self.int_bin(st, 'Rem', a, W.I(k + 1), t)
            if op in ('Rem', 'Div') and k > 0 and 0 <= al and ah < 2 * k and a.op == 'f2i':
                # rounded up to k at most: the quotient is 0 or 1
                c = W.ge0(W.add(a, W.I(k), -1))
                return W.ite(c, W.I(1), W.I(0)) if op == 'Div' else W.ite(c, W.add(a, W.I(k), -1), a)
            if op == 'Rem' and k > 0:
                if al >= 0:
                    if ah < k:
                        return a
                    # reduce every summand modulo k
                    cc, terms = W.lin_parts(a)
                    ok = True
                    d = {}
                    for x, q in terms:
                        if x.op == 'irem' and x.args[1] == k and W.range_of(x.args[0])[0] >= 0:
                            x = x.args[0]
                            for y, q2 in W.lin_parts(x)[1]:
                                d[y] = d.get(y, 0) + q * q2
                            cc += q * W.lin_parts(x)[0]
                        else:
                            d[x] = d.get(x, 0) + q
                    acc = {}
                    for x, q in d.items():
                        bt = W.byte_table(x)
                        if bt:
                            s, tab = bt
                            tab = range(256) if tab is None else tab
                            acc[W.mk('tab', s, tuple((q * v) % k for v in tab))] = 1
                        elif W.range_of(x)[0] >= 0:
                            acc[x] = q % k
                        else:
                            ok = False
                    if ok:
                        a2 = W.lin(cc % k, acc)
                        if a2.op == 'i':
                            return W.I(a2.args[0] % k)
                        # tables may have been re-based; make the constant canonical
                        c2, t2 = W.lin_parts(a2)
                        a2 = W.lin(c2 % k, dict(t2))
                        return W.mk('irem', a2, k, rng=(0, k - 1), ty='int')
                    return W.mk('irem', a, k, rng=(0, k - 1), ty='int')
                return W.mk('irem', a, k, rng=(-(k - 1), k - 1), ty='int')
            if op == 'Div' and k > 0:
                r = (tdiv(al, k) if al > -INF else -INF, tdiv(ah, k) if ah < INF else INF)
                if al >= 0:
                    # (k*x + r) / k with 0 <= r < k
                    cc, terms = W.lin_parts(a)
                    q = {x: v // k for x, v in terms if v % k == 0}
                    rest = {x: v for x, v in terms if v % k}
                    rem = W.lin(cc % k, rest)
                    if q and W.range_of(rem)[0] >= 0 and W.range_of(rem)[1] < k:
                        return W.lin(cc // k, q)
                    return W.mk('idiv', a, k, rng=r, ty='int')
                return W.mk('idiv', a, k, rng=r, ty='int')
            rg = (lo, hi)
            if op == 'BitAnd' and k >= 0:
                rg = (0, k)
            return W.mk('i' + op.lower(), a, c, rng=rg, ty='int')
        if a.op == 'i' or True:
            lv = W.ite_leaves(c)
            if lv and all(l.op == 'i' for _, l in lv):
                return W.select([(g, self.int_bin(st, op, a, l, t)) for g, l in lv])
        sa, sc = W.single_byte(a), W.single_byte(c)
        if a.op == 'i' and sc and op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.int_bin(st, op, c, a, t)
        if op in ('BitAnd', 'BitOr', 'BitXor') and a.op == 'i':
            return self.int_bin(st, op, c, a, t)
        if sa and sc and sa[0] is sc[0] and op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op]
            return W.from_table(sa[0], [f(x, y) for x, y in zip(sa[1], sc[1])])
        return W.mk('i' + op.lower(), a, c, rng=self.int_range(t), ty='int')

    def binop(self, st, op, a, c, t, ta):
        """t: result type; ta: operand type"""
        W, b = self.W, self.b
        U = W.UNDEF
        if a is U or c is U:
            return U
        d = self.tk(ta)
        k = d['k']
        if k == 'float':
            fo = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}.get(op)
            if fo:
                return self.fl(fo, a, c)
            return W.B(self.fcmp(op, a, c))
        if k == 'bool':
            x, y = a.args[0], c.args[0]
            if op == 'BitAnd':
                return W.B(b.AND(x, y))
            if op == 'BitOr':
                return W.B(b.OR(x, y))
            if op in ('BitXor', 'Ne'):
                return W.B(b.ite(x, b.NOT(y), y))
            if op == 'Eq':
                return W.B(b.ite(x, y, b.NOT(y)))
            if op == 'Lt':
                return W.B(b.AND(b.NOT(x), y))
            if op == 'Le':
                return W.B(b.OR(b.NOT(x), y))
            if op == 'Gt':
                return W.B(b.AND(x, b.NOT(y)))
            if op == 'Ge':
                return W.B(b.OR(x, b.NOT(y)))
        if k in ('int', 'char'):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                e = W.add(a, c, -1)
                if op == 'Eq':
                    return W.B(self.eq0(st, e))
                if op == 'Ne':
                    return W.B(b.NOT(self.eq0(st, e)))
                if op == 'Lt':
                    return W.B(b.NOT(self.ge0(st, e)))
                if op == 'Ge':
                    return W.B(self.ge0(st, e))
                m = W.scale(e, -1)
                if op == 'Le':
                    return W.B(self.ge0(st, m))
                if op == 'Gt':
                    return W.B(b.NOT(self.ge0(st, m)))
                lt, eq = b.NOT(self.ge0(st, e)), self.eq0(st, e)
                o = lambda i: W.mk('agg', i)
                return W.ite(lt, o(0), W.ite(eq, o(1), o(2)))
            if op.endswith('WithOverflow'):
                r = self.int_bin(st, op[:-12], a, c, ta)
                lo, hi = self.int_range(ta)
                w = self.wrap(st, r, ta)
                if w is r:
                    return W.mk('agg', None, r, W.FALSE)
                ov = b.NOT(b.AND(self.ge0(st, W.add(r, W.I(lo), -1)), self.ge0(st, W.add(W.I(hi), r, -1))))
                return W.mk('agg', None, W.ite(ov, w, r), W.B(ov))
            if op.endswith('Unchecked'):
                return self.int_bin(st, op[:-9], a, c, ta)
            r = self.int_bin(st, op, a, c, ta)
            return self.wrap(st, r, ta)
        if op == 'Offset':
            return self.pmap(a, lambda q: self.ptr_off(q, c))
        if op in ('Eq', 'Ne'):
            e = T if a is c else W.atom(W.mk('peq', *sorted((a, c), key=lambda n: n.id)))
            return W.B(e if op == 'Eq' else b.NOT(e))
        if k == 'tuple' or k == 'never':
            return W.TRUE if op in ('Eq', 'Le', 'Ge') else W.FALSE
        return self.mat(t, W.mk('bin', op, a, c))

    def ptr_off(self, q, n):
        if q.op == 'ptr' and q.args[1] and q.args[1][-1][0] == 'x':
            return self.W.mk('ptr', q.args[0], q.args[1][:-1] + (('x', self.W.add(q.args[1][-1][1], n)),))
        raise Unsupported('pointer offset')

    def cast(self, st, kind, v, t, ft):
        W = self.W
        U = W.UNDEF
        if v is U:
            return U
        d, fd = self.tk(t), self.tk(ft)
        if kind == 'IntToInt':
            if v.op == 'B' or fd['k'] == 'bool':
                return W.ite(v.args[0], W.I(1), W.I(0))
            if v.op == 'agg' or (fd['k'] == 'adt'):
                v = self.discr(v, ft)
            return self.wrap(st, v, t)
        if kind == 'IntToFloat':
            n = self.fl('i2f', v)
            return n
        if kind == 'FloatToInt':
            return self.f2i(st, v, t)
        if kind == 'FloatToFloat':
            return v
        if kind.startswith('PointerCoercion:Unsize'):
            e = self.tk(fd['e']) if fd['k'] in ('ref', 'ptr') else None
            if e and e['k'] == 'array':
                return self.pmap(v, lambda q: W.mk('slice', q, W.I(0), W.I(e['n'])))
            return v
        if kind.startswith('PointerCoercion'):
            if d['k'] == 'fnptr' and fd['k'] == 'fndef':
                return W.mk('fn', fd.get('inst'), fd.get('path'))
            if d['k'] == 'fnptr' and fd['k'] == 'closure':
                return W.mk('fn', fd.get('inst'), 'closure')
            return v
        if kind in ('PtrToPtr', 'Transmute'):
            if fd['k'] in ('ref', 'ptr') and d['k'] in ('ref', 'ptr'):
                fe, de = self.tk(fd['e']), self.tk(d['e'])
                if fe['k'] in ('slice', 'str') and de['k'] not in ('slice', 'str', 'dyn') and kind == 'PtrToPtr':
                    return self.pmap(v, lambda q: self.index_ptr(st, q, W.I(0)) if q.op == 'slice' else q)
                if fe['k'] == 'array' and kind == 'PtrToPtr' and de['k'] != 'array':
                    return self.pmap(v, lambda q: self.index_ptr(st, q, W.I(0)) if q.op == 'ptr' else q)
                return v
            if fd['k'] == 'float' and d['k'] == 'int':
                return W.mk('bits', v, rng=self.int_range(t), ty='int')
            if fd['k'] == 'int' and d['k'] == 'float':
                if v.op == 'bits':
                    return v.args[0]
                return self.fl('frombits', v)
            if d['k'] in ('int', 'char') and fd['k'] in ('int', 'char', 'bool'):
                if v.op == 'B':
                    return W.ite(v.args[0], W.I(1), W.I(0))
                return self.wrap(st, v, t)
            # one-field wrappers (NonNull, Unique, Alignment, ...)
            if v.op in ('ptr', 'slice', 'ite') and d['k'] == 'adt' and d['adt'] == 'struct' and len(d['variants'][0]['fields']) >= 1:
                return W.mk('agg', None, self.cast(st, 'Transmute', v, d['variants'][0]['fields'][0][1], ft), *[W.UNIT] * (len(d['variants'][0]['fields']) - 1))
            if v.op == 'agg' and v.args[0] is None and fd['k'] == 'adt' and d['k'] in ('ref', 'ptr') and len(v.args) >= 2:
                return self.cast(st, 'Transmute', v.args[1], t, fd['variants'][0]['fields'][0][1])
            if self.same_shape(t, ft):
                return v
            return self.mat(t, W.mk('transmute', v, d.get('s')))
        return self.mat(t, W.mk('cast', kind, v))

    def same_shape(self, t, ft):
        return self.tk(t).get('path') is not None and self.tk(t).get('path') == self.tk(ft).get('path')

    def f2i(self, st, v, t):
        W = self.W
        lo, hi = self.int_range(t)
        if v.op == 'ite':
            return W.ite(v.args[0], self.f2i(st, v.args[1], t), self.f2i(st, v.args[2], t))
        c = self.fconstval(v)
        if c is not None:
            return W.I(0 if c != c else max(lo, min(hi, int(c) if abs(c) < 1e300 else (hi if c > 0 else lo))))
        if v.op == 'i2f':
            a, z = W.range_of(v.args[0])
            if a >= lo and z <= hi and max(abs(a), abs(z)) <= 1 << 53:
                return v.args[0]
        a, z = self.frange(v)
        rl = lo if a == -math.inf else max(lo, min(hi, math.trunc(a)))
        rh = hi if z == math.inf else max(lo, min(hi, math.trunc(z)))
        rl, rh = min(rl, 0) if rl <= 0 else min(rl, 0), max(rh, 0)
        n = W.mk('f2i', v, lo, hi, rng=(rl, rh), ty='int')
        return n

    def unop(self, st, op, v, t):
        W, b = self.W, self.b
        if v is W.UNDEF:
            return v
        k = self.tk(t)['k']
        if op == 'Not':
            if k == 'bool':
                return W.B(b.NOT(v.args[0]))
            lo, hi = self.int_range(t)
            return W.add(W.I(hi if lo == 0 else -1), v, -1)
        if op == 'Neg':
            if k == 'float':
                return self.fl('fneg', v)
            return self.wrap(st, W.scale(v, -1), t)
        if op == 'PtrMetadata':
            return self.slice_len(v)
        raise Unsupported(f'unary {op}')

    def discr(self, v, t):
        W = self.W
        if v is W.UNDEF:
            return v
        if v.op == 'ite':
            return W.ite(v.args[0], self.discr(v.args[1], t), self.discr(v.args[2], t))
        d = self.tk(t)
        if v.op == 'agg':
            if v.args[0] is None:
                return W.I(0)
            return W.I(int(d['variants'][v.args[0]]['discr']))
        vs = d.get('variants')
        if vs:
            acc = W.I(int(vs[-1]['discr']))
            for i in reversed(range(len(vs) - 1)):
                acc = W.ite(W.atom(W.mk('isvar', v, i)), W.I(int(vs[i]['discr'])), acc)
            return acc
        return W.mk('discr', v, ty='int')

    # ------------------------------------------------------------ evaluation
    def operand(self, st, fr, o):
        if o[0] in ('cp', 'mv'):
            p, t = self.place_ptr(st, fr, o[1])
            return self.load(st, p), t
        if o[0] == 'c':
            key = (id(o[1]), o[2])
            v = self.consts.get(key)
            if v is None:
                v = self.const(o[1], o[2])
                self.consts[key] = v
            return v, o[2]
        if o[0] == 'rt':
            return self.W.TRUE if 'Overflow' in str(o[1]) or 'Ub' in str(o[1]) else self.W.FALSE, None
        raise Unsupported(f'operand {o}')

    def rvalue(self, st, fr, r):
        W = self.W
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])[0]
        if k in ('ref', 'rawptr'):
            p, t = self.place_ptr(st, fr, r[1])
            return p
        if k == 'bin':
            a, ta = self.operand(st, fr, r[2])
            c, _ = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, c, r[4], ta)
        if k == 'un':
            v, t = self.operand(st, fr, r[2])
            return self.unop(st, r[1], v, t)
        if k == 'cast':
            v, ft = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3], r[4] if len(r) > 4 and r[4] is not None else ft)
        if k == 'discr':
            p, t = self.place_ptr(st, fr, r[1])
            return self.discr(self.load(st, p), t)
        if k == 'agg':
            info = r[1]
            xs = [self.operand(st, fr, o)[0] for o in r[2]]
            if info['k'] == 'adt':
                d = self.tk(info['ty'])
                v = info['v'] if d['adt'] == 'enum' else None
                return W.mk('agg', v, *xs)
            if info['k'] == 'rawptr':
                p, m = xs
                if m is W.UNIT:
                    return p

                def g(q):
                    if q.op == 'ptr' and q.args[1] and q.args[1][-1][0] == 'x':
                        i = q.args[1][-1][1]
                        return W.mk('slice', W.mk('ptr', q.args[0], q.args[1][:-1]), i, W.add(i, m))
                    return W.mk('slice', q, W.I(0), m)
                return self.pmap(p, g)
            return W.mk('agg', None, *xs)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])[0]
            return W.mk('agg', None, *[v] * r[2])
        if k == 'tls':
            return W.mk('ptr', ('static', r[1]), ())
        raise Unsupported(f'rvalue {r[0]} {r[1] if len(r) > 1 else ""}')

    # ------------------------------------------------------------ obligations
    def panic(self, st, kind, loc, detail, cond):
        g = self.b.AND(st.pc, cond)
        if g == F:
            return
        where = [self.P.insts[i]['name'] for i in self.stack]
        own = None
        for i in reversed(self.stack):
            if self.P.insts[i]['crate'] in self.P.own:
                own = self.P.insts[i]
                break
        self.panics.append(dict(kind=kind, fn=where[-1] if where else '', own=own['name'] if own else '', loc=loc, own_loc=self.own_loc(), detail=detail, guard=g, stack=where))

    def own_loc(self):
        for i, l in zip(reversed(self.stack), reversed(self.trail)):
            if self.P.insts[i]['crate'] == 'sgp4':
                return l
        return self.trail[-1] if self.trail else None

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s.pc != F]
        if not states:
            return None
        acc = states[0]
        if len(states) == 1:
            return acc
        W, b = self.W, self.b
        acc = State(acc.pc, dict(acc.store), acc.hist)
        for s in states[1:]:
            pc = b.OR(acc.pc, s.pc)
            # the branch conditions that separate the two, free of what held before the branch
            x, y, cx, cy = acc.hist, s.hist, T, T
            while x is not y:
                if y is None or (x is not None and x[2] >= y[2]):
                    cx = b.AND(cx, x[1])
                    x = x[0]
                else:
                    cy = b.AND(cy, y[1])
                    y = y[0]
            if b.AND(cx, cy) == F:
                g = cx
                u = b.OR(cx, cy)
                acc.hist = x if u == T else (x, u, x[2] + 1 if x else 1)
            else:
                g = b.restrict(acc.pc, pc)
                acc.hist = x
            A, B = acc.store, s.store
            if B is not A:
                for c in [c for c in A if c[0] in OUTSIDE and c not in B]:
                    v = self.cell(s, c)
                    if v is not A[c]:
                        A[c] = W.ite(g, A[c], v)
                for c, v in B.items():
                    o = A.get(c)
                    if o is None and c[0] in OUTSIDE:
                        o = self.cell(acc, c)
                    if o is None:
                        A[c] = v
                    elif o is not v:
                        A[c] = W.ite(g, o, v)
            acc.pc = pc
        return acc

    # ------------------------------------------------------------ control flow
    def run_block(self, st, fr, inst_id, bi):
        """Execute one block; returns list of (target, state); target None = return."""
        W, b = self.W, self.b
        body = fr[1]
        blk = body['blocks'][bi]
        self.stats['blocks'] += 1
        own = self.P.insts[inst_id]['name'] if self.P.insts[inst_id]['crate'] == 'sgp4' else None
        for s in blk['s']:
            self.stats['statements'] += 1
            k = s[0]
            if k == '=':
                self.trail[-1] = s[3]
                if own:
                    W.cur = (own, s[3])
                v = self.rvalue(st, fr, s[2])
                if not s[1][1]:
                    st.store[(fr[0], s[1][0])] = v
                else:
                    p, _ = self.place_ptr(st, fr, s[1])
                    self.storep(st, p, v)
            elif k == 'setd':
                p, t = self.place_ptr(st, fr, s[1])
                v = self.load(st, p)
                if v.op == 'agg':
                    self.storep(st, p, W.mk('agg', s[2], *v.args[1:]))
                else:
                    self.storep(st, p, W.mk('agg', s[2]))
            elif k == 'copy':
                src = self.operand(st, fr, s[1])[0]
                dst = self.operand(st, fr, s[2])[0]
                n = self.operand(st, fr, s[3])[0]
                self.copy_elems(st, src, dst, n)
            elif k == 'assume':
                pass
            else:
                raise Unsupported(f'statement {k}')
        t = blk['t']
        k = t['k']
        loc = t.get('l')
        self.trail[-1] = loc
        if own and loc:
            W.cur = (own, loc)
        if k == 'goto' or k == 'drop':
            return [(t['t'], st)]
        if k == 'ret':
            return [(None, st)]
        if k == 'unreach':
            if any(self.P.insts[i]['path'].endswith(('::unwrap_unchecked', '::unreachable_unchecked')) for i in self.stack[-3:]):
                self.panic(st, 'unchecked-unreachable', loc, [], T)
            return []
        if k == 'switch':
            self.stats['branches'] += 1
            v, ty = self.operand(st, fr, t['op'])
            if v is W.UNDEF:
                return []
            out = []
            rest, free = st.pc, T
            for val, tgt in t['vs']:
                val = int(val)
                if v.op == 'B':
                    c = v.args[0] if val else b.NOT(v.args[0])
                else:
                    lo, hi = self.int_range(ty)
                    if val > hi:
                        val -= hi - lo + 1
                    c = self.eq0(State(rest, None), W.add(v, W.I(val), -1))
                pc = b.AND(rest, c)
                if pc != F:
                    out.append((tgt, pc, b.AND(free, c)))
                rest = b.AND(rest, b.NOT(c))
                free = b.AND(free, b.NOT(c))
                if rest == F:
                    break
            if rest != F and t.get('else') is not None:
                out.append((t['else'], rest, free))
            if len(out) == 1:
                st.pc = out[0][1]
                return [(out[0][0], st)]
            return [(tgt, st.copy(pc, c)) for tgt, pc, c in out]
        if k == 'assert':
            self.stats['asserts'] += 1
            v, _ = self.operand(st, fr, t['c'])
            if v is W.UNDEF:
                return []
            c = v.args[0] if v.op == 'B' else W.atom(v)
            if not t['e']:
                c = b.NOT(c)
            if b.AND(st.pc, b.NOT(c)) != F:
                self.panic(st, 'assert:' + str(t['m']), loc, [show(self.operand(st, fr, o)[0], 5) for o in t.get('ops', [])], b.NOT(c))
                st.pc = b.AND(st.pc, c)
                if st.pc == F:
                    return []
                if t['c'][0] in ('cp', 'mv') and t['c'][1][1]:
                    cl = (fr[0], t['c'][1][0])
                    if cl in st.store:
                        st.store[cl] = W.restrict(st.store[cl], st.pc)
            return [(t['t'], st)]
        if k == 'call':
            return self.call_term(st, fr, t, loc)
        raise Unsupported(f'terminator {k}')

    def copy_elems(self, st, src, dst, n):
        raise Unsupported('copy_nonoverlapping')

    def call_term(self, st, fr, t, loc):
        W = self.W
        self.stats['calls'] += 1
        f, fty = self.operand(st, fr, t['f'])
        if f.op != 'fn' and fty is not None and self.tk(fty)['k'] == 'fndef':
            # the function is determined by its (zero-sized) type
            f = W.mk('fn', self.tk(fty).get('inst'), self.tk(fty).get('path'))
        args = [self.operand(st, fr, a)[0] for a in t['args']]
        at = t['at']
        dp = t['d']
        dty = t['dt']
        path = None
        if t['f'][0] == 'c':
            path = t['f'][1].get('path') if isinstance(t['f'][1], dict) else None
        name = f.args[1] if f.op == 'fn' and len(f.args) > 1 else path
        if name and name.endswith(UNCHECKED) and self.stack and self.P.insts[self.stack[-1]]['crate'] == 'sgp4':
            self.unchecked_calls.append((tuple(self.trail[-1]) if isinstance(self.trail[-1], list) else self.trail[-1], name.rpartition('::')[2]))
        r = self.call_value(st, f, args, at, dty, path, loc)
        if r is None or st.pc == F or t.get('t') is None:
            return []
        p, _ = self.place_ptr(st, fr, dp)
        if not dp[1]:
            st.store[(fr[0], dp[0])] = r
        else:
            self.storep(st, p, r)
        return [(t['t'], st)]

    def call_value(self, st, f, args, at, dty, path, loc):
        """Call a function value. Returns the result or None when the call diverges."""
        W, b = self.W, self.b
        if f.op == 'ite':
            # conditional function value: run both and merge
            c = f.args[0]
            s1, s2 = st.copy(b.AND(st.pc, c), c), st.copy(b.AND(st.pc, b.NOT(c)), b.NOT(c))
            res = []
            for s, g in ((s1, f.args[1]), (s2, f.args[2])):
                if s.pc == F:
                    continue
                r = self.call_value(s, g, list(args), at, dty, path, loc)
                if r is not None and s.pc != F:
                    s.store[('tmp', 'r')] = r
                    res.append(s)
            m = self.merge(res)
            if m is None:
                st.pc = F
                return None
            st.pc, st.store, st.hist = m.pc, m.store, m.hist
            return st.store.pop(('tmp', 'r'))
        if f.op == 'fn' and f.args[0] is not None:
            args = self.with_env(st, f.args[0], args, at)
            return self.call_inst(st, f.args[0], args, at, dty, path, loc)
        # unknown function value: uninterpreted
        return self.mat(dty, W.mk('callptr', f, *[self.content(st, a) for a in args]))

    def with_env(self, st, iid, args, at):
        """Arguments of a closure that captures nothing and is called through a function pointer."""
        body = self.P.insts[iid].get('body')
        if not body or len(args) + 1 >= len(body['locals']) or '{closure#' not in self.P.insts[iid]['path']:
            return args
        d = self.tk(body['locals'][1])
        e = self.tk(d['e']) if d['k'] == 'ref' else d
        if e['k'] != 'closure' or e.get('inst') != iid or at and at[0] in (body['locals'][1],):
            return args
        env = self.W.mk('agg', None)
        if d['k'] == 'ref':
            self.nframe += 1
            st.store[('clo', self.nframe)] = env
            env = self.W.mk('ptr', ('clo', self.nframe), ())
        return [env] + args

    def call_inst(self, st, iid, args, at, dty, path, loc):
        inst = self.P.insts[iid]
        W = self.W
        h = self.native_cache.get(iid, 0)
        if h == 0:
            h = self.find_native(inst)
            self.native_cache[iid] = h
        if h is not None:
            self.native_used[inst['path']] = self.native_used.get(inst['path'], 0) + 1
            r = h(self, st, inst, args, at, dty, loc)
            if r is not NotImplemented:
                return r
        body = inst.get('body')
        if body is None:
            return self.external(st, inst, args, at, dty, loc)
        fargs = args
        if '{closure' in inst['path'] and path and len(args) == 2 and body['argc'] != len(args) or \
                ('{closure' in inst['path'] and path and path.split('::')[-1] in ('call', 'call_mut', 'call_once') and inst['kind'] == 'item' and not body.get('spread') and len(args) == 2 and self.tk(at[1])['k'] == 'tuple'):
            tup = args[1]
            fargs = [args[0]] + [self.proj(tup, ('f', i, None)) for i in range(body['argc'] - 1)]
        if len(self.stack) > 120:
            raise Recursion(inst['name'])
        return self.exec_fn(st, iid, fargs)

    def exec_fn(self, st, iid, args):
        inst = self.P.insts[iid]
        body = inst['body']
        self.funcs[iid] = self.funcs.get(iid, 0) + 1
        self.nframe += 1
        fid = self.nframe
        fr = (fid, body)
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
        self.stack.append(iid)
        self.trail.append(inst.get('loc'))
        try:
            blocks = frozenset(i for i, bl in enumerate(body['blocks']) if not bl['c'])
            exits = self.exec_region(st, fr, iid, blocks, 0)
        finally:
            self.stack.pop()
            self.trail.pop()
        m = self.merge(exits.get(None, []))
        if m is None:
            st.pc = F
            return None
        r = m.store.get((fid, 0), self.W.UNIT)
        st.pc = m.pc
        st.hist = m.hist
        st.store = {c: v for c, v in m.store.items() if c[0] != fid}
        return r

    def exec_region(self, st, fr, iid, blocks, entry):
        order = self.P.region(iid, blocks, entry)
        pending = {entry: [st]}
        exits = {}

        def route(outs):
            for tgt, s in outs:
                if tgt is not None and tgt in blocks and tgt != entry:
                    pending.setdefault(tgt, []).append(s)
                else:
                    exits.setdefault(tgt, []).append(s)
        for blk, comp in order:
            ss = pending.pop(blk, None)
            if not ss:
                continue
            s = self.merge(ss)
            if s is None:
                continue
            if comp is None:
                route(self.run_block(s, fr, iid, blk))
            else:
                ex = self.exec_loop(s, fr, iid, comp, blk)
                for tgt, sl in ex.items():
                    route([(tgt, x) for x in sl])
        return exits

    @staticmethod
    def arms(n):
        """Values a conditional can take, conditions ignored."""
        out, seen, st = [], set(), [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                st += [x.args[1], x.args[2]]
            else:
                out.append(x)
        return out

    def progress(self, a, c, d=0):
        """Does the value advance through constants from a to c?"""
        if a is c or d > 8:
            return False
        if a.op == 'i' and c.op == 'i':
            return True
        if a.op == 'f' and c.op == 'f':
            return True
        if a.op == 'B' and c.op == 'B':
            return False
        if a.op == 'lin' or c.op == 'lin':
            return a.op in ('lin', 'i') and c.op in ('lin', 'i') and self.W.lin_parts(a)[1] == self.W.lin_parts(c)[1]
        if a.op == 'ite' or c.op == 'ite':
            la, lc = self.arms(a), self.arms(c)
            ints_a = {l.args[0] for l in la if l.op == 'i'}
            ints_c = {l.args[0] for l in lc if l.op == 'i'}
            if ints_c - ints_a:
                return True
            if {len(l.args) for l in lc if l.op == 'liter'} - {len(l.args) for l in la if l.op == 'liter'}:
                return True
            return any(self.progress(x, y, d + 1) for x in la[-1:] for y in lc[-1:])
        if a.op == c.op and len(a.args) == len(c.args):
            return any(self.progress(x, y, d + 1) for x, y in zip(a.args, c.args) if isinstance(x, Node) and isinstance(y, Node))
        if a.op == c.op and a.op in ('lines', 'vecit', 'liter'):
            return True
        return False

    def exec_loop(self, st, fr, iid, comp, header):
        exits = {}
        cur = st
        stale = 0
        it = 0
        entry_state = st.copy()
        st0 = st.pc
        npan = len(self.panics)
        while True:
            before, pc = dict(cur.store), cur.pc
            outs = self.exec_region(cur, fr, iid, comp, header)
            back = self.merge(outs.pop(header, []))
            for tgt, sl in outs.items():
                exits.setdefault(tgt, []).extend(sl)
            it += 1
            self.stats['unrolled'] += 1
            if back is None:
                self.unrolled.append((self.P.insts[iid]['path'], self.P.insts[iid]['crate'], it, cur.pc != st0))
                return exits
            adv = any(self.progress(v, back.store[c]) for c, v in before.items() if c in back.store and back.store[c] is not v)
            if not adv and back.pc != pc:   # an iteration fewer inputs reach: ends, as input bits are finitely many
                adv = all(self.W.atoms[v].op == 'bit' for v in self.b.support(back.pc) - self.b.support(st0))
            stale = 0 if adv else stale + 1
            if stale >= 3 or it > self.MAX_UNROLL:
                del self.panics[npan:]
                return self.mu_loop(entry_state, fr, iid, comp, header)
            cur = back

    # ------------------------------------------------------------ fixpoint terms
    def havoc(self, old, new, tag, path, vars_):
        """Replace the leaves that change by loop variables; keep the others."""
        W = self.W
        if old is new:
            return old
        if old is W.UNDEF:
            return old
        if old.op == 'agg' and new.op == 'agg' and old.args[0] == new.args[0] and len(old.args) == len(new.args):
            return W.mk('agg', old.args[0], *[self.havoc(x, y, tag, path + (i,), vars_) for i, (x, y) in enumerate(zip(old.args[1:], new.args[1:]))])
        if old.op == 'ite' and any(l.op == 'agg' for _, l in W.leaves(old)):
            raise Unsupported('loop over conditional structure')
        if old.op == 'B':
            n = W.mk('lv', tag, path)
            vars_[(tag, path)] = n
            return W.B(W.atom(n))
        if old.op == 'slice' and new.op == 'slice' and old.args[0] is new.args[0]:
            return W.mk('slice', old.args[0], self.havoc(old.args[1], new.args[1], tag, path + ('s',), vars_), self.havoc(old.args[2], new.args[2], tag, path + ('e',), vars_))
        n = W.mk('lv', tag, path)
        if n.ty is None:
            n.ty = old.ty or new.ty
            if self.is_int(old):
                n.ty = 'int'
        vars_[(tag, path)] = n
        return n

    def is_int(self, n):
        return n.op in ('i', 'lin', 'byte', 'tab') or n.ty == 'int'

    def leaf_at(self, v, path):
        for p in path:
            if p == 's':
                v = v.args[1]
            elif p == 'e':
                v = v.args[2]
            else:
                v = v.args[1 + p]
        return v

    def mu_loop(self, st, fr, iid, comp, header):
        W, b = self.W, self.b
        self.stats['mu_loops'] += 1
        lid = self.W.fresh_n = self.W.fresh_n + 1
        st.store = {c: W.restrict(v, st.pc) for c, v in st.store.items()}
        hav = {c: v for c, v in st.store.items()}
        vars_ = {}
        for rnd in range(12):
            s = State(T, dict(hav), st.hist)
            # the body is analysed for an arbitrary iteration; only facts on non-loop values are kept
            s.pc = st.pc
            npan = len(self.panics)
            outs = self.exec_region(s, fr, iid, comp, header)
            back = self.merge(outs.get(header, []))
            if back is None:
                break
            nh = {}
            changed = False
            for c in [c for sl in outs.values() for x in sl for c in x.store] + list(back.store):
                if c[0] in OUTSIDE and c not in st.store:
                    st.store[c] = hav[c] = self.cell(st, c)
                    changed = True
            for c, v in st.store.items():
                nv = back.store.get(c, v)
                hv = self.havoc(hav[c], nv, (lid, c), (), vars_) if nv is not hav[c] else hav[c]
                if hv is not hav[c]:
                    # already a loop variable that steps: fine
                    if not self.covered(hav[c], hv):
                        changed = True
                        nh[c] = hv
            if not changed:
                break
            hav.update(nh)
            del self.panics[npan:]
        else:
            raise Unsupported('loop fixpoint did not stabilise')
        info = dict(id=lid, fn=self.P.insts[iid]['name'], path=self.P.insts[iid]['path'], loc=self.P.insts[iid].get('loc'), header=header, entry_pc=st.pc, vars=[], back_pc=F)
        if back is not None:
            info['back_pc'] = back.pc
            for (tag, path), n in vars_.items():
                c = tag[1]
                init = self.leaf_at(st.store[c], path) if self.has_path(st.store[c], path) else None
                step = self.leaf_at(back.store[c], path) if self.has_path(back.store[c], path) else None
                if self.uses_leaf(hav[c], path, n):
                    info['vars'].append((n, init, step))
        self.loops[lid] = info
        ex = {t: sl for t, sl in outs.items() if t != header}
        info['exit_pcs'] = {t: self.bor([x.pc for x in sl]) for t, sl in ex.items()}
        if len(ex) == 1:
            (t, sl), = ex.items()
            m = self.merge(sl)
            info['exit_pc'] = m.pc
            m.pc = st.pc
            m.hist = st.hist
            return {t: [m]}
        # several exits: one of them is taken, so that only what tells them apart matters, and the last one is taken where the others are not
        care = self.bor(info['exit_pcs'].values())
        fixed = self.invariant(info['exit_pcs'], {n for n, _, _ in info['vars']})
        rest = T
        r = {}
        for i, (t, sl) in enumerate(ex.items()):
            m = self.merge(sl)
            if m is None:
                continue
            c = rest if i == len(ex) - 1 else b.AND(rest, fixed[t] if fixed else b.restrict(m.pc, care))
            rest = b.AND(rest, b.NOT(c))
            m.pc = b.AND(st.pc, c)
            m.hist = (st.hist, c, st.hist[2] + 1 if st.hist else 1)
            r[t] = [m]
        return r

    def invariant(self, pcs, vs):
        """Conditions on what the loop does not change that tell its exits apart, or None."""
        W, b = self.W, self.b
        x = self.exclusive(pcs.values())
        memo = {}

        def varies(n):
            if n in vs:
                return True
            if n not in memo:
                memo[n] = False
                memo[n] = any(isinstance(y, Node) and varies(y) or n.op == 'ite' and i == 0 and any(varies(W.atoms[v]) for v in b.support(y))
                              for i, y in enumerate(n.args))
            return memo[n]
        r = {}
        for t, c in pcs.items():
            c = b.AND(c, x)
            for v in list(b.support(c)):
                if varies(W.atoms[v]):
                    c = b.OR(b.cof(c, v, 0), b.cof(c, v, 1))
            if any(b.AND(c, y) != F for y in r.values()):
                return None
            r[t] = c
        return r

    def exclusive(self, cs):
        """Of the tests x < y, y < x and y <= x in the conditions, the first excludes the others."""
        W, b = self.W, self.b
        at = {(n.op, n.args): v for c in cs for v in b.support(c) for n in [W.atoms[v]] if n.op in ('flt', 'fle') and len(n.args) == 2}
        r = T
        for (op, (x, y)), v in at.items():
            for o in ('flt', 'fle'):
                w = at.get((o, (y, x)))
                if op == 'flt' and w is not None and w != v:
                    r = b.AND(r, b.NOT(b.AND(b.atom(v), b.atom(w))))
        return r

    def bor(self, xs):
        r = F
        for x in xs:
            r = self.b.OR(r, x)
        return r

    def has_path(self, v, path):
        try:
            self.leaf_at(v, path)
            return True
        except (IndexError, AttributeError):
            return False

    def uses_leaf(self, v, path, n):
        if not self.has_path(v, path):
            return False
        x = self.leaf_at(v, path)
        return x is n or (x.op == 'B')

    def covered(self, old, new):
        """new differs from old only at leaves of old that are loop variables already."""
        if old is new:
            return True
        if old.op == 'lv':
            return True
        if old.op == 'B' and new.op == 'B':
            sup = self.b.support(old.args[0])
            return len(sup) == 1 and self.W.atoms[next(iter(sup))].op == 'lv'
        if old.op == new.op and len(old.args) == len(new.args) and old.op in ('agg', 'slice'):
            return all(self.covered(x, y) for x, y in zip(old.args, new.args) if isinstance(x, Node))
        return False

    # ------------------------------------------------------------ externals
    def content(self, st, v, d=0):
        """Snapshot of a value with references replaced by what they point to."""
        W = self.W
        if d > 6:
            return v
        if v.op == 'ptr':
            c = v.args[0]
            if c[0] == 'op' and c not in st.store:
                return W.mk('ref', c[1])
            if c[0] in ('static',):
                return v
            return W.mk('ref', self.content(st, self.load(st, v), d + 1))
        if v.op == 'slice':
            base = v.args[0]
            if base.op == 'ptr':
                arr = self.load(st, base)
                if arr.op in ('agg', 'vec') and v.args[1].op == 'i' and v.args[2].op == 'i':
                    xs = (arr.args[1:] if arr.op == 'agg' else arr.args)[v.args[1].args[0]:v.args[2].args[0]]
                    return W.mk('slc', *[self.content(st, x, d + 1) for x in xs])
                if arr.op == 'symarr' and arr.args[0].op.startswith('strtrim') and v.args[1] is W.I(0) and v.args[2].op == 'len' and v.args[2].args[0] is arr.args[0]:
                    return arr.args[0]
                return W.mk('slcv', arr, v.args[1], v.args[2])
            return v
        if v.op == 'ite':
            return W.ite(v.args[0], self.content(st, v.args[1], d), self.content(st, v.args[2], d))
        if v.op == 'agg':
            return W.mk('agg', v.args[0], *[self.content(st, x, d + 1) for x in v.args[1:]])
        return v

    def external(self, st, inst, args, at, dty, loc):
        W = self.W
        p = inst['path']
        d = self.tk(dty)
        if d['k'] == 'adt' and p.rpartition('::')[0] in (d['path'], d['path'].rpartition('::')[0]):
            for vi, v in enumerate(d.get('variants') or []):
                if v['name'] == p.rpartition('::')[2] and len(v['fields']) == len(args):
                    return W.mk('agg', vi if d.get('adt') == 'enum' else None, *args)
        self.externals[p] = self.externals.get(p, 0) + 1
        if self.tk(dty)['k'] == 'never':
            self.panic(st, 'call:' + p, loc, [], T)
            st.pc = F
            return None
        cs = [self.content(st, a) for a in args]
        name = inst['name']
        for i, (a, t) in enumerate(zip(args, at)):
            d = self.tk(t)
            if d['k'] == 'ref' and d.get('mut') and a.op == 'ptr':
                self.storep(st, a, self.mat(d['e'], W.mk('mutapp', name, i, *cs)))
            elif d['k'] == 'ref' and d.get('mut'):
                self.mutate_slice(st, a, self.tk(d['e']).get('e'), lambda j: W.mk('mutapp', name, i, j, *cs))
            elif d['k'] == 'ptr' and d.get('mut') and a.op not in ('i', 'lin'):
                raise Unsupported('raw pointer given to ' + name)
        return self.mat(dty, W.mk('app', name, *cs))

    def mutate_slice(self, st, a, et, value):
        """Every element of a mutable slice handed to an unknown function takes an unknown value."""
        if a.op != 'slice' or a.args[1].op != 'i' or a.args[2].op != 'i' or et is None:
            raise Unsupported('mutable slice given to an unknown function')
        for j in range(a.args[1].args[0], a.args[2].args[0]):
            p = self.index_ptr(st, a, self.W.I(j - a.args[1].args[0]))
            self.storep(st, p, self.mat(et, value(j)))

    def find_native(self, inst):
        h = self.intercept.get(inst['path'])
        if h is not None:
            return h
        return self.natives(inst) if self.natives else None

    # ------------------------------------------------------------ closures from natives
    def call_fn(self, st, f, fty, args, argtys, dty, loc):
        """Call a closure, fn item or fn pointer value from a native."""
        d = self.tk(fty)
        if d['k'] == 'closure':
            iid = d['inst']
            if iid is None:
                raise Unsupported('closure without body')
            body = self.P.insts[iid]['body']
            self_t = self.tk(body['locals'][1])
            if self_t['k'] == 'ref':
                self.nframe += 1
                cell = ('clo', self.nframe)
                st.store[cell] = f
                r = self.exec_fn(st, iid, [self.W.mk('ptr', cell, ())] + args)
                return r
            return self.exec_fn(st, iid, [f] + args)
        if d['k'] == 'fndef':
            return self.call_inst(st, d['inst'], args, argtys, dty, None, loc)
        if d['k'] == 'fnptr':
            return self.call_value(st, f, args, argtys, dty, None, loc)
        if d['k'] == 'ref':
            e = self.tk(d['e'])
            if e['k'] == 'closure' and self.tk(self.P.insts[e['inst']]['body']['locals'][1])['k'] == 'ref':
                return self.exec_fn(st, e['inst'], [f] + args)
            return self.call_fn(st, self.load(st, f), d['e'], args, argtys, dty, loc)
        raise Unsupported(f'call of {d["k"]}')

    def run_root(self, name, args=None, pc=T):
        iid = self.P.roots[name]
        body = self.P.insts[iid]['body']
        st = State(pc, {})
        if args is None:
            args = []
            for i in range(body['argc']):
                nm = body['names'].get(str(i + 1), f'a{i + 1}')
                args.append(self.sym(nm, body['locals'][i + 1]))
        r = self.exec_fn(st, iid, args)
        return r, st
