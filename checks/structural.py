"""Checks over the whole crate: shared state, unchecked operations, feature sets, termination."""
import itertools
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from bdd import T, F
from interp import Interp, Recursion, Unsupported
from checks import base, text
from checks.numeric import program, pmap
import natives
from ranking import Ranking

WITNESS = os.path.join(base.HERE, 'witness')


def compile_witness(features, tdir):
    """(accepted, [(crate, message)]) of compiling the witness crate against /repo with the features."""
    with base.Lock(os.path.basename(tdir)):
        fp = os.path.join(tdir, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d in ('sgp4', 'witness') or d.startswith(('sgp4-', 'witness-')):
                    subprocess.run(['rm', '-r', os.path.join(fp, d)], check=True)
        p = subprocess.run(['cargo', 'check', '--offline', '--target-dir', tdir, '--features', ','.join(features)], cwd=WITNESS, env=base.env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = []
    for m in re.finditer(r'^error(\[E\d+\])?: (.*)\n\s*--> (\S+)', p.stdout, re.M):
        f = m.group(3)
        errs.append(('witness' if f.startswith('src/') else 'sgp4' if '/repo/' in f or f.startswith('..') else f, f'{m.group(2)} at {f}'))
    if p.returncode and not errs:
        raise base.BuildError('compiling the witness crate failed:\n' + p.stdout[-3000:])
    return p.returncode == 0, errs, p.stdout


def facts(names):
    return {n: d[1] for n, d in base.dumps(names).items()}


def bodies(f):
    return [i for i in f['items'] if i.get('mir')]


# ------------------------------------------------------------------ C21
AMBIENT = re.compile(r'^(std|core|alloc)::(time|env|fs|io::std|net|os|process|thread|random|sync|cell|sys)::|::RandomState|^chrono::.*::(now|today)$|^chrono::(offset::)?Local\b'
                     r'|^std::collections::Hash(Map|Set)::<.*>::(new|with_capacity)$|^std::(hash::)?DefaultHasher|^std::alloc::(alloc|realloc|GlobalAlloc)|^std::any::type_name|^std::panic::Location')
ALLOWED_TYPES = re.compile(r'^(std|alloc|core)::(string::String|vec::Vec|boxed::Box|borrow::Cow|option::Option|result::Result)$|^chrono::')


def C21(rep):
    rep.rule = ('no body of the crate reads or writes a mutable, thread-local or interior-mutable static, calls a function that observes time, environment, threads, randomness or '
                'addresses, or goes through a cell or lock; every public type is Send, Sync and free of interior mutability and propagation takes the propagator by shared reference (accepted by the compiler)')
    sets = ['default', 'libm'] if rep.tier == 'quick' else list(base.FEATURES)
    # witnesses first: a changed receiver is a violation, not a build problem of the client
    for fs in ([['std'], ['std', 'alloc', 'serde'], ['libm']]):
        ok, errs, out = compile_witness(fs, os.path.join(base.BUILD, 'w-' + '-'.join(fs)))
        if not ok and not any(c == 'witness' for c, _ in errs):
            raise base.BuildError('the crate does not compile:\n' + out[-3000:])
        rep.check(ok, 'witness', f'features {",".join(fs)}: the compiler refuses a use the property promises: ' + '; '.join(m for c, m in errs if c == 'witness')[:600],
                  f'Send, Sync, no interior mutability, shared receivers: accepted with {",".join(fs)}')
        if not ok:
            return
    ok, errs, _ = compile_witness(['std', 'control'], os.path.join(base.BUILD, 'w-std'))
    if ok or not any('Cell' in m or 'interior' in m for _, m in errs):
        raise base.BuildError('the control witness (a Cell) was not refused')
    for name, f in facts(sets).items():
        statics = [i for i in f['items'] if i['kind'].startswith('Static')]
        rep.count('statics', len(statics))
        for s in statics:
            rep.check(not s['mutable'] and s['freeze'] and not s['tls'], f'static:{s["path"]}', f'static {s["path"]} at {s["loc"]} of type {s["ty"]} is mutable, thread-local or interior-mutable')
        bs = bodies(f)
        rep.count('bodies', len(bs))
        if len(bs) < 40:
            raise base.BuildError('few bodies found in the crate facts')
        for i in bs:
            rep.analysed.add(i['path'])
            bad = []
            own = {s['path'] for s in statics}
            for s in i['mir']['statics']:
                if s['mutable'] or s['tls']:
                    bad.append(f'accesses the static {s["path"]}')
                elif s['path'] not in own:
                    bad.append(f'reads the foreign static {s["path"]}')
            for c in i['mir']['calls']:
                rep.count('call_sites')
                if AMBIENT.search(c['path']):
                    bad.append(f'calls {c["path"]} at {c["loc"]}')
                if c.get('foreign'):
                    bad.append(f'calls the foreign function {c["path"]} at {c["loc"]}')
            for o in i['mir']['ops']:
                if o['op'] in ('address', 'asm'):
                    bad.append(f'{o["op"]} operation at {o["loc"]}')
            rep.check(not bad, f'body:{i["path"]}', f'{i["path"]} ' + '; '.join(bad))
        types(rep, name)
    # transitively, the library functions reachable from the public interface
    P = program('default')
    reached = [v for v in P.insts if v.get('crate') not in ('sgp4', 'apiclient')]
    rep.count('library_instances', len(reached))
    bad = sorted({v['path'] for v in reached if re.search(r'::(now|today)$|^std::(env|fs|net|process|thread|time|random)::|RandomState', v['path'])})
    rep.check(not bad, 'library', f'library functions observing the environment are reachable: {bad[:5]}', f'{len(reached)} library functions reachable from the interface, none observing the environment')
    assert AMBIENT.search('std::time::Instant::now') and AMBIENT.search('std::cell::Cell::<T>::set')
    rep.trusted = ['rustc type checking and auto traits', base.TRUSTED[0]]
    rep.assumptions.append('libraries (chrono, num-traits, libm, serde) keep no state of their own')


def types(rep, name):
    """No cells, raw pointers or unknown objects inside the values of the library."""
    P = program(name)
    seen, st = {}, []
    for r in ('new', 'tle', 'initial_state', 'propagate', 'kozai', 'wgs84'):
        body = P.insts[P.roots[r]]['body']
        st += [(body['locals'][0], r)]
    n = 0
    while st:
        t, via = st.pop()
        if t in seen:
            continue
        seen[t] = via
        d = P.ty(t)
        n += 1
        p = d.get('path', '')
        if d['k'] in ('ptr', 'dyn', 'fnptr') or (d['k'] == 'ref' and d.get('mut')) or re.search(r'::(UnsafeCell|Cell|RefCell|Mutex|RwLock|OnceLock|OnceCell|Atomic\w+|Rc|Arc)$', p):
            rep.fail(f'type:{d["s"]}', f'{via} holds {d["s"]}')
            continue
        if d['k'] == 'adt' and not ALLOWED_TYPES.search(p) or p.endswith(('::Option', '::Result')):
            for v in d.get('variants') or []:
                st += [(ft, f'{d["s"]}.{fn}') for fn, ft in v['fields']]
        for k in ('e',):
            if isinstance(d.get(k), int):
                st.append((d[k], d['s']))
        for e in d.get('es') or []:
            st.append((e, d['s']))
    rep.count('types', n)
    rep.ok(f'[{name}] {n} types inside the values of the library')


# ------------------------------------------------------------------ C23
GENERATED = re.compile(r'^(std|core|alloc)::fmt::(rt::)?Argument')
KNOWN_UNCHECKED = ('from_utf8_unchecked', 'get_unchecked', 'get_unchecked_mut', 'unwrap_unchecked', 'unreachable_unchecked', 'assert_unchecked')


def C23(rep):
    rep.rule = ('every unsafe operation in the crate (unsafe call, raw dereference, union field, transmute, mutable static, foreign call, assembly, unsafe trait implementation) is listed; '
                'each must be an unchecked library operation whose precondition holds at every evaluation, for all input bytes')
    sets = ['default', 'libm'] if rep.tier == 'quick' else list(base.FEATURES)
    sites = {}
    for name, f in facts(sets).items():
        bs = bodies(f)
        if len(bs) < 40:
            raise base.BuildError('few bodies found in the crate facts')
        gen = 0
        for i in f['items']:
            if i['kind'].startswith('Impl') and i.get('unsafe') and not i.get('trait', '').endswith('TrivialClone>'):
                rep.fail(f'impl:{i["path"]}', f'unsafe implementation {i["path"]} at {i["loc"]}: nothing establishes its contract')
            if i.get('unsafe') and i.get('pub') and i['kind'] in ('Fn', 'AssocFn'):
                rep.count('unsafe_public_functions')
        for i in bs:
            rep.analysed.add(i['path'])
            n = 0
            for c in i['mir']['calls']:
                rep.count('call_sites')
                if not c['unsafe'] and not c.get('foreign'):
                    continue
                if GENERATED.search(c['path']):
                    gen += 1            # expansion of format_args!
                    continue
                n += 1
                sites.setdefault((str(c['loc']), c['path']), (i['path'], set()))[1].add(name)
            for o in i['mir']['ops']:
                if o['op'] == 'address':
                    continue
                n += 1
                rep.fail(f'{o["op"]}:{i["path"]}', f'{i["path"]} at {o["loc"]}: {o["op"]} {o.get("ty", "")}{o.get("from", "")}: nothing establishes its precondition')
            for s in i['mir']['statics']:
                if s['mutable']:
                    n += 1
                    rep.fail(f'static-mut:{i["path"]}', f'{i["path"]} uses the mutable static {s["path"]}')
            if n == 0:
                rep.ok()
        # the query must see the unsafe calls that format_args! expands to
        if gen == 0:
            raise base.BuildError('no generated unsafe call was seen: the query over calls is broken')
        rep.count('generated_unsafe_calls', gen)
    rep.count('unchecked_sites', len(sites))
    if sites:
        visited = {}

        def one(job):
            feature, root = job
            I = Interp(program(feature), natives=natives.find)
            if root not in I.P.roots:
                return []
            if root in ('two_les', 'three_les'):
                I.text_lines = 4
            I.run_root(root)
            bad = {str(p['own_loc']) for p in I.panics if p['kind'].startswith('unchecked')}
            return [(str(l if not isinstance(l, tuple) else list(l)), op, str(l if not isinstance(l, tuple) else list(l)) in bad) for l, op in I.unchecked_calls]
        roots = ['tle', 'new_propagate_twice', 'kozai', 'to_datetime', 'to_minutes', 'epoch_of', 'epoch_of_afspc', 'from_elements', 'from_elements_afspc']
        for r in pmap(one, [(f, r) for f in sets for r in roots], 4):
            for loc, op, bad in r:
                visited.setdefault(loc, []).append((op, bad))
        for (loc, path), (fn, feats) in sorted(sites.items()):
            v = [x for x in visited.get(loc, []) if x[0] in path]
            op = path.rpartition('::')[2]
            if op not in KNOWN_UNCHECKED:
                rep.fail(f'call:{fn}:{op}', f'{fn} at {loc} calls the unsafe function {path}: nothing establishes its precondition')
            elif not v:
                rep.fail(f'call:{fn}:{op}', f'{fn} at {loc} calls {path} where no analysed path establishes its precondition')
            else:
                rep.check(not any(b for _, b in v), f'call:{fn}:{op}', f'{fn} at {loc} calls {path} with arguments that can violate its precondition', f'{path} at {loc}: precondition established')
    rep.trusted = base.TRUSTED
    rep.assumptions.append('unsafe code inside dependencies is sound')


# ------------------------------------------------------------------ C25
def C25(rep):
    rep.rule = ('the crates linked into each feature set (as the compiler loads them) contain neither std nor, without alloc, alloc; every combination of the four features compiles '
                'exactly if one of std and libm is chosen')
    combos = [c for n in range(5) for c in itertools.combinations(('std', 'alloc', 'serde', 'libm'), n)]
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(lambda c: compile_witness(c, os.path.join(base.BUILD, 'w-' + '-'.join(c))), combos))
    for c, (ok, errs, out) in zip(combos, res):
        want = ('std' in c) != ('libm' in c)
        n = ','.join(c) or '(none)'
        if want and not ok and any(k == 'witness' for k, _ in errs) and not any(k == 'sgp4' for k, _ in errs):
            ok = True           # the crate itself compiled
        if want:
            rep.check(ok, f'refused:{n}', f'features {n} do not compile: {errs[0][1] if errs else out[-300:]}', f'{n}: compiles')
        else:
            rep.check(not ok and any(k == 'sgp4' for k, _ in errs), f'accepted:{n}', f'the conflicting or missing feature choice {n} is not refused by the crate', f'{n}: refused at {errs[0][1] if errs else ""}')
    for name, f in facts([n for n in base.FEATURES if n.startswith('libm')]).items():
        cs = set(f['crates'])
        if 'core' not in cs or 'libm' not in cs or 'chrono' not in cs:
            raise base.BuildError(f'unexpected list of crates: {sorted(cs)}')
        rep.count('crates_linked', len(cs))
        for bad in ('std', 'libc', 'panic_unwind') + (('alloc', 'serde') if name == 'libm' else ()):
            rep.check(bad not in cs, f'{name}:{bad}', f'feature set {base.FEATURES[name]} links the crate {bad}', f'[{name}] does not link {bad}')
        for i in bodies(f):
            rep.analysed.add(i['path'])
            x = [c['path'] for c in i['mir']['calls'] if c.get('foreign') or c['crate'] in ('std', 'libc') or (name == 'libm' and c['crate'] == 'alloc')]
            rep.check(not x, f'{name}:{i["path"]}', f'{i["path"]} calls {x[:3]}')
    d = facts(['default'])['default']
    if not {'std', 'alloc', 'serde'} <= set(d['crates']):
        raise base.BuildError('the list of linked crates is incomplete: the default feature set should link std')
    rep.trusted = ['rustc and cargo: feature resolution and the crates a compilation loads', base.TRUSTED[0]]


# ------------------------------------------------------------------ C22
KEPLER = 10
LINE = 69


def terminate(job):
    """(loops unrolled, fixpoint loops, failures) of one entry point."""
    feature, root, lines = job
    P = program(feature)
    stop = None
    try:
        I = text.lister(feature, lines, good=lines > 8) if lines is not None else Interp(P, natives=natives.find)
        I.run_root(root)
    except Recursion as e:
        return [], [], [(f'recursion:{e}', f'{root} calls {e} recursively without end')], []
    except Unsupported as e:
        stop = e
    bad, fix, unr = [], [], []
    for l in I.loops.values():
        why = Ranking(I.W, l).decide(720)
        fix.append((l['path'], tuple(l['loc']) if l['loc'] else None))
        if why:
            bad.append((f'loop:{l["path"]}', f'{root}: the loop in {l["path"]} ({l["loc"]}) is not shown to end: {why}'))
    for path, crate, n, early in I.unrolled:
        unr.append((path, n))
        if lines is not None:
            ok = n <= max(2 * LINE, lines + 2)
        elif root.startswith(('tle', 'to_', 'epoch', 'elements', 'show', 'sidereal')):
            ok = n <= 2 * LINE
        else:
            ok = not early or n <= KEPLER + 1
        if not ok:
            bad.append((f'count:{path}', f'{root}: the loop in {path} goes round up to {n} times'))
    if stop and not bad:
        raise stop
    return unr, fix, bad, sorted({P.insts[k]['path'] for k in I.funcs if P.insts[k]['crate'] == 'sgp4'})


def C22(rep):
    rep.rule = ('every loop reachable from the interface either ends after a number of rounds found by unrolling it over unconstrained inputs (at most ten for the iteration on data during '
                'propagation, at most two per byte of a line and one per line of a list in parsing), or has a variable that moves by a constant of at least 720 minutes towards a bound that ends it, '
                'for finite, infinite and not-a-number bounds alike; no recursion')
    feats = ['default', 'libm'] if rep.tier == 'quick' else list(base.FEATURES)
    jobs = []
    for f in feats:
        P = program(f)
        for r, i in P.roots.items():
            if r in ('two_les', 'three_les'):
                jobs += [(f, r, n) for n in (0, 1, 2, 3, 4, 5, 6, 7, 40)]
            elif '::format::' not in P.insts[i]['path']:
                jobs.append((f, r, None))
    if not any(j[1] == 'propagate' for j in jobs) or len(jobs) < 30:
        raise base.BuildError('entry points missing')
    seen_fix, seen = set(), set()
    for job, (unr, fix, bad, fns) in zip(jobs, pmap(terminate, jobs, 4)):
        rep.count('entry_points')
        rep.count('loops_unrolled', len(unr))
        rep.count('fixpoint_loops', len(fix))
        rep.analysed |= set(fns)
        seen_fix |= {p for p, _ in fix}
        for k, m in bad:
            rep.fail(k, f'[{job[0]}] ' + m)
        for p, n in unr:
            rep.ok(f'[{job[0]}] {job[1]}: {p} at most {n} rounds' if (p, n) not in seen else None)
            seen.add((p, n))
        for p, l in fix[len([1 for k, _ in bad if k.startswith('loop:')]):]:
            rep.ok(f'[{job[0]}] {job[1]}: {p} has a ranking variable')
        if not bad:
            rep.ok()
    control(rep)
    rep.trusted = base.TRUSTED
    rep.assumptions += ['stepping in exact arithmetic (a step of 720 minutes is not absorbed: times below 6e18 minutes)', 'loops inside dependencies that are modelled as single operations end']


def control(rep):
    """The ranking argument must refuse a loop without an exit bound and accept a counting one."""
    from term import World
    W = World()
    v, t = W.mk('lv', (0, 0), ()), W.mk('sym', 't')
    v.ty = t.ty = 'float'
    step = W.mk('fadd', v, W.mk('f', 720.0))
    mk = lambda back: dict(vars=[(v, W.mk('f', 0.0), step)], back_pc=back)
    below, fin = W.atom(W.mk('flt', v, t)), W.atom(W.mk('finite', t))
    if Ranking(W, mk(W.bdd.AND(below, fin))).decide(720) is not None or not Ranking(W, mk(below)).decide(720) or not Ranking(W, mk(W.bdd.AND(W.bdd.NOT(below), fin))).decide(720):
        raise base.BuildError('the ranking argument fails its own examples')


TECH = 'static analysis: queries over the items, types and MIR of the whole crate'
CHECKS = {'C22': (C22, 'static analysis: ranking of loops found by value numbering of MIR'), 'C21': (C21, TECH + ', with compile-time witnesses'), 'C23': (C23, TECH + '; preconditions of unchecked operations by value numbering over the input bytes'),
          'C25': (C25, 'static analysis: linked crates and calls per feature set, with compile-fail witnesses')}
