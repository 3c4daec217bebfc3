"""Shared machinery of the checks: building the analysed program, reporting, known findings and evidence."""
import fcntl
import json
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
REPO = os.path.join(os.path.dirname(HERE), 'repo')
FEATURES = {
    'default': 'std,alloc,serde',
    'libm': 'libm',
    'libm-alloc': 'libm,alloc',
    'libm-alloc-serde': 'libm,alloc,serde',
    'std': 'std',
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, e=None, what=''):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(f'{what or cmd[0]} failed:\n{p.stdout[-4000:]}')
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


DRIVER = os.path.join(BUILD, 'driver', 'release', 'mirdump')
_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).strip()
    return _sysroot


def ensure_driver():
    with Lock('driver'):
        sh(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'driver')],
           cwd=os.path.join(HERE, 'driver'), what='building the compiler driver')


def dump(name):
    """Compile the client crate and /repo with the driver; returns (client program, crate facts) of the current source."""
    feats = FEATURES[name]
    ensure_driver()
    with Lock('t-' + name):
        tdir = os.path.join(BUILD, 't-' + name)
        out = os.path.join(BUILD, 'out-' + name)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        # cargo would skip the wrapper for crates it believes fresh: forget what it built of these two
        for root in ('.fingerprint', 'build'):
            fp = os.path.join(tdir, 'debug', root)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d in ('sgp4', 'apiclient') or d.startswith(('sgp4-', 'apiclient-')):
                        shutil.rmtree(os.path.join(fp, d))
        e = env()
        e.update(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), RUSTC_WRAPPER=DRIVER, MIRDUMP_CLIENT='apiclient',
                 MIRDUMP_CRATE='sgp4', MIRDUMP_OUT=out, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings')
        sh(['cargo', '+nightly', 'check', '--offline', '--target-dir', tdir, '--no-default-features', '--features', feats],
           cwd=os.path.join(HERE, 'harness'), e=e, what=f'compiling the client and the crate with features {feats}')
        res = []
        for f in ('apiclient.json', 'sgp4.json'):
            p = os.path.join(out, f)
            if not os.path.exists(p):
                raise BuildError(f'the driver wrote no {f}')
            with open(p) as h:
                res.append(json.load(h))
        return res


def dumps(names):
    """Several feature sets, compiled in parallel."""
    from concurrent.futures import ThreadPoolExecutor
    ensure_driver()
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(names, ex.map(dump, names)))


class Report:
    """Obligations of one run of one check."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obligations = 0
        self.failed = []          # (key, message)
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.rule = ''
        self.trusted = []
        self.analysed = set()

    def ok(self, what=None):
        self.obligations += 1
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def fail(self, key, msg):
        self.obligations += 1
        self.failed.append((key, msg))

    def check(self, cond, key, msg, what=None):
        if cond:
            self.ok(what)
        else:
            self.fail(key, msg)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def interp(self, I):
        """Record what one engine run covered."""
        for k in ('blocks', 'statements', 'calls', 'branches', 'asserts', 'mu_loops'):
            self.count('mir_' + k, I.stats[k])
        for i in I.funcs:
            inst = I.P.insts[i]
            if inst['crate'] == 'sgp4':
                self.analysed.add(inst['path'])


def known_findings():
    """key -> text of the findings listed in known-findings.txt (open ones only)."""
    r = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('open: '):
                # open: property=<id> key=<key> :: <text>
                head, _, text = line[6:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                r[(d['property'], d['key'])] = text
    return r


LEVEL = 'proof'


def run(prop, tier, checks):
    t0 = time.time()
    fn, technique = checks[prop][:2]
    rep = Report(prop, tier)
    fn(rep)
    known = known_findings()
    new = []
    for key, msg in rep.failed:
        if (prop, key) in known:
            print(f'KNOWN-FINDING: property={prop} {known[(prop, key)]}')
        else:
            new.append((key, msg))
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    if rep.obligations == 0:
        raise BuildError('the check had no obligations: the analysed construct is missing')
    cov = dict(obligations=rep.obligations, discharged=rep.obligations - len(rep.failed),
               checker_cmd=f'python3 {HERE}/check.py {prop} {tier}',
               trusted_base=rep.trusted or TRUSTED, rule=rep.rule, samples=rep.samples or ['(all obligations failed)'],
               functions_analysed=len(rep.analysed), functions=sorted(rep.analysed)[:200], **rep.counts)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=LEVEL, coverage=cov,
              assumptions=rep.assumptions, wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {rep.obligations} obligations, {rep.obligations - len(rep.failed)} discharged, {len(rep.analysed)} functions of the crate analysed, {time.time() - t0:.1f} s')
    if new:
        rp = os.path.join(evd, prop + '.replay.txt')
        with open(rp, 'w') as f:
            for key, msg in new:
                f.write(f'{key}\n  {msg}\n')
        for key, msg in new[:20]:
            print(f'  {key}: {msg}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    return 0


TRUSTED = [
    'rustc front end and MIR construction (nightly), read through the rustc_private driver in /verif/driver',
    'engine/interp.py: gated value numbering of MIR', 'engine/natives.py: summaries of core, alloc, chrono and libm functions',
]
