"""Shared machinery: TLC runs, verdicts, known findings, evidence."""
import os, sys, json, re, subprocess, time, random, tempfile, shutil, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def setup_repo():
    """Import the plasTeX of /repo's current working tree, silently."""
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import plasTeX
    if os.path.realpath(plasTeX.__file__) != REPO + '/plasTeX/__init__.py':
        raise MachineryError('plasTeX imported from %s' % plasTeX.__file__)
    import plasTeX.TeX, plasTeX.Context, plasTeX.Config, plasTeX.Base
    import plasTeX.Logging
    plasTeX.Logging.disableLogging()
    import logging
    logging.disable(logging.CRITICAL)
    return plasTeX


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.finished = 'Model checking completed. No error has been found.' in out
        self.violated = re.findall(r'(?:Invariant|Action property|Temporal properties|property) ?(\w*) (?:is|was|were) violated', out)


def tlc(module, cfg=None, env=None, workers=8, timeout=600, heap='6g', extra=(), cwd=None, dfid=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns TLCResult."""
    wd = tempfile.mkdtemp(prefix='tlc_')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-nowarning',
               '-metadir', wd, '-noGenerateSpecTE', '-lncheck', 'final',
               '-config', os.path.join(SPEC, cfg or module + '.cfg')]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s after %ss' % (module, timeout))
        return TLCResult(p.stdout.decode('utf-8', 'replace'), p.returncode, time.time() - t)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


_V = re.compile(r'^<<"V", (\d+), "(\w+)", (.*)>>$')


def parse_verdicts(out):
    """{tid: [(verdict, detail)]} from PrintT(<<"V", tid, verdict, detail>>)."""
    # TLC pretty-prints long tuples over several lines: join them first
    res = {}
    buf = None
    for line in out.splitlines():
        if buf is None:
            if line.startswith('<<"V",') or line.startswith('<< "V",'):
                buf = line
            else:
                continue
        else:
            buf += ' ' + line.strip()
        if buf.count('<<') == buf.count('>>') and buf.rstrip().endswith('>>'):
            s = buf.strip()
            if s.startswith('<< '):
                s = '<<' + s[3:]
            if s.endswith(' >>'):
                s = s[:-3] + '>>'
            m = _V.match(s)
            if m:
                res.setdefault(int(m.group(1)), []).append((m.group(2), m.group(3)))
            buf = None
    return res


class Check:
    """One property check: collects coverage, prints verdicts, writes evidence."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%s' % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': []}
        self.assumptions = []
        self.violations = []
        self.findings = [f for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
                         if f['property'] == prop and f.get('status') == 'known']
        self.seen_findings = set()
        self.work = os.path.join(ROOT, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(ROOT, 'work', 'replay')
        os.makedirs(self.replays, exist_ok=True)

    # -- TLC ---------------------------------------------------------------
    def add_states(self, r):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated

    def model(self, module, cfg=None, expect_states=1, **kw):
        """Exhaustive check of the design; must finish without a violation."""
        r = tlc(module, cfg, **kw)
        if not r.finished:
            raise MachineryError('TLC on %s/%s: rc %s\n%s' % (module, cfg, r.rc, r.out[-3000:]))
        if r.distinct < expect_states:
            raise MachineryError('TLC on %s: only %s states (vacuous)' % (module, r.distinct))
        self.add_states(r)
        self.cov.setdefault('models', []).append(
            {'module': module, 'cfg': cfg or module + '.cfg', 'distinct': r.distinct,
             'generated': r.generated, 'wall_s': round(r.wall, 1)})
        return r

    def validate(self, module, traces, cfg=None, batch=None, parallel=1, count=True, **kw):
        """Validate recorded traces against the trace spec.

        Returns [(verdict, detail)] per trace; every trace gets a verdict, a
        missing one is an error of the machinery.
        """
        verdicts = [None] * len(traces)
        batch = batch or max(1, len(traces))
        jobs = []
        for b in range(0, len(traces), batch):
            fn = os.path.join(self.work, '%s_%d.json' % (module, b))
            with open(fn, 'w') as f:
                json.dump(traces[b:b + batch], f)
            jobs.append((b, fn))
        from concurrent.futures import ThreadPoolExecutor
        wk = kw.pop('workers', max(1, 8 // parallel))

        def go(j):
            b, fn = j
            return b, fn, tlc(module, cfg, env={'TRACES': fn}, workers=wk, **kw)
        with ThreadPoolExecutor(parallel) as ex:
            outs = list(ex.map(go, jobs))
        for b, fn, r in outs:
            if not r.finished:
                raise MachineryError('TLC trace validation %s (%s): rc %s\n%s' % (module, fn, r.rc, r.out[-4000:]))
            if count:
                self.add_states(r)
            vs = parse_verdicts(r.out)
            n = min(batch, len(traces) - b)
            for i in range(n):
                v = vs.get(i + 1)
                if not v:
                    raise MachineryError('no verdict for trace %d of %s\n%s' % (i + 1, fn, r.out[-2000:]))
                ok = [x for x in v if x[0] == 'ok']
                verdicts[b + i] = ok[0] if ok else v[-1]
        return verdicts

    # -- verdicts ----------------------------------------------------------
    def violation(self, key, what, replay):
        """Report one violation; `key` is the stable identification of the
        failing input that the known-findings file uses."""
        for f in self.findings:
            if f['key'] == key:
                self.seen_findings.add(f['key'])
                return False
        self.violations.append((key, what, replay))
        return True

    def selftest(self, verdicts):
        """verdicts of deliberately corrupted traces: all must be rejections"""
        if not verdicts:
            if self.violations:
                return          # nothing sound to corrupt
            raise MachineryError('binding self-test had nothing to corrupt')
        for i, v in enumerate(verdicts):
            if v[0] == 'ok':
                raise MachineryError('binding self-test: corrupted trace %d was accepted' % i)
        self.cov['corrupted_traces_rejected'] = self.cov.get('corrupted_traces_rejected', 0) + len(verdicts)

    def sample(self, x, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def finish(self):
        for f in self.findings:
            if f['key'] in self.seen_findings:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        rc = 0
        if self.violations:
            rc = 1
            n = 0
            for key, what, replay in self.violations:
                h = hashlib.sha1(str(key).encode()).hexdigest()[:10]
                p = os.path.join(self.replays, '%s_%s.json' % (self.prop, h))
                with open(p, 'w') as fh:
                    json.dump({'property': self.prop, 'key': key, 'what': what, 'replay': replay}, fh, indent=1, default=str)
                if n < 5:
                    print('VIOLATION property=%s replay=%s' % (self.prop, p))
                    print('   %s' % str(what)[:600])
                n += 1
            if n > 5:
                print('   ... and %d more' % (n - 5))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        print('%s %s: %s states=%s traces=%s wall=%.1fs' % (
            self.prop, self.tier, 'VIOLATED' if rc else 'ok', self.cov['states'],
            self.cov['traces_validated_against_impl'], time.time() - self.t0))
        sys.stdout.flush()
        return rc


def main(argv):
    prop = argv[1]
    if len(argv) > 2 and argv[2] in ('quick', 'thorough'):
        os.environ['VERIF_TIER'] = argv[2]
    import importlib
    try:
        setup_repo()
        mod = importlib.import_module('checks.' + prop.lower())
        ck = Check(prop, getattr(mod, 'LEVEL', 'model_checking'))
        mod.run(ck)
        return ck.finish()
    except MachineryError as e:
        print('ERROR (machinery) %s: %s' % (prop, e))
        return 3
