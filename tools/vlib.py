"""Shared machinery of the checks: running drivers, running TLC, deciding, reporting, evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, re, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


class TLCResult:
    def __init__(self, ok, kind, states, distinct, out, vbad, depth=0):
        self.ok, self.kind, self.states, self.distinct, self.out, self.vbad, self.depth = ok, kind, states, distinct, out, vbad, depth


def tlc(module, cfg, work, env=None, workers=1, timeout=600, heap='2g', extra=(), fast=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.  kind: ok | violation | postcondition | error | timeout."""
    meta = tempfile.mkdtemp(prefix='tlc.', dir=work)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if fast:
        cmd.append('-XX:TieredStopAtLevel=1')
    cmd += ['-Dtlc2.TLC.stopAfter=100000', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
            '-config', os.path.join(SPEC, cfg), '-noGenerateSpecTE'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        shutil.rmtree(meta, ignore_errors=True)
        return TLCResult(False, 'timeout', 0, 0, out, [])
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    st, di = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    m = re.findall(r'The depth of the complete state graph search is ([\d,]+)', out)
    depth = int(m[-1].replace(',', '')) if m else 0
    vbad = []
    for l in out.splitlines():
        l = l.strip()
        k = l.find('VBAD ')
        if k >= 0:
            s = l[k + 5:].rstrip('"').rstrip()
            s = s.replace('\\"', '"').replace('\\\\', '\\')
            try:
                vbad.append(json.loads(s))
            except ValueError:
                vbad.append({'raw': s})
    if rc == 0:
        kind = 'ok'
    elif rc in (10, 11, 12, 13, 14):
        kind = 'violation'
    else:
        kind = 'error'
    return TLCResult(kind == 'ok' and not vbad, kind, st, di, out, vbad, depth)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='run.%s.' % prop, dir=BUILD)
        self.t0 = time.time()
        self.level = 'model_checking'
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': 0}
        self.violations = []
        self.known = []
        self.notes = []
        self.cov['design_models'] = []
        self.cov['conformance'] = {}
        self.lock = threading.Lock()
        self.outdirs = []

    def thorough(self):
        return self.tier == 'thorough'

    def note(self, s):
        with self.lock:
            self.notes.append(s)
            print('NOTE: ' + s, flush=True)

    def model(self, module, cfg, what, workers=8, timeout=800, heap='8g', extra=(), expect_violation=None):
        """Exhaustive design check.  A failure here is a broken specification, not a code defect."""
        t = time.time()
        r = tlc(module, cfg, self.work, workers=workers, timeout=timeout, heap=heap, extra=extra)
        if not r.ok:
            sys.stdout.write(r.out[-5000:])
            raise CheckError('design model %s/%s: %s' % (module, cfg, r.kind))
        with self.lock:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.states
            self.cov['design_models'].append({'model': cfg, 'what': what, 'distinct_states': r.distinct,
                                              'transitions': r.states, 'depth': r.depth, 'wall_s': round(time.time() - t, 1)})
        return r

    def count(self, name, n=1):
        with self.lock:
            c = self.cov['conformance']
            c[name] = c.get(name, 0) + n

    def violation(self, what, files=(), data=None):
        with self.lock:
            n = len(self.violations)
            rd = os.path.join(BUILD, 'replay', '%s-%s-%d' % (self.prop, self.tier, n))
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            for f in files:
                if os.path.isdir(f):
                    for x in os.listdir(f):
                        p = os.path.join(f, x)
                        if os.path.isfile(p) and os.path.getsize(p) < 50e6:
                            shutil.copy(p, rd)
                elif os.path.exists(f):
                    shutil.copy(f, rd)
            with open(os.path.join(rd, 'violation.json'), 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'data': data, 'seed': self.seed, 'tier': self.tier}, f, indent=1, default=str)
            self.violations.append((what, rd))
            print('DETAIL: ' + str(what)[:1500], flush=True)

    def finish(self):
        self.cov['wall_s'] = round(time.time() - self.t0, 1)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 2)}
        if self.notes:
            ev['coverage']['notes'] = self.notes[:20]
        if self.violations:
            ev['coverage']['violations'] = [w for w, _ in self.violations]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for d in self.outdirs:
            shutil.rmtree(d, ignore_errors=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for w, rd in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, rd))
        sys.stdout.flush()
        return 1 if self.violations else 0


def run_driver(cmd, cwd, timeout=300, env=None):
    """-> (rc, tail of output).  rc None: timed out."""
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(cwd, exist_ok=True)
    log = os.path.join(cwd, 'driver.log')
    with open(log, 'wb') as f:
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
    with open(log, 'rb') as f:
        f.seek(max(0, os.path.getsize(log) - 3000))
        tail = f.read().decode('utf8', 'replace')
    return rc, tail


def pmap(fn, items, n=8):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


def load_known():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m:
                    r.append((m.group(1), m.group(2), m.group(3)))
    return r


def trace_jobs(ctx, jobs, module, cfg, attribute=None, par=8, timeout=300, tlc_timeout=600, heap='3g', known_key=None, exit_props={}):
    """jobs: list of dict(name, cmd(list; '{dir}' is replaced), traces=None).
    Each job runs a driver in its own directory, which writes one or more trace files (*.ndjson);
    each trace is validated by TLC against <module>.  A rejection counts only if it repeats."""
    known = [(k, d) for (p, k, d) in load_known() if p == ctx.prop]

    def once(job, sub):
        d = os.path.join(ctx.work, job['name'], sub)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        rc, tail = run_driver([c.replace('{dir}', d) for c in job['cmd']], d, timeout=job.get('timeout', timeout), env=job.get('env'))
        if rc is None or rc < 0 or rc not in (0,):
            return d, ('crash', {'rc': rc, 'tail': tail[-1500:]}), []
        rs = []
        for f in sorted(os.listdir(d)):
            if not f.endswith('.ndjson'):
                continue
            p = os.path.join(d, f)
            nev = sum(1 for _ in open(p))
            defs = p[:-7] + '.defs.json'
            r = tlc(module, cfg, ctx.work, env={'TRACE': p, 'DEFS': defs if os.path.exists(defs) else p}, timeout=tlc_timeout, heap=heap)
            rs.append((p, nev, r))
        return d, None, rs

    def classify(crash, rs):
        """-> (None | (what, data, mine))"""
        if crash:
            rc = crash[1]['rc']
            what = 'driver %s' % ('hung' if rc is None else 'killed by signal %d' % -rc if rc < 0 else 'exited with %d' % rc)
            return [(what, crash[1], rc is None or rc < 0 or rc == 77 or ctx.prop in exit_props.get(rc, ()), rc in exit_props)]
        out = []
        for p, nev, r in rs:
            if r.ok:
                continue
            if r.kind in ('timeout',) or (r.kind == 'error' and not r.vbad):
                raise CheckError('TLC %s on %s: %s' % (r.kind, p, r.out[-3000:]))
            if not r.vbad and r.kind != 'ok':
                raise CheckError('TLC %s without diagnosis on %s: %s' % (r.kind, p, r.out[-3000:]))
            out.append((p, r.vbad, None))
        return out

    def do(job):
        d, crash, rs = once(job, 'a')
        bad = classify(crash, rs)
        if not bad:
            with ctx.lock:
                for p, nev, r in rs:
                    ctx.cov['traces_validated_against_impl'] += 1
                    ctx.cov['samples'] += nev
                    ctx.cov['states'] += r.distinct
                    ctx.cov['transitions'] += r.states
            sj = os.path.join(d, 'stats.json')
            if os.path.exists(sj):
                for k, v in json.load(open(sj)).items():
                    ctx.count(k, v)
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(d, ignore_errors=True)
            return
        # must repeat
        if job.get('deterministic', True) or crash:
            d2, crash2, rs2 = once(job, 'b')
            bad2 = classify(crash2, rs2)
            if not bad2:
                ctx.note('%s: a rejection did not repeat and is ignored: %s' % (job['name'], str(bad)[:600]))
                return
        else:
            # schedule dependent: the recorded trace is the evidence; TLC must reject it again
            ok = True
            for p, nev, r in rs:
                if not r.ok:
                    defs = p[:-7] + '.defs.json'
                    r2 = tlc(module, cfg, ctx.work, env={'TRACE': p, 'DEFS': defs if os.path.exists(defs) else p}, timeout=tlc_timeout, heap=heap)
                    if not r2.ok:
                        ok = False
            if ok:
                ctx.note('%s: rejection not repeated by TLC' % job['name'])
                return
        for b in bad:
            if crash:
                if not b[2] and b[3]:
                    ctx.note('belongs to another property: %s: %s' % (job['name'], b[0]))
                    continue
                if not b[2]:
                    raise CheckError('%s: %s' % (b[0], b[1]))
                ctx.violation('%s: %s' % (job['name'], b[0]), [d], b[1])
                continue
            p, vbad, _ = b
            fields = sorted({x for v in vbad for x in v.get('bad', ['?'])})
            mine = fields
            if attribute:
                mine = [f for f in fields if ctx.prop in attribute(f)]
            kk = [(k, t) for (k, t) in known if known_key and known_key(k, vbad, job)]
            if kk:
                with ctx.lock:
                    for k, t in kk:
                        if '%s' % t not in ctx.known:
                            ctx.known.append(t)
                continue
            what = '%s: %s disagrees with the specification at event %s' % (job['name'], ','.join(fields), vbad[0].get('i'))
            if mine:
                ctx.violation(what, [d], vbad)
            else:
                ctx.note('belongs to another property: ' + what + ' ' + json.dumps(vbad)[:800])
    errs = []

    def safe(job):
        if len(ctx.violations) >= 8:      # enough to report
            return
        try:
            do(job)
        except CheckError as x:
            errs.append(x)
    pmap(safe, jobs, par)
    if errs and not ctx.violations:
        raise errs[0]
    for x in errs:
        print('ERROR (besides the violation): %s' % str(x)[:2000])
