"""Machinery shared by the checks: building /repo, running cases of the real
code in worker processes, running TLC, judging, writing the evidence.

Nothing in here knows what the right answer is: the workers only run the code
and project what can be observed, the TLA+ modules judge."""
import json
import os
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = '/repo'
PY = '/opt/venv/bin/python'
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')
NPROC = max(2, min(8, os.cpu_count() or 2))


class Machinery(Exception):
    """An error of the check itself (neither 0 nor 1)."""


def env_for_code(hashseed=0):
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONSTARTUP'):
        env.pop(k, None)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8',
               PYTHONWARNINGS='ignore', PYTHONPATH=REPO, HOME='/root')
    env['PATH'] = ('/opt/venv/bin:/usr/local/sbin:/usr/local/bin:'
                   '/usr/sbin:/usr/bin:/sbin:/bin')
    return env


class Context(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.states = 0        # distinct states found by TLC, all runs
        self.transitions = 0   # states generated by TLC, all runs
        self.validated = 0     # recorded runs judged by TLC
        self.notes = {}
        self.samples = []
        self.violations = []   # (case id, clauses, case)
        self.rng = random.Random(seed * 7919 + int(prop[1:]))
        self.thorough = tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a,
              flush=True)


def build(ctx):
    r = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode('utf8', 'replace')[-3000:])
        raise Machinery('build.sh failed')
    ctx.log('built /repo')


# ---------------------------------------------------------------- workers

class Worker(object):
    def __init__(self, scratch, hashseed, env=None):
        self.scratch, self.hashseed, self.env = scratch, hashseed, env or {}
        self.proc = None

    def start(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.proc = subprocess.Popen(
            [PY, '-W', 'ignore', os.path.join(HARNESS, 'worker.py'),
             self.scratch],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=dict(env_for_code(self.hashseed), **self.env),
            cwd=self.scratch, start_new_session=True)
        self.buf = b''

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def ask(self, msg, timeout):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(msg).encode() + b'\n')
            self.proc.stdin.flush()
        except OSError:
            self.kill()
            return None, 'crash'
        fd = self.proc.stdout.fileno()
        deadline = time.time() + timeout
        while b'\n' not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                self.kill()
                return None, 'hang'
            r, _, _ = select.select([fd], [], [], min(left, 1.0))
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    self.kill()
                    return None, 'crash'
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode()), None


def run_cases(ctx, kind, cases, timeout=120, nproc=None, hashseed=0, env=None):
    """Runs every case in a worker process; returns the recorded events, in
    the order of the cases. A crash or a hang is an event."""
    n = min(nproc or NPROC, max(1, len(cases)))
    out = [None] * len(cases)
    todo = list(range(len(cases)))[::-1]
    lock = threading.Lock()
    errors = []

    def loop(k):
        w = Worker(os.path.join(ctx.scratch, 'w%d' % k), hashseed, env)
        try:
            while True:
                with lock:
                    if not todo or errors:
                        return
                    i = todo.pop()
                ans, err = w.ask({'kind': kind, 'case': cases[i]}, timeout)
                if err:
                    ans = [{'ev': 'Error', 'what': err}]
                elif isinstance(ans, dict):   # error of the harness itself
                    with lock:
                        errors.append(ans['harness_error'])
                    return
                out[i] = ans
        finally:
            w.kill()
            shutil.rmtree(os.path.join(ctx.scratch, 'w%d' % k),
                          ignore_errors=True)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise Machinery('harness: ' + errors[0])
    return out


# -------------------------------------------------------------------- TLC

STATS = re.compile(r'^([\d,]+) states generated, ([\d,]+) distinct states', re.M)


def tlc(ctx, module, cfg_text=None, cfg=None, env=None, timeout=800,
        workers=NPROC, expect_ok=True, heap='6g', extra=()):
    """Runs TLC on a module of /verif/spec, in a scratch metadir."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=ctx.scratch)
    if cfg_text is not None:
        cfg = os.path.join(meta, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
    elif cfg is None:
        cfg = os.path.join(SPEC, module + '.cfg')
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + meta,
           '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg] + list(extra) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timeout on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = r.stdout.decode('utf8', 'replace')
    m = STATS.findall(text)
    if m:
        ctx.transitions += int(m[-1][0].replace(',', ''))
        ctx.states += int(m[-1][1].replace(',', ''))
    if expect_ok and (r.returncode != 0 or 'Error:' in text):
        sys.stdout.write(text[-4000:])
        raise Machinery('TLC failed on %s (%d)' % (module, r.returncode))
    return r.returncode, text


def model_check(ctx, module, cfg_text, timeout=800, **kw):
    """Exhaustive check of a design specification (must succeed: it does not
    depend on /repo)."""
    rc, text = tlc(ctx, module, cfg_text=cfg_text, timeout=timeout, **kw)
    if 'No error has been found' not in text:
        sys.stdout.write(text[-4000:])
        raise Machinery('no conclusion of TLC on %s' % module)
    m = STATS.findall(text)[-1]
    ctx.notes.setdefault('design_runs', []).append(
        {'module': module, 'generated': int(m[0].replace(',', '')),
         'distinct': int(m[1].replace(',', ''))})
    ctx.log('model checked %s: %s distinct states' % (module, m[1]))


def export(ctx, module, cfg_text):
    out = os.path.join(ctx.scratch, module + '.json')
    tlc(ctx, module, cfg_text=cfg_text, env={'OUT': out})
    with open(out) as f:
        return json.load(f)


VERDICT = re.compile(r'^"?(BAD|DONE)\|([^|"\n]*)(?:\|([^"\n]*))?"?\s*$', re.M)


def judge(ctx, module, cases, cfg_text=None, count=True, batch=None,
          timeout=800):
    """Judges recorded cases with a trace module. Every case must get a
    verdict. Returns {case id: sorted failing clauses}."""
    res = {}
    ids = [c['id'] for c in cases]
    assert len(set(ids)) == len(ids)
    batch = batch or max(1, len(cases))
    for k in range(0, len(cases), batch):
        _judge(ctx, module, cases[k:k + batch], cfg_text, timeout, res)
    if count:
        ctx.validated += len(cases)
    return {k: sorted(v) for k, v in res.items()}


def _judge(ctx, module, part, cfg_text, timeout, res):
    path = os.path.join(ctx.scratch, 'cases.json')
    with open(path, 'w') as f:
        json.dump(part, f)
    rc, text = tlc(ctx, module, cfg_text=cfg_text, env={'CASES': path},
                   timeout=timeout, expect_ok=False)
    os.remove(path)
    done = set()
    for kind, cid, clause in VERDICT.findall(text):
        if kind == 'DONE':
            done.add(cid)
        else:
            res.setdefault(cid, set()).add(clause)
    missing = [c for c in part if c['id'] not in done]
    if not missing and rc == 0:
        return
    if 'OutOfMemory' in text or 'StackOverflow' in text or not missing \
            or 'Semantic error' in text or 'configuration file' in text or 'Parsing or semantic' in text:
        sys.stdout.write(text[-3000:])
        raise Machinery('TLC failed on %s' % module)
    # TLC could not evaluate a recorded value: it is outside of what the
    # specification admits (a position out of range, a missing field...).
    # The cases are judged apart, so that the others get their verdict.
    if len(missing) == 1 and len(part) == 1:
        sys.stdout.write(text[-1500:])
        res.setdefault(missing[0]['id'], set()).add('not_a_behaviour')
        return
    h = max(1, len(missing) // 2)
    for q in (missing[:h], missing[h:]):
        if q and not (len(res) > 20):
            _judge(ctx, module, q, cfg_text, timeout, res)


def record_bad(ctx, bad, cases):
    by_id = {c['id']: c for c in cases}
    for cid, clauses in sorted(bad.items()):
        ctx.violations.append((cid, clauses, by_id[cid]))


# ------------------------------------------------------- findings, evidence

def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['known']


def finish(ctx, level, assumptions, exhaustive=None):
    known = [k for k in known_findings() if k['property'] == ctx.prop]
    new = []
    for cid, clauses, case in ctx.violations:
        hit = [k for k in known if k['case'] == cid
               and set(clauses) <= set(k['clauses'])]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, hit[0]['what']))
        else:
            new.append((cid, clauses, case))
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': ctx.validated,
           'samples': ctx.samples[:6]}
    cov.update(ctx.notes)
    if exhaustive is not None:
        cov['exhaustive'] = exhaustive
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed,
          'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if not ctx.validated:
        raise Machinery('nothing was validated')
    ctx.log('validated %d recorded runs, %d states, %d violations'
            % (ctx.validated, ctx.states, len(new)))
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for cid, clauses, case in new[:10]:
            path = os.path.join(rdir, '%s-%s.json' % (
                ctx.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', cid)))
            with open(path, 'w') as f:
                json.dump({'property': ctx.prop, 'failing_clauses': clauses,
                           'case': case}, f, indent=1)
            print('failing clauses: %s' % ', '.join(clauses))
            print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        if len(new) > 10:
            print('... and %d other violations' % (len(new) - 10))
        return 1
    return 0
