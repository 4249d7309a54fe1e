"""C25, C26: requests at the same time, requests killed."""
import json
import os
import re
import subprocess

import lib

CONC = ('SPECIFICATION Spec\nCONSTANTS Shared = %s\n Exclusive = %s\n MaxSwitch = %d\n Export = %s\n'
        'INVARIANTS NoFailure Alone Clean\nCHECK_DEADLOCK FALSE\n')
SCHED = re.compile(r'^"SCHED\|(.*)"$', re.M)
KINDS = ['task', 'sampled', 'stats', 'dist', 'score', 'analyze', 'convert']


def needed(ctx, module, cfg):
    """a configuration in which the specification must break"""
    rc, text = lib.tlc(ctx, module, cfg_text=cfg, expect_ok=False)
    if 'is violated' not in text:
        raise lib.Machinery('%s holds with a condition removed' % module)


def C25(ctx):
    rng = ctx.rng
    k = ctx.pick(3, 5)
    lib.model_check(ctx, 'Conc', CONC % ('FALSE', 'FALSE', 14, 'FALSE'))
    needed(ctx, 'Conc', CONC % ('TRUE', 'FALSE', 14, 'FALSE'))
    needed(ctx, 'Conc', CONC % ('FALSE', 'TRUE', 14, 'FALSE'))
    rc, text = lib.tlc(ctx, 'Conc', cfg_text=CONC % ('FALSE', 'FALSE', k, 'TRUE'), workers=1)
    scheds = sorted(set(SCHED.findall(text)))
    ctx.notes['schedules'] = len(scheds)
    pairs = [(a, b) for a in KINDS for b in KINDS]
    cases = []
    for i in range(ctx.pick(330, 4000)):
        a, b = pairs[i % len(pairs)]
        if i >= len(pairs) and rng.random() < 0.5:   # the same stage
            a = b = rng.choice(['task', 'sampled', 'dist', 'score', 'analyze'])
        cases.append({'id': 'c%d' % i, 'kinds': [a, b], 'seed': rng.randrange(ctx.pick(2, 6)),
                      'vars': [rng.randrange(6) for _ in (0, 1)],
                      'ext': rng.choice(['', '.out', '.abx']),
                      'sched': json.loads(rng.choice(scheds)),
                      'cuts': [sorted(rng.random() for _ in range(7)) for _ in (0, 1)]})
    evs = lib.run_cases(ctx, 'conc_runs:conc', cases, timeout=200)
    for c, e in zip(cases, evs):
        if e and e[0].get('ev') == 'Error':
            e = [{'inputs': [1], 'outs': [2, 3], 'files': 3, 'events': e}]
        c.update(e[0])
    ctx.log('ran %d pairs of requests' % len(cases))
    ctx.notes['file_operations'] = sum(len(c['events']) for c in cases)
    for c in sorted(cases, key=lambda c: len(c['events']))[:2]:
        ctx.samples.append(c)

    def slim(c):
        return {'id': c['id'], 'inputs': c['inputs'], 'outs': c['outs'], 'files': c['files'],
                'events': [{k: v for k, v in e.items() if k != 'what' or e['ev'] == 'Error'} for e in c['events']]}
    bad = lib.judge(ctx, 'ConcTrace', [slim(c) for c in cases], batch=500)
    lib.record_bad(ctx, bad, cases)
    return ['the requests are in two processes; they are stopped at the places where they use files '
            '(opening, removing, reading and writing of datasets), not inside of the HDF5 library',
            'outputs are different files; the items have no missing label (the list of removed lines '
            'is written beside the item file)']


CRASH = ('SPECIFICATION Spec\nCONSTANTS N = %d\n Parts = %d\n MaxKills = %d\n Mark = %s\n'
         'INVARIANTS Pure Repairable\nPROPERTIES Kept\nCHECK_DEADLOCK FALSE\n')


def C26(ctx):
    rng = ctx.rng
    lib.model_check(ctx, 'Crash', CRASH % (3, 2, ctx.pick(3, 5), 'TRUE'))
    needed(ctx, 'Crash', CRASH % (3, 2, 2, 'FALSE'))
    so = os.path.join(ctx.scratch, 'crash.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so,
                        os.path.join(lib.HARNESS, 'crash.c'), '-ldl'])
    if r.returncode:
        raise lib.Machinery('crash.c does not compile')
    chain = ['convert', 'task', 'dist', 'score', 'analyze']
    cases = []
    many = ctx.pick({'convert': 40, 'task': 90, 'dist': 70, 'score': 40, 'analyze': 16},
                    {'convert': 300, 'task': 1500, 'dist': 700, 'score': 400, 'analyze': 150})
    for k in chain:
        for i in range(many[k]):
            by = rng.choice(['c3', 'c3', ''])
            cases.append({'id': '%s%d' % (k, i), 'stage': k, 'by': by, 'seed': rng.randrange(ctx.pick(2, 8)),
                          # the points in order, so that they are spread
                          'where': -1 if i == 0 else (i + rng.random()) / many[k] if rng.random() < 0.8 else rng.random(),
                          'torn': int(rng.random() < 0.3), 'again': int(rng.random() < 0.4),
                          'njobs': 2 if k == 'dist' and i % 10 == 0 else 1})
    rng.shuffle(cases)
    evs = lib.run_cases(ctx, 'crash_runs:run', cases, timeout=300, env={'LD_PRELOAD': so})
    for c, e in zip(cases, evs):
        c['events'] = e
        c['done'] = chain[:chain.index(c['stage'])] if c['stage'] != 'convert' else ['task']
    ctx.log('ran %d kills' % len(cases))
    ctx.notes['killed'] = {k: sum(1 for c in cases for e in c['events']
                                  if e['ev'] == 'Kill' and e['stage'] == k and e['died']) for k in chain}
    ctx.notes['changes_of_files'] = {k: max([e['of'] for c in cases for e in c['events'] if e['ev'] == 'Kill' and e['stage'] == k] or [0]) for k in chain}
    for c in sorted(cases, key=lambda c: len(c['events']))[:2]:
        ctx.samples.append(c)
    bad = lib.judge(ctx, 'CrashTrace', [{k: c[k] for k in ('id', 'events', 'done')} for c in cases], batch=500)
    lib.record_bad(ctx, bad, cases)
    return ['a process is killed between or inside of its writes; what it wrote is kept by the system',
            'one kill in each run; the killed stage has one process or is the main one of several']
