"""C24: the trees of columns."""
import json
import re

import lib

TREE = ('SPECIFICATION Spec\nCONSTANTS N = %d\n Export = %s\nVIEW View\n'
        'CHECK_DEADLOCK FALSE\n')
CHECKED = 'INVARIANTS Consistent Acyclic Traversals\nPROPERTIES Local\n'
STATE = re.compile(r'^"STATE\|(.*)"$', re.M)


def nested(rng, free, depth=0):
    """a random forest, as nested lists"""
    out = []
    for _ in range(rng.randrange(0 if depth else 1, 4)):
        if not free:
            break
        v = free.pop()
        has = rng.random() < (0.7 if depth < 3 else 0)
        out.append({'v': v, 'list': int(has), 'sub': nested(rng, free, depth + 1) if has else []})
    return out


def C24(ctx):
    rng = ctx.rng
    n = ctx.pick(4, 5)
    lib.model_check(ctx, 'Tree', TREE % (4, 'FALSE') + CHECKED)
    rc, text = lib.tlc(ctx, 'Tree', cfg_text=TREE % (n, 'TRUE'), workers=1)
    states = [json.loads(j.replace('\\"', '"')) for j in STATE.findall(text)]
    ctx.notes['trees'] = len(states)
    ctx.notes['transitions_of_the_specification'] = sum(len(s['ops']) for s in states)
    cases = []
    if ctx.thorough:
        states = rng.sample(states, min(len(states), 3000))
    for s in states:
        ops = s['ops']
        if len(ops) > ctx.pick(60, 60):
            ops = rng.sample(ops, ctx.pick(60, 60))
        cases.append({'kind': 'ops', 'n': n, 'hist': s['hist'], 'ops': ops})
    # larger trees: long histories
    for i in range(ctx.pick(150, 1500)):
        m = rng.choice([6, 8, 11])
        cases.append({'kind': 'ops', 'n': m, **walk(rng, m, rng.randrange(4, 30))})
    for i in range(ctx.pick(150, 1500)):
        m = rng.choice([3, 5, 8, 12])
        free = list(range(1, m + 1))
        rng.shuffle(free)
        q = nested(rng, free)
        bad = 0
        if i % 10 == 0:      # a list that no node precedes
            k = rng.choice([0, len(q) - 1])
            if k and not q[k]['list']:
                q[k] = dict(q[k], list=1)
            q.insert(0 if k == 0 else k + 1, {'v': 0, 'list': 1, 'sub': []})
            bad = 1
        cases.append({'kind': 'list', 'n': m, 'list': q, 'bad': bad, 'seq': rng.randrange(2)})
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (c['kind'], i)
    evs = lib.run_cases(ctx, 'tree_runs:run', cases, timeout=30)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases' % len(cases))
    ctx.notes['operations'] = sum(len(e) for e in evs)
    for c in sorted(cases, key=lambda c: len(json.dumps(c)))[:2]:
        ctx.samples.append(c)

    def slim(c):
        return {k: c[k] for k in ('id', 'n', 'events') + (
            ('hist',) if c['kind'] == 'ops' else ('list', 'bad'))}
    bad = lib.judge(ctx, 'TreeTrace', [slim(c) for c in cases], batch=1000)
    lib.record_bad(ctx, bad, cases)
    return ['a node is added, inserted or injected when it is the root of another tree '
            '(the library does not detach the nodes it is given)',
            'all the trees of %d nodes, long histories of up to 11 nodes sampled by VERIF_SEED' % n]


def walk(rng, m, steps):
    """operations which are legal one after the other (the specification
    computes the tree, this only follows the parents)"""
    par, kids = {k: 0 for k in range(1, m + 1)}, {k: [] for k in range(1, m + 1)}

    def root(k):
        while par[k]:
            k = par[k]
        return k
    hist = []
    for _ in range(steps):
        k = rng.randrange(1, m + 1)
        free = [j for j in par if not par[j] and root(k) != j]
        op = rng.choice(['add', 'add', 'add', 'remove', 'clear', 'replace', 'inject', 'reparent'])
        x = rng.choice(free) if free else None
        if op in ('add', 'inject', 'reparent') and x is None:
            continue
        if op in ('remove', 'replace', 'reparent') and not par[k]:
            if rng.random() < 0.7:
                continue
            hist.append({'op': op, 'n': k, 'ms': [x] if op == 'reparent' else []})
            continue
        ms = [x] if op in ('add', 'inject', 'reparent') else []
        if op == 'replace':
            ms = rng.sample(free, min(len(free), rng.randrange(0, 3)))
        hist.append({'op': op, 'n': k, 'ms': ms})
        p = par[k]
        if op == 'add':
            kids[k].append(x)
            par[x] = k
        elif op == 'clear':
            for j in kids[k]:
                par[j] = 0
            kids[k] = []
        elif op == 'inject':
            for j in kids[k]:
                par[j] = x
            kids[x] += kids[k]
            kids[k] = [x]
            par[x] = k
        else:
            new = {'remove': [], 'replace': ms, 'reparent': ms}[op]
            i = kids[p].index(k)
            kids[p][i:i + 1] = new
            par[k] = 0
            for j in new:
                par[j] = p
            if op == 'reparent':
                kids[x].append(k)
                par[k] = x
    return {'hist': hist[:-1], 'ops': hist[-1:]}
