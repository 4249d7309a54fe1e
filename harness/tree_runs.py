"""Operations on the trees of tinytree, and answers of their nodes."""
import io

BIG = 10 ** 6


def run(case, d):
    import ABXpy.misc.tinytree as tt

    class Node(tt.Tree):
        flag = tt.Tree.treeProp('flag')

        def __str__(self):
            return u'\u00e9n%d' % self.num

    def fresh(n):
        nodes = []
        for k in range(1, n + 1):
            x = Node()
            x.num = k
            if k != 3:
                x.colour = 1 if k % 2 else 2
            if k % 2 == 0:
                x.flag = k
            nodes.append(x)
        return nodes

    def num(x):
        return 0 if x is None else x.num if isinstance(x, Node) else -BIG

    def nums(xs):
        out = []
        for x in xs:
            out.append(num(x))
            if len(out) > 50:        # endless
                break
        return out

    def tryit(f, other):
        try:
            return f()
        except ValueError:
            return other
    sels = [((), {'colour': 1}), ((lambda m: m.num > 2,), {}),
            ((lambda m: m.num > 2,), {'colour': 2}),
            ((lambda m: m.num % 4 == 0, lambda m: True), {'colour': 2})]

    def dump(x):
        f = io.StringIO()
        x.dump(f)
        out = []
        for line in f.getvalue().split('\n')[:-1]:
            name = line.lstrip('\t')
            # the accents are removed
            out.append([len(line) - len(name), int(name[2:]) if name[:2] == 'en' else -BIG])
        return out

    def state(nodes):
        kids = [nums(x.children) for x in nodes]
        par = [num(x.parent) for x in nodes]
        obs = []
        for x in nodes:
            up = nums(x.pathToRoot())
            if len(up) > 50:
                return {'kids': kids, 'par': par, 'obs': []}
            obs.append({
                'idx': tryit(x.index, -1), 'sib': nums(x.siblings()), 'up': up,
                'down': nums(x.pathFromRoot()), 'root': num(x.getRoot()), 'depth': x.getDepth(),
                'pre': nums(x.preOrder()), 'post': nums(x.postOrder()), 'count': x.count(),
                'next': num(x.getNext()), 'prev': num(x.getPrevious()),
                'desc': [y.num for y in nodes if x.isDescendantOf(y)],
                'isib': [y.num for y in nodes if x.isSiblingOf(y)],
                'fchild': [num(x.findChild(*a, **k)) for a, k in sels],
                'fparent': [num(x.findParent(*a, **k)) for a, k in sels],
                'ffwd': [num(x.findForwards(*a, **k)) for a, k in sels],
                'fback': [num(x.findBackwards(*a, **k)) for a, k in sels],
                'attr': x.findAttr('colour', 0), 'attrs': list(x.attrsToRoot('colour')),
                'prop': tryit(lambda: x.flag, 0), 'dump': dump(x)})
        return {'kids': kids, 'par': par, 'obs': obs}

    def do(nodes, o):
        x = nodes[o['n'] - 1]
        ms = [nodes[m - 1] for m in o['ms']]
        if o['op'] == 'add':
            x.addChild(ms[0])
            return []
        if o['op'] == 'remove':
            return [int(x.remove())]
        if o['op'] == 'clear':
            return nums(x.clear())
        if o['op'] == 'replace':
            x.replace(*ms)
            return []
        return [num(getattr(x, o['op'])(ms[0]))]

    ev = []
    if case['kind'] == 'list':
        nodes = fresh(case['n'])

        def nested(q):
            out = []
            for e in q:
                if e['v']:
                    out.append(nodes[e['v'] - 1])
                if e['list']:
                    out.append(nested(e['sub']) if case['seq'] == 0 else tuple(nested(e['sub'])))
            return out
        e = {'ev': 'List', 'ok': 1, 'heads': []}
        try:
            e['heads'] = nums(tt.constructFromList(nested(case['list'])))
            e.update(state(nodes))
        except ValueError:
            e['ok'] = 0
        return [e]
    for o in case['ops']:
        try:
            nodes = fresh(case['n'])
            for p in case['hist']:
                try:
                    do(nodes, p)
                except ValueError:
                    pass
            e = {'ev': 'Op', 'op': o, 'ok': 1, 'ret': []}
            try:
                e['ret'] = do(nodes, o)
            except ValueError:
                e['ok'] = 0
            e.update(state(nodes))
        except Exception as x:
            e = {'ev': 'Error', 'what': type(x).__name__}
        ev.append(e)
    return ev
