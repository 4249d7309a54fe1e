"""Loads item files and projects what was loaded."""
import csv
import os

WORDS = {'esp': [u'a\u00a0b', u'a\u2003b', u'a\u3000c', u'a\u00a0c', u'b\u00a0b', u'a', u'b', u'a\u2009b', u'a\u202fb',
                 u'a\u205fb', u'a\u2002c', u'ab', u'a\u00a0\u00a0b', u'c\u2004b', u'c\u2005c'],
         'odd': ['"', "r\"", '#a', "'", '\\', ',', '|', '&', '{', '@', 't_h', '2:', '-', '<p>', '%s'],
         'uni': [u'\u0283', u'\u00e9', u'\u65e5\u672c', u'\u014b', u'\u03b8', u'\u0254', u'\u00f8',
                 u'\u0292', u'\u026a', u'\u00fc', u'\u00e0', u'\u044f', u'\u05d0', u'\u00df', u'e\u0301']}


def text(style, lab):
    """spelling of a label ('a', 'b', ... 'o')"""
    k = ord(lab) - ord('a') if len(lab) == 1 else int(lab[1:])
    if style == 'word':
        return 'w' + lab
    if style == 'int':
        return str(k + 1)
    if style == 'big':
        return str(1000003 * (k + 1))
    if style == 'flt':
        return '%.3f' % (k + 0.125)
    if style == 'neg':
        return str(k - 3)
    if style == 'mix':
        return str(k + 1) if k != 1 else 'two'
    if style == 'case':
        return ('x', 'X', 'xx', 'Xx', 'xX', 'XX')[k] if k < 6 else 'y' + lab
    return WORDS[style][k] if k < 15 else 'w' + lab


def run(case, d):
    import ABXpy.database.database as database
    styles, names = case['styles'], case['names']
    sub = os.path.join(d, case.get('dir', '.'))
    os.makedirs(sub, exist_ok=True)
    base = os.path.join(sub, case.get('base', 'data'))
    sep, lead, trail = case['sep'], case['lead'], case['trail']
    eol = case['eol']
    where = {}

    def write(path, lines):
        t = eol.join(lead[i % len(lead)] + sep[i % len(sep)].join(l) + trail[i % len(trail)]
                     if l is not None else case['blank']
                     for i, l in enumerate(lines))
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write(t + (eol if case['final'] else ''))
        return path
    head = ['#file', 'onset', 'offset'] + [names[c] for c in case['cols']]
    head[3] = '#' + head[3]
    lines = [case.get('badhead') or head]
    for i, r in enumerate(case['rows']):
        if case['loc'][i] == 0:
            lines.append(None)
            continue
        k = case['loc'][i] - 1       # the same place may be there several times
        loc = ['f%d' % (k % 3), case['onfmt'] % (k // 3), case['onfmt'] % (k // 3 + 7)]
        where[(loc[0], float(loc[1]), float(loc[2]))] = case['loc'][i]
        lines.append(loc + [text(styles[c], v) for c, v in zip(case['cols'], r)])
    files = [write(base + '.item', lines)]
    for a in case['aux']:
        al = [[names[a['key']]] + [names[c] for c in a['cols']]]
        for r in a['rows']:
            al.append([text(styles[c], v) for c, v in zip([a['key']] + a['cols'], r)] or None)
        files.append(write(base + '.' + names[a['key']], al))
    before = [open(f, 'rb').read() for f in files]
    name = base + '.item' if case['withext'] else base
    if case['relative']:
        os.chdir(sub)
        name = os.path.relpath(name, sub)
    try:
        first = database.load(name, features_info=True)
        second = database.load(name)
        db, forest, feat = first
    except AssertionError as e:
        return [{'ev': 'Refused', 'what': 'AssertionError'}]
    except Exception as e:
        return [{'ev': 'Error', 'what': type(e).__name__}]
    finally:
        os.chdir(d)
    cols = {v: k for k, v in names.items()}
    every = set()
    for t in [case] + case['aux']:
        every.update(l for r in t['rows'] for l in r)
    back = {c: {text(styles[c], l): l for l in every} for c in styles}

    def lab(c, v):
        v = str(v)
        if v in ('nan', ''):
            return '?'
        if v in back[c]:
            return back[c][v]
        try:
            for t, l in back[c].items():
                try:
                    if float(t) == float(v):
                        return l
                except ValueError:
                    pass
        except ValueError:
            pass
        return '!'
    e = {'ev': 'Load'}
    e['cols'] = [cols.get(c, '!') for c in db.columns]
    e['labels'] = [[lab(c, v) for c, v in zip(e['cols'], r)] if '!' not in e['cols'] else []
                   for r in db.values.tolist()]
    def num(v):
        try:
            return float(v)
        except (TypeError, ValueError):
            return None
    e['locs'] = [where.get((str(f), num(on), num(off)), -1) for f, on, off
                 in zip(feat['file'], feat['onset'], feat['offset'])]
    e['rcols'], e['removed'] = [], []
    if os.path.exists(base + '-removed.item'):
        with open(base + '-removed.item', encoding='utf8', newline='') as f:
            rows = list(csv.reader(f))
        e['rcols'] = [cols.get(c, '!') for c in rows[0][1:]]
        e['removed'] = [[lab(c, v) for c, v in zip(e['rcols'], r[1:])]
                        if '!' not in e['rcols'] else [] for r in rows[1:]]
    e['again'] = int(second[0].equals(db))
    e['inputs'] = int(before == [open(f, 'rb').read() for f in files])
    edges = []

    def walk(n):
        for ch in n.children:
            edges.append([cols.get(n.name, '!'), cols.get(ch.name, '!')])
            walk(ch)
    for n in forest:
        walk(n)
    e['roots'] = [cols.get(n.name, '!') for n in forest]
    e['edges'] = edges
    return [e]
