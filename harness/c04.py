from .lib import BASE, ROOT, LIST, Web, entry, listing, when
from .syncs import CHANGES, KINDS, STATE, changelist, change, client, fs_effects, local, served, state_effects, store

INFO = {
    'bounds': 'change lists of 1-3 entries (4 thorough) over two URIs in different directories, any order, change types and times '
              'in 0-9 s; start time explicit, stored, both or neither (whole and half seconds), or the epoch; change lists of 2-3 parts (4 thorough), on the web or local; change time as datetime (1.1) or '
              'modification time (1.0); destination files present or not; deletion allowed or not; a destination file not mentioned',
    'outside': 'longer lists and more than two URIs; failing downloads (C18); authority (C09)',
    'assumptions': [],
}
NAMES = ['a', 'x/b']


def run(sx, n, starts, versions, undated=False, dele=None, present=None, kinds=KINDS, simple=False):
    env = sx.env
    version = sx.choice('version', versions)
    locs = {}
    for i, nm in enumerate(NAMES):
        if (sx.flag('d%d' % i) if present is None else present[i]):
            locs[nm] = local(sx, 'd%d' % i, 'd/' + nm)
    kept = env.blob(3, 3)
    env.mkfile('d/q', kept, BASE)
    web = {ROOT + '/' + nm: served(sx, 's%d' % i, tags=2) for i, nm in enumerate(NAMES)}
    es, facts = [], []
    lm = '2020-01-01T00:00:00Z' if version == '1.1' and not simple and sx.flag('lm') else None
    for i in range(n):
        nm = NAMES[0] if i == 0 else sx.choice('u%d' % i, NAMES)
        k = sx.choice('c%d' % i, kinds)
        if simple:
            text, ts = '2020-01-01T00:00:05Z', BASE + 5
            if not sx.flag('c%d.after' % i):
                text, ts = '2020-01-01T00:00:03Z', BASE + 3
        else:
            text, ts = when(sx, 'c%d.ts' % i, frac=sx.choice('c%d.frac' % i, ['', '.5']) if i == 0 and n == 1 else '')
        dated = not (undated and sx.flag('c%d.undated' % i))
        if not dated:
            es.append(change(sx, ROOT + '/' + nm, k))
        elif version == '1.0':
            es.append(change(sx, ROOT + '/' + nm, k, lastmod=text))
        else:
            es.append(change(sx, ROOT + '/' + nm, k, at=text, lastmod=lm))
        facts.append((nm, k, ts, dated))
    web[CHANGES] = changelist(sx, es)
    w = env.handler = Web(sx, web)
    start = sx.choice('start', starts)
    frm = expl = None
    if start in ('stored', 'both'):
        sd = sx.int('stored', 0, 9)
        store(sx, '157783680%d.5' % sd)
        frm = BASE + sd + 0.5
    if start == 'epoch':
        sd = sx.int('stored', 0, 9)
        store(sx, '157783680%d.5' % sd)
        expl, frm = '1970-01-01T00:00:00Z', 0
    if start in ('explicit', 'both'):
        expl, frm = when(sx, 'from', frac=sx.choice('from.frac', ['', '.5', '.25']) if n < 3 and not simple else '')
    if dele is None:
        dele = sx.flag('delete')
    o = sx.attempt(client(spec_version=version).incremental, allow_deletion=dele, change_list_uri=CHANGES, from_datetime=expl)
    if frm is None or not all(d for nm, k, ts, d in facts):
        sx.check(not o.ok, 'no start time or an undated change is refused')
        sx.check(len(env.effects) == 0, 'a refused sync changes nothing')
        sx.reach('refused')
        return
    sx.check(o.ok, 'the sync reports no error')
    for nm in NAMES:
        uri, p = ROOT + '/' + nm, 'd/' + nm
        mine = [(k, ts) for m, k, ts, d in facts if m == nm]
        last = None
        for k, ts in mine:          # last considered in list order
            if ts >= frm:
                last = k
        g = locs.get(nm)
        if last in ('created', 'updated'):
            sx.check(env.content(p) == web[uri], 'a created or updated resource has the content served')
            sx.reach('fetched')
        elif last == 'deleted' and dele:
            sx.check(env.kind(p) is None, 'a deleted resource is absent')
            sx.reach('deleted')
        else:
            sx.check(uri not in w.fetched, 'a resource without considered change is not fetched')
            sx.check(not any(x[1] == p for x in env.effects), 'a resource without considered change is untouched')
            if g is None:
                sx.check(env.kind(p) is None, 'nothing appears for a resource without considered change')
            else:
                sx.check(sx.and_(env.content(p) == g['content'], env.mtime(p) == g['mtime']),
                         'a resource without considered change is untouched')
            sx.reach('left')
    sx.check(sx.and_(env.content('d/q') == kept, env.mtime('d/q') == BASE), 'a file not mentioned is untouched')
    for p in env.tree('d'):
        if env.kind('d/' + p) == 'file':
            sx.check(p == 'q' or p in NAMES, 'no other file is made')
    if not dele:
        sx.check(not any(x[0] in ('unlink', 'rmdir', 'rename') for x in fs_effects(env)), 'nothing is removed without deletion')
    sx.observe('fetched', list(w.fetched))


def p_net(sx):
    run(sx, 3, ['explicit'], ['1.1'], dele=True, present=sx.choice('present', [(True, True), (False, False)]), simple=True)


def p_net4(sx):
    run(sx, 4, ['stored'], ['1.1'], dele=True, present=(True, False), simple=True)


def p_options(sx):
    run(sx, 2, ['explicit', 'stored', 'both'], ['1.0', '1.1'],
        present=(True, False) if not sx.thorough else None)


def p_start(sx):
    n = sx.choice('n', [1, 2, 3])
    run(sx, n, ['explicit', 'stored', 'both', 'neither', 'epoch'], ['1.0', '1.1'], undated=True, present=(True, False), dele=False,
        kinds=KINDS if n == 1 else ['updated'], simple=n > 1)


def p_parts(sx):
    """A change list of several parts."""
    env = sx.env
    ps = []
    n = sx.int('n', 2, 4 if sx.thorough else 3)
    how = sx.choice('index', ['web', 'local', 'default'])
    at = ROOT + '/p'
    table, want = {}, {}
    for i in range(n):
        nm = 'n%d' % i if i else sx.strn('n0', 'abn', 1)
        k = sx.choice('c%d' % i, ['updated', 'deleted']) if i < 2 else 'created'
        text, ts = when(sx, 't%d' % i)
        b = served(sx, 's%d' % i)
        table[ROOT + '/' + nm] = b
        if k == 'deleted':
            env.mkfile('d/' + nm, b, BASE + 30)
        c = changelist(sx, [change(sx, ROOT + '/' + nm, k, at=text)])
        # parts of a local index are read at the place mapped
        env.mkfile('d/p%d.xml' % i, c if how == 'local' else 'old', BASE)
        table[at + '%d.xml' % i] = c if how != 'local' else OSError('not there')
        ps.append(at + '%d.xml' % i)
        want[nm] = (k, ts, b)
    index = env.xml(listing(sx, 'changelist', [entry(sx, u, tag='sitemap') for u in ps], root='sitemapindex'))
    table[CHANGES] = index
    env.mkfile('i.xml', index, BASE)
    w = env.handler = Web(sx, table)
    expl, frm = when(sx, 'from')
    c = client(spec_version='1.1', noauth=how == 'local')
    o = sx.attempt(c.incremental, allow_deletion=True, from_datetime=expl,
                   change_list_uri={'web': CHANGES, 'local': 'file:i.xml', 'default': None}[how])
    sx.check(o.ok, 'the sync reports no error')
    for nm, (k, ts, b) in want.items():
        if ts < frm:
            sx.check(ROOT + '/' + nm not in w.fetched, 'a change before the start is not fetched')
        elif k == 'deleted':
            sx.check(env.kind('d/' + nm) is None, 'a deleted resource is absent')
        else:
            sx.check(env.content('d/' + nm) == b, 'a created or updated resource has the content served')
    sx.reach(how)


HARNESSES = [
    ('parts', p_parts, {'expect': ['web', 'local', 'default']}),
    ('net', p_net, {'expect': ['fetched', 'deleted', 'left']}),
    ('net4', p_net4, {'expect': ['fetched', 'deleted', 'left'], 'thorough_only': True}),
    ('options', p_options, {'expect': ['fetched', 'deleted', 'left']}),
    ('start', p_start, {'expect': ['refused', 'fetched', 'left']}),
]
