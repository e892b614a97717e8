from resync.client_state import ClientState
from .lib import BASE, ROOT, LIST, Web, entry, when
from .syncs import CHANGES, KINDS, STATE, is_state, changelist, change, client, local, resourcelist, served, store, stored

INFO = {
    'bounds': 'lists of 1-3 entries with symbolic times (whole and half seconds, absent in baseline lists), destination files with '
              'symbolic times present or not, a destination-only file, deletion allowed or not, symbolic stored time present or '
              'not; errors: failing download at any entry, unreadable list, unauthorized entry, undated change, refused URI, a state file that cannot be opened, written or replaced; '
              'followed by a second incremental sync of the same change list; two syncs of any kind (of one or two sources) with one '
              'client object',
    'outside': 'ignored failures and deletions that are not allowed are not applied by the user\'s choice and may be passed',
    'assumptions': ['a change is not dated before the modification time of the resource it gives'],
}


def half(sx, name, lo=0, hi=9):
    """(text, value): a time with optional half second."""
    return when(sx, name, lo, hi, '.5' if name == 't1' or name == 't0' and sx.flag(name + '.half') else '')


def prior(sx):
    had = sx.flag('stored')
    if had:
        d = sx.int('stored.s', 0, 9)
        store(sx, '157783680%d.25' % d)
        return BASE + d + 0.25
    return None


def latest(sx, ts):
    m = None
    for t in ts:
        m = t if m is None else sx.ite(t > m, t, m)
    return m


def same_state(sx, a, b):
    return a is None and b is None or a is not None and b is not None and sx.eq(a, b)


def p_baseline(sx):
    env = sx.env
    n = 3 if sx.thorough else 2
    old = prior(sx)
    table, es, facts = {}, [], []
    for i in range(n):
        nm = ['a', 'x/b', 'c'][i]
        text = ts = None
        if sx.flag('t%d?' % i):
            text, ts = half(sx, 't%d' % i)
        st = sx.choice('p%d' % i, ['absent', 'present'])
        if st == 'present':
            local(sx, 'd%d' % i, 'd/' + nm, tags=0)
        es.append(entry(sx, ROOT + '/' + nm, lastmod=text))
        fail = sx.flag('fail%d' % i) if not sx.thorough or i < 2 else False
        table[ROOT + '/' + nm] = OSError('gone') if fail else b'new'
        facts.append((ROOT + '/' + nm, ts, fail))
    ignore = sx.flag('ignore') if any(f for u, ts, f in facts) else False
    extra = sx.choice('extra', ['no', 'kept', 'deleted'] if not ignore else ['no', 'kept'])
    if extra != 'no':
        env.mkfile('d/q', b'q', BASE + 20)
    table[LIST] = resourcelist(sx, es)
    w = env.handler = Web(sx, table)
    o = sx.attempt(client(ignore_failures=ignore, tries=2).baseline_or_audit, allow_deletion=extra == 'deleted')
    now = stored()
    if not o.ok:
        sx.check(any(f for u, ts, f in facts) and not ignore, 'an error only if a download fails')
        sx.check(same_state(sx, now, old), 'an error leaves the stored time as it was')
        sx.check(not any(is_state(x) for x in env.effects), 'an error leaves the stored state untouched')
        sx.reach('error')
        return
    want = latest(sx, [ts for u, ts, f in facts if u in w.fetched and ts is not None and not f])
    if any(f for u, ts, f in facts if u in w.fetched):
        sx.reach('ignored')
    if want is None:
        sx.check(same_state(sx, now, old), 'nothing fetched with a time leaves the stored time as it was')
        sx.reach('nothing')
    else:
        sx.check(now is not None and sx.eq(now, want), 'the stored time is the latest listed time of the resources fetched')
        sx.reach('stored')


def p_incremental(sx):
    env = sx.env
    n = sx.choice('n', [1, 2, 3]) if sx.thorough else sx.choice('n', [1, 2])
    old = prior(sx)
    frm = None
    trouble = sx.choice('trouble', ['none', 'fetch', 'authority', 'undated', 'outside', 'unreadable'])
    if old is None or trouble == 'none' and sx.flag('from?'):
        frm = when(sx, 'from')[0]
    table, es, tss = {}, [], []
    dele = sx.flag('delete')
    at = sx.choice('where', list(range(n))) if trouble in ('fetch', 'authority', 'undated', 'outside') else None
    allowed = True
    for i in range(n):
        nm = ['a', 'x/b', 'c'][i]
        uri = ROOT + '/' + nm
        if trouble == 'none':
            text, ts = half(sx, 't%d' % i)
            k = sx.choice('c%d' % i, ['updated', 'deleted'])
            lm = text if i == 0 and sx.flag('lm%d' % i) else None
        else:
            text, ts = when(sx, 't%d' % i)
            k, lm = 'updated', text
            if at is not None and at != i and sx.flag('c%d.deleted' % i):
                k = 'deleted'
        table[uri] = b'new'
        if at == i:
            if trouble == 'fetch':
                table[uri] = OSError('gone')
                k = 'updated'
            elif trouble == 'authority':
                uri = 'http://g/s/' + nm
            elif trouble == 'undated':
                text = lm = None
            else:
                uri = ROOT + '/../' + nm
        if k == 'deleted':
            env.mkfile('d/' + nm, b'old', BASE)
            allowed = allowed and dele
        es.append(change(sx, uri, k, lastmod=lm, at=text))
        tss.append(ts)
    table[CHANGES] = changelist(sx, es) if trouble != 'unreadable' else OSError('gone')
    w = env.handler = Web(sx, table)
    c = client(spec_version='1.1')
    o = sx.attempt(c.incremental, allow_deletion=dele, change_list_uri=CHANGES, from_datetime=frm)
    now = stored()
    if not o.ok:
        sx.check(trouble != 'none', 'an error only if there is trouble')
        sx.check(same_state(sx, now, old), 'an error leaves the stored time as it was')
        sx.reach('error')
        return
    sx.check(trouble == 'none' or trouble in ('fetch', 'outside'), 'a faulty list ends the sync with an error')
    applied = [x for x in env.effects if not is_state(x)]
    if len(applied) == 0:
        sx.check(now is None and old is None or now is not None and sx.or_(
            sx.eq(now, old) if old is not None else False, sx.eq(now, latest(sx, tss))),
            'a sync with nothing to apply stores the latest time or leaves it')
        sx.reach('nothing')
        return
    sx.check(now is not None and sx.eq(now, latest(sx, tss)), 'the stored time is the latest change time listed')
    sx.reach('stored')
    if trouble != 'none':
        return
    # a second sync from the stored time repeats only the changes at that very time
    w.fetched = []
    m = len(env.effects)
    o = sx.attempt(client(spec_version='1.1').incremental, allow_deletion=dele, change_list_uri=CHANGES)
    sx.check(o.ok, 'the second sync reports no error')
    for i in range(n):
        uri = ROOT + '/' + ['a', 'x/b', 'c'][i]
        if uri in w.fetched:
            sx.check(tss[i] >= now, 'a second sync does not repeat earlier changes')
            sx.reach('repeated')
    sx.check(sx.eq(stored(), now), 'the stored time stays')


def p_reused(sx):
    """One client object used for two syncs of different sources."""
    env = sx.env
    c = client(spec_version='1.1')
    table, seen = {}, {}
    env.handler = Web(sx, table)
    sites = [ROOT + '/first.xml', LIST]
    if sx.flag('same'):
        sites[0] = LIST
    for i in range(2):
        kind = sx.choice('kind%d' % i, ['baseline', 'incremental'])
        tss, es = [], []
        for j in range(2 if i else 1):
            nm = 'n%d%d' % (i, j)
            text, ts = half(sx, 't%d%d' % (i, j))
            k = 'updated'
            if kind == 'baseline':
                es.append(entry(sx, ROOT + '/' + nm, lastmod=text))
            else:
                if j == 1 and sx.flag('deleted'):
                    k = 'deleted'
                    env.mkfile('d/' + nm, b'old', BASE + 30)
                es.append(change(sx, ROOT + '/' + nm, k, lastmod=text if sx.flag('lm%d%d' % (i, j)) else None, at=text))
            table[ROOT + '/' + nm] = b'new'
            tss.append(ts)
        c.sitemap_name = sites[i]
        if kind == 'baseline':
            table[sites[i]] = resourcelist(sx, es)
            o = sx.attempt(c.baseline_or_audit)
        else:
            table[CHANGES] = changelist(sx, es)
            o = sx.attempt(c.incremental, allow_deletion=True, change_list_uri=CHANGES, from_datetime='2020-01-01')
        sx.check(o.ok, 'each sync works')
        seen[sites[i]] = latest(sx, tss)
        for u in seen:
            got = ClientState().get_state(u)
            sx.check(got is not None and sx.eq(got, seen[u]), 'the time stored for each source is that of its own last sync')
    # a later sync starts from the time of its own source
    j = sx.int('later', 0, 1)
    c.sitemap_name = sites[j]
    text, ts = half(sx, 'later.ts')
    table[CHANGES] = changelist(sx, [change(sx, ROOT + '/z', 'created', at=text)])
    table[ROOT + '/z'] = b'new'
    o = sx.attempt(c.incremental, change_list_uri=CHANGES)
    sx.check(o.ok, 'each sync works')
    sx.check((env.kind('d/z') == 'file') == (ts >= seen[sites[j]]), 'a later sync starts from the time stored for its source')
    sx.reach('twice')


def p_unstored(sx):
    """The time cannot be stored."""
    env = sx.env
    old = prior(sx)
    mode = sx.choice('mode', ['baseline', 'incremental'])
    sx.assume(old is not None or mode == 'baseline')
    text, ts = when(sx, 't1', 0, 9)
    table = {ROOT + '/a': b'new', LIST: resourcelist(sx, [entry(sx, ROOT + '/a', lastmod=text)]),
             CHANGES: changelist(sx, [change(sx, ROOT + '/a', 'created', at='2020-01-01T00:00:12Z', lastmod=text)])}
    env.handler = Web(sx, table)
    bad = sx.choice('op', ['open', 'write', 'rename'])
    left = [sx.choice('after', [0, 1, 2]) if bad == 'write' else 0]

    def fault(op, path, how):
        if op != bad or not path.startswith(STATE) or op == 'open' and 'w' not in how:
            return None
        left[0] -= 1
        return OSError(28, 'No space left') if left[0] < 0 else None
    env.fault_fn = fault
    c = client()
    o = sx.attempt(c.incremental, change_list_uri=CHANGES) if mode == 'incremental' else sx.attempt(c.baseline_or_audit)
    env.fault_fn = None
    sx.check(env.content('d/a') == b'new', 'the resource is fetched')
    if not o.ok:
        sx.check(same_state(sx, stored(), old), 'an error leaves the stored time as it was')
        sx.reach('unstored')
    else:
        sx.check(same_state(sx, stored(), BASE + 12 if mode == 'incremental' else ts), 'success leaves the time stored')
        sx.reach('stored')


HARNESSES = [
    ('unstored', p_unstored, {'expect': ['unstored']}),
    ('reused', p_reused, {'expect': ['twice']}),
    ('baseline', p_baseline, {'expect': ['error', 'nothing', 'stored', 'ignored']}),
    ('incremental', p_incremental, {'expect': ['error', 'nothing', 'stored', 'repeated']}),
]
