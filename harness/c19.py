from resync.change_list import ChangeList
from resync.resource import Resource
from resync.w3c_datetime import datetime_to_str

INFO = {
    'bounds': 'change lists of 0-5 entries (6 thorough) with symbolic URIs (some prefixes of others), any change type or none; symbolic change and modification times (quarter '
              'seconds) or none, symbolic threshold, both specification versions',
    'outside': 'longer lists',
}
CH = ['created', 'updated', 'deleted']


def lst(sx, n, build):
    """A change list with entries in order; ids identify the entries."""
    if sx.flag('as_list'):
        c = ChangeList(resources=[build(i) for i in range(n)])
    else:
        c = ChangeList()
        for i in range(n):
            c.add(build(i))
    return c, list(c.resources)


def p_dupes(sx):
    n = sx.choice('n', list(range(7 if sx.thorough else 6)))
    chs, uris = [], []

    def build(i):
        u = 'http://h/' + (sx.strn('u%d' % i, 'ab', 1) if n >= 5 else sx.str('u%d' % i, 'ab', 0, 2) if i in (0, n - 1)
                           else sx.strn('u%d' % i, 'abc', 1))
        ch = sx.choice('c%d' % i, CH)
        chs.append(ch)
        uris.append(u)
        return Resource(u, change=ch, length=i)
    c, es = lst(sx, n, build)
    keep = []
    for i in range(n):
        last = True
        for j in range(i + 1, n):
            if uris[j] == uris[i]:
                last = False
        if not last:
            continue
        first, count = i, 1
        for j in reversed(range(i)):
            if uris[j] == uris[i]:
                first = j
                count += 1
        if count > 1 and chs[first] == 'created' and chs[i] == 'deleted':
            sx.reach('created and deleted')
            continue
        keep.append(i)
    o = sx.attempt(c.prune_dupes)
    sx.check(o.ok, 'removal succeeds')
    sx.check(o.value == n - len(keep), 'the number of entries removed is reported')
    got = list(c)
    sx.check(len(got) == len(keep), 'the last entry of each URI remains')
    for g, k in zip(got, keep):
        sx.check(g is es[k], 'the entries remaining keep their order')
    if len(keep) < n:
        sx.reach('removed')
    else:
        sx.reach('all kept')
    sx.observe('kept', [r.length for r in got])


def p_before(sx):
    n = sx.choice('n', [0, 1, 2, 3] + ([4, 5] if sx.thorough else [4]))
    version = sx.choice('version', ['1.0', '1.1', None])
    t = sx.ts('t', 0, 20, 2)
    dt, ts = [], []

    def build(i):
        d = sx.ts('d%d' % i, 0, 20, 2)
        m = sx.ts('m%d' % i, 0, 20, 2)
        if i == 2:
            hd = hm = sx.flag('dated2')
        elif i == 1:
            hd = sx.flag('hd%d' % i)
            hm = sx.flag('hm%d' % i)
        else:
            hd = hm = True
        r = Resource('http://h/' + sx.strn('u%d' % i, 'ab', 1), change=sx.choice('c%d' % i, CH if i == 0 else ['updated']), length=i,
                     timestamp=m if hm else None, ts_datetime=d if hd else None)
        dt.append(d if hd else None)
        ts.append(m if hm else None)
        return r
    c, es = lst(sx, n, build)
    times = ts if version == '1.0' else dt
    o = sx.attempt(c.prune_updates_before, t) if version is None else sx.attempt(c.prune_updates_before, t, spec_version=version)
    if None in times:
        sx.check(not o.ok, 'a list with an undated entry is refused')
        sx.check(len(c.resources) == n, 'and not changed')
        sx.reach('refused')
        return
    sx.check(o.ok, 'removal succeeds')
    keep = [i for i in range(n) if times[i] >= t]
    sx.check(o.value == n - len(keep), 'the number of entries removed is reported')
    got = list(c)
    sx.check(len(got) == len(keep), 'exactly the entries at or after the time remain')
    for g, k in zip(got, keep):
        sx.check(g is es[k], 'in order')
    if len(keep) < n:
        sx.reach('removed')
    else:
        sx.reach('all kept')
    sx.observe('kept', [r.length for r in got])


HARNESSES = [('dupes', p_dupes, {'expect': ['created and deleted', 'removed', 'all kept']}),
             ('before', p_before, {'expect': ['refused', 'removed', 'all kept']})]
