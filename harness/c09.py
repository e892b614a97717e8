from .lib import BASE, ROOT, LIST, Web, entry, when
from .syncs import CHANGES, KINDS, STATE, changelist, change, client, resourcelist, store, stored
from .c08 import spec
from resync.mapper import Mapper

INFO = {
    'bounds': 'lists of 1-3 entries of which one, at any position, has a symbolic URL (scheme http or https; 0-2 symbolic '
              'characters before the list\'s server name; the list\'s directory followed by 0-2 symbolic characters, or its '
              'parent directory); lists given by URL, by relative name, under the default name, or on another server; every '
              'change type; symbolic change times before, at and after the start; lax, strict, off; deletion allowed or not; dry run or not; '
              'stored time present',
    'outside': 'the decision for arbitrary pairs of URLs is C08; here it is taken for the URLs above',
    'assumptions': ['the authority of a list is that of the configured list location: for a change list under its default name '
                    'either its own or that of the configured resource list'],
}
OTHER = 'http://g/s/changelist.xml'


def maps(us, odd):
    return Mapper(['http://h/s=d', 'http://g/s=d1', odd['scheme'] + '://' + odd['host'] + '=d2'])


def odd_url(sx, longer=False):
    u = {'scheme': sx.choice('scheme', ['http', 'https'])}
    pre = sx.str('server', 'w.', 0, 2)
    if len(pre) > 0:
        sx.assume(pre[0] != '.')
    u['host'] = pre + 'h'
    if sx.flag('parent'):
        u['path'] = '/f'
    else:
        u['path'] = '/s' + sx.str('dir', 'a/', 0, 2 if longer else 1) + '/f'
    u['url'] = u['scheme'] + '://' + u['host'] + u['path']
    return u


def plain(host, name):
    p = '/s/' + name
    return {'scheme': 'http', 'host': host, 'path': p, 'url': 'http://' + host + p}


def listed(sx, n, odd, host='h'):
    pos = sx.choice('pos', list(range(n)))
    return [odd if i == pos else plain(host, 'n%d' % i) for i in range(n)]


def finish(sx, o, web, allowed, had, us):
    env = sx.env
    fetched = [u for u in web.fetched if any([u == x['url'] for x in us])]
    if not allowed:
        sx.check(not o.ok, 'a list naming a resource outside its authority ends with an error')
        sx.check(len(fetched) == 0, 'no resource was fetched')
        sx.check(len(env.effects) == 0, 'nothing was written, deleted or stored')
        sx.check(stored() == (BASE + 3.0 if had else None), 'the stored time is unchanged')
        sx.reach('refused')
    else:
        sx.check(o.ok, 'a list naming only resources under its authority is not refused')
        sx.reach('accepted')
    sx.observe('ok', o.ok)


def p_baseline(sx):
    env = sx.env
    mode = sx.choice('mode', ['lax', 'strict', 'off'])
    odd = odd_url(sx, sx.thorough)
    us = listed(sx, sx.choice('n', [1, 2, 3]), odd)
    c = client(noauth=mode == 'off', strictauth=mode == 'strict', dryrun=sx.flag('dryrun'))
    c.mapper = maps(us, odd)
    if sx.choice('list', ['given', 'default']) == 'default':
        c.sitemap_name = None
    same = len(us) > 1 and sx.flag('same')       # the first file is there already
    table = {LIST: resourcelist(sx, [entry(sx, u['url'], lastmod='2020-01-01T00:00:05Z', length='3') for u in us])}
    for u in us:
        table[u['url']] = b'new'
    if same:
        env.mkfile(c.mapper.src_to_dst(us[0]['url']), b'old', BASE + 5)
    store(sx, '1577836803.0')
    w = env.handler = Web(sx, table)
    o = sx.attempt(c.baseline_or_audit, allow_deletion=sx.flag('delete'))
    m = {'scheme': 'http', 'host': 'h', 'path': '/s/resourcelist.xml'}
    allowed = mode == 'off' or all([spec(sx, mode == 'strict', m, u) for u in us])
    finish(sx, o, w, allowed, True, us)


def p_incremental(sx):
    env = sx.env
    mode = sx.choice('mode', ['lax', 'strict', 'off'])
    how = sx.choice('list', ['relative', 'url', 'default', 'other'])
    odd = odd_url(sx, sx.thorough)
    us = listed(sx, sx.choice('n', [1, 2]), odd, 'g' if how == 'other' else 'h')
    c = client(noauth=mode == 'off', strictauth=mode == 'strict', dryrun=sx.flag('dryrun'))
    c.mapper = maps(us, odd)
    arg = {'relative': 'changelist.xml', 'url': CHANGES, 'default': None, 'other': OTHER}[how]
    where = OTHER if how == 'other' else CHANGES
    table, es = {}, []
    for k, u in enumerate(us):
        kind = sx.choice('c%d' % k, KINDS) if k == 0 or sx.thorough else 'updated'
        table[u['url']] = b'new'
        text, ts = when(sx, 'c%d.ts' % k, 2, 4)
        es.append(change(sx, u['url'], kind, at=text, lastmod='2020-01-01T00:00:01Z'))
        if kind == 'deleted':
            env.mkfile(c.mapper.src_to_dst(u['url']), b'old', BASE)
    table[where] = changelist(sx, es)
    w = env.handler = Web(sx, table)
    store(sx, '1577836803.0')
    o = sx.attempt(c.incremental, allow_deletion=sx.flag('delete'), change_list_uri=arg)
    m = {'scheme': 'http', 'host': 'g' if how == 'other' else 'h', 'path': '/s/x'}
    allowed = mode == 'off' or all([spec(sx, mode == 'strict', m, u) for u in us])
    finish(sx, o, w, allowed, True, us)


HARNESSES = [
    ('baseline', p_baseline, {'expect': ['accepted', 'refused']}),
    ('incremental', p_incremental, {'expect': ['accepted', 'refused']}),
]
