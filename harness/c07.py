import os
from resync.client import Client
from resync.client_utils import ClientFatalError
from resync.mapper import Map, Mapper

INFO = {
    'bounds': 'local source and destination paths of up to 4 characters (5 thorough) over two letters, dot and slash, '
              'relative or under the current directory, with no scheme, file:, file:// or file://localhost (absolute); web sources; one '
              'to three mappings; baseline and incremental with and without deletion, dry run or not',
    'outside': 'symbolic links, percent-escapes in file URLs, paths with two leading slashes',
}


def resolve(path):
    """Absolute component list of a local path; '' means the root (stripped slash)."""
    if len(path) == 0:
        return []
    out = [] if path.startswith('/') else [c for c in os.getcwd().split('/') if c]
    for c in path.split('/'):
        if len(c) == 0 or c == '.':
            continue
        if c == '..':
            if out:
                out.pop()
        else:
            out.append(c)
    return out


def overlap(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if not a[i] == b[i]:
            return False
    return True


def strip(s):
    while s.endswith('/'):
        s = s[:-1]
    return s


def local(sx, n, hi):
    base = sx.choice(n + '.base', ['', 'cwd'])
    s = sx.str(n, 'ab./', 1 if base == '' else 0, hi)
    sx.assume(not s.startswith('//'))
    return os.getcwd() + '/' + s if base else s


def p_unsafe(sx):
    n = 5 if sx.thorough else 4
    kind = sx.choice('kind', ['plain', 'file:', 'file://', 'file://localhost', 'http://h/', 'https://h/'])
    dst = local(sx, 'dst', n - 1)
    if kind in ('file://', 'file://localhost'):
        s = sx.str('src', 'ab./', 0, n - 2)
        sx.assume(not s.startswith('//'))
        path = os.getcwd() + '/' + s
        src = kind + path
    elif kind in ('plain', 'file:'):
        path = local(sx, 'src', n - 1 if kind == 'plain' else n - 2)
        src = path if kind == 'plain' else 'file:' + path
    else:
        path = None
        src = kind + sx.str('src', 'ab./', 0, 2)
    m = Map(src, dst)
    got = m.unsafe()
    if path is None:
        sx.check(not got, 'a web source is never unsafe')
        sx.reach('web')
        return
    want = overlap(resolve(strip(path)), resolve(strip(dst)))
    if want:
        sx.check(got, 'overlapping local source and destination are unsafe')
        sx.reach('unsafe')
    else:
        sx.check(not got, 'disjoint local source and destination are safe')
        sx.reach('safe')
    sx.observe('unsafe', bool(got))


def p_refuse(sx):
    """Baseline and incremental sync stop before changing anything."""
    env = sx.env
    pairs = [('http://h/x', 'd0'), ('src', 'src'), ('src/a', 'src'), ('file:src', 'src/a'), ('src', 'dst')]
    k = sx.choice('k', [1, 2, 3])
    pick = [sx.choice('p%d' % i, list(range(len(pairs)))) for i in range(k)]
    for i in range(k):
        for j in range(i):
            a, b = pairs[pick[i]], pairs[pick[j]]
            sx.assume(a[0] != b[0] and a[1] != b[1])
    env.mkfile('src/f', env.blob(1, 5), 1577836800)
    env.mkfile('dst/g', env.blob(2, 5), 1577836800)
    doc = sx.E('sm:urlset', [], None, [sx.E('rs:md', [('capability', 'resourcelist')]),
                                       sx.E('sm:url', [], None, [sx.E('sm:loc', [], 'src/f'),
                                                                 sx.E('sm:lastmod', [], '2020-01-01T00:00:00Z')])])
    env.mkfile('src/list.xml', env.xml(doc), 1577836800)
    before = env.tree('.')
    c = Client()
    maps = ['%s=%s' % pairs[i] for i in pick]
    c.mapper = Mapper(maps)
    c.sitemap_name = 'src/list.xml'
    c.noauth = True
    c.dryrun = sx.flag('dryrun')
    dele = sx.flag('delete')
    mode = sx.choice('mode', ['baseline', 'incremental'])
    bad = any(1 <= i <= 3 for i in pick)
    if mode == 'baseline':
        o = sx.attempt(c.baseline_or_audit, allow_deletion=dele)
    else:
        o = sx.attempt(c.incremental, allow_deletion=dele, from_datetime='2019-01-01T00:00:00Z',
                       change_list_uri='none.xml')
    if bad:
        sx.check(not o.ok and isinstance(o.exc, ClientFatalError), 'an unsafe mapping is refused')
        sx.check(len(env.effects) == 0, 'nothing is changed')
        sx.check(len(env.requests) == 0, 'nothing is fetched')
        sx.reach('refused')
    else:
        if mode == 'baseline' and o.kind == 'ClientFatalError':
            sx.check(not sx.exc_text(o.exc).startswith('Source to destination mappings unsafe'),
                     'a safe mapping is not refused as unsafe')
        sx.reach('accepted')
    sx.observe('kind', o.kind)


HARNESSES = [
    ('unsafe', p_unsafe, {'expect': ['web', 'unsafe', 'safe']}),
    ('refuse', p_refuse, {'expect': ['refused', 'accepted']}),
]
