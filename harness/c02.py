from resync.client import Client
from resync.mapper import Mapper
from .lib import BASE, ROOT, LIST, Web, entry, listing, spec_match, status, when
from resync.resource import Resource

INFO = {
    'bounds': 'one resource in full detail (presence, listed time (the epoch or symbolic, with optional fraction), size and md5 present or absent, right '
              'or wrong; destination file of symbolic size (0 included), content and time to 1/4 s; hash comparison on or off) plus a '
              'destination-only file; two (quick) or three (thorough) resources in two directories with every presence pattern; '
              'deletion allowed or not; followed by an audit; a second sync by the same process after changes on both sides',
    'outside': 'more resources; failing downloads (C18); several mappings (C05); content other than opaque blocks of 0-2 bytes',
    'assumptions': ['the destination file system behaves as modelled: a write replaces the content and sets the current time'],
}
SIZES = 2


def body(sx, f, n, empty):
    """Content of a file: empty or a symbolic block."""
    if empty and sx.flag(n + 'empty'):
        f['size'], f['content'] = 0, b''
    else:
        f['size'] = sx.int(n + 'size', 1, SIZES)
        f['content'] = sx.env.blob(sx.int(n + 'tag', 0, 1), f['size'])


def source_file(sx, n, name, full):
    """One listed resource: (entry, facts)."""
    f = {'uri': ROOT + '/' + name, 'path': 'd/' + name}
    body(sx, f, n + '.', full)
    f['ts'] = f['len'] = f['md5'] = text = None
    if full:
        t = sx.choice(n + '.time', ['none', 'whole', 'frac', 'epoch'])
        if t == 'epoch':
            text, f['ts'] = '1970-01-01T00:00:00Z', 0
        elif t != 'none':
            text, f['ts'] = when(sx, n + '.ts', frac='.5' if t == 'frac' else '')
        if sx.flag(n + '.len?'):
            f['len'] = sx.int(n + '.listed', 0, SIZES)
        if sx.flag(n + '.md5?'):
            f['md5'] = sx.env.digest('md5', f['content'])
    else:
        text, f['ts'] = when(sx, n + '.ts')
        f['len'] = f['size']
    e = entry(sx, f['uri'], lastmod=text, length=None if f['len'] is None else '%d' % f['len'],
              hash=None if f['md5'] is None else 'md5:' + f['md5'])
    return e, f


def local_file(sx, n, path, full=False):
    """Destination file, facts."""
    g = {'path': path, 'mtime': BASE + sx.ts(n + '.mtime', -400000, 400000, 2)}
    body(sx, g, n + '.d', full)
    sx.env.mkfile(path, g['content'], g['mtime'])
    return g


def client(hashes):
    c = Client(hashes=hashes)
    c.mapper = Mapper([ROOT, 'd'])
    c.sitemap_name = LIST
    return c


def sync(sx, srcs, locs, hashes, dele):
    env = sx.env
    table = {LIST: env.xml(listing(sx, 'resourcelist', [e for e, f in srcs]))}
    for e, f in srcs:
        table[f['uri']] = f['content']
    web = Web(sx, table)
    env.handler = web
    c = client(hashes)
    o = sx.attempt(c.baseline_or_audit, allow_deletion=dele)
    sx.check(o.ok, 'the sync reports no error')
    listed = [f['path'] for e, f in srcs]
    extra = 0
    for e, f in srcs:
        g = locs.get(f['path'])
        got = [u for u in web.fetched if u == f['uri']]
        touched = [x for x in env.effects if x[0] in ('write', 'unlink', 'utime', 'rename') and x[1] == f['path']]
        fetched = len(got) > 0
        if g is None:
            sx.check(fetched, 'a missing resource is fetched')
            sx.reach('created')
        else:
            src = Resource(uri=f['uri'], timestamp=f['ts'], length=f['len'], md5=f['md5'])
            dst = Resource(uri=f['uri'], timestamp=g['mtime'], length=g['size'],
                           md5=env.digest('md5', g['content']) if 'md5' in hashes else None)
            m = spec_match(sx, dst, src)
            if fetched:
                sx.check(sx.not_(m), 'a matching resource is not fetched')
                sx.reach('updated')
            else:
                sx.check(m, 'a differing resource is fetched')
                sx.check(len(touched) == 0, 'a matching resource is untouched')
                sx.check(env.content(f['path']) == g['content'], 'a matching resource keeps its content')
                sx.check(env.mtime(f['path']) == g['mtime'], 'a matching resource keeps its time')
                sx.reach('same')
        if fetched:
            sx.check(env.content(f['path']) == f['content'], 'a fetched resource has the content served')
            if f['ts'] is not None:
                sx.check(env.mtime(f['path']) == int(f['ts']), 'a fetched resource has the listed time in whole seconds')
    for p in locs:
        if p not in listed:
            if dele:
                sx.check(env.kind(p) is None, 'a file not listed is removed')
                sx.reach('deleted')
            else:
                extra += 1
                g = locs[p]
                sx.check(env.kind(p) == 'file' and env.content(p) == g['content'], 'no file is removed without deletion')
                sx.check(env.mtime(p) == g['mtime'], 'a file not listed keeps its time')
                sx.reach('kept')
    # only expected files exist
    for p in env.tree('d'):
        q = 'd/' + p
        if env.kind(q) == 'file':
            sx.check(q in listed or q in locs, 'no other file is made')
    # audit
    n = len(env.log)
    env.keep_log = True
    o = sx.attempt(client(hashes).baseline_or_audit, audit_only=True)
    sx.check(o.ok, 'the audit reports no error')
    st = status(env, n)
    sx.check(len(st) == 1, 'the audit reports its status')
    insync = 'NOT IN SYNC' not in st[0] and 'IN SYNC' in st[0]
    if extra > 0:
        sx.check(not insync, 'files left over are reported by the audit')
    else:
        ok = True
        for e, f in srcs:
            if f['ts'] is None:
                ok = False
            elif f['len'] is not None:
                ok = sx.and_(ok, f['len'] == f['size'])
        sx.check(sx.implies(ok, insync), 'an audit after the sync reports the sides in sync')
        now = True
        for e, f in srcs:
            c = env.content(f['path'])
            dst = Resource(uri=f['uri'], timestamp=env.mtime(f['path']), length=env.size(c),
                           md5=env.digest('md5', c) if 'md5' in hashes else None)
            src = Resource(uri=f['uri'], timestamp=f['ts'], length=f['len'], md5=f['md5'])
            now = sx.and_(now, spec_match(sx, dst, src))
        sx.check(now if insync else sx.not_(now), 'an audit tells whether the sides agree')
        if insync:
            sx.reach('insync')
    sx.observe('fetched', list(web.fetched))


def p_one(sx):
    e, f = source_file(sx, 'a', 'a', True)
    locs = {}
    if sx.flag('a.present'):
        locs['d/a'] = local_file(sx, 'a', 'd/a', True)
    dele = sx.flag('delete')
    if sx.flag('z.present'):
        locs['d/z'] = local_file(sx, 'z', 'd/z')
    hashes = ['md5'] if sx.flag('hash') else []
    sync(sx, [(e, f)], locs, hashes, dele)


def p_many(sx):
    names = ['b', 'x/a', 'x/y/c'][:3 if sx.thorough else 2]
    srcs, locs = [], {}
    for i, nm in enumerate(names):
        st = sx.choice('p%d' % i, ['source', 'both', 'dest'])
        if st != 'dest':
            srcs.append(source_file(sx, 'f%d' % i, nm, False))
        if st != 'source':
            locs['d/' + nm] = local_file(sx, 'f%d' % i, 'd/' + nm)
    if sx.flag('extra'):
        srcs.append(source_file(sx, 'e', 'e', False))
    sx.assume(len(srcs) > 0)
    sync(sx, srcs, locs, [], sx.flag('delete'))


def p_again(sx):
    """A second sync by the same process, after changes on both sides."""
    env = sx.env
    u, p = ROOT + '/x/a', 'd/x/a'
    dele = sx.flag('delete')
    for r in range(2):
        name = ['p', 'q'][r]
        keep = r == 0 or sx.flag('listed')
        table = {}
        es = []
        if keep:
            e, f = source_file(sx, name, 'x/a', False)
            es.append(e)
            table[u] = f['content']
        else:
            e, f = source_file(sx, name, 'e', False)
            es.append(e)
            table[f['uri']] = f['content']
        table[LIST] = env.xml(listing(sx, 'resourcelist', es))
        env.handler = Web(sx, table)
        if r == 1:
            what = sx.choice('between', ['nothing', 'file', 'dir', 'all'])
            if what != 'nothing':
                env.rm(p)
            if what in ('dir', 'all'):
                env.rm('d/x')
            if what == 'all':
                env.rm('d')
                sx.reach('emptied')
        o = sx.attempt(client([]).baseline_or_audit, allow_deletion=dele)
        sx.check(o.ok, 'sync %d reports no error' % (r + 1))
        if r == 0:
            first = f
            same = False
        elif keep and what == 'nothing':
            same = sx.and_(f['size'] == first['size'], f['ts'] == first['ts'])
        else:
            same = False
        sx.check(env.kind(f['path']) == 'file', 'sync %d leaves the listed file' % (r + 1))
        sx.check(sx.or_(same, env.content(f['path']) == f['content']),
                 'sync %d leaves the content served' % (r + 1))
        sx.check(env.mtime(f['path']) == int(f['ts']), 'sync %d leaves the listed time' % (r + 1))
        if not keep:
            left = env.kind(p) is not None
            sx.check(left == (not dele and what == 'nothing'), 'what is no longer listed goes only with deletion')
            sx.reach('dropped')


HARNESSES = [
    ('again', p_again, {'expect': ['emptied', 'dropped']}),
    ('one', p_one, {'expect': ['created', 'updated', 'same', 'deleted', 'kept', 'insync']}),
    ('many', p_many, {'expect': ['created', 'updated', 'same', 'deleted', 'kept', 'insync']}),
]
