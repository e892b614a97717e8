from resync.client import Client
from resync.mapper import Mapper
from resync.resource import Resource
from .lib import BASE, ROOT, LIST, Web, leaves, spec_match, status
from .syncs import CHANGES

INFO = {
    'bounds': 'source trees of 1-2 (quick) or 1-3 files in two directories, the first with symbolic time (to 1/2 s), '
              'size and content; destinations where each may be there already, the first with symbolic time, size and content; digests '
              'or not; lists written as one document or in parts, pretty or not, found by name or at the usual place; then each file '
              'changed, removed, left alone or moved in time, and a new one; deletion allowed or not',
    'outside': 'change lists under version 1.1, for which the client writes no times of the changes; names that need '
               'escaping in URIs; files that appear between scan and publication',
    'assumptions': ['the web server serves the files of the source directory'],
}
NAMES = ['b', 'x/a', 'x/c']


def put(sx, n, path, hi=9, full=True, scale=2):
    """A file with symbolic time, and if in full size and content as well."""
    if not full:
        g = {'tag': 1, 'size': 1, 'mtime': BASE + hi}
    else:
        g = {'tag': sx.int(n + '.tag', 0, 1), 'size': 0 if scale == 2 and sx.flag(n + '.empty') else sx.int(n + '.size', 1, 2),
             'mtime': BASE + sx.ts(n + '.mtime', 0, 9, scale)}
    g['content'] = b'' if g['size'] == 0 else sx.env.blob(g['tag'], g['size'])
    sx.env.mkfile(path, g['content'], g['mtime'])
    return g


def as_resource(sx, g, hashes):
    return Resource(uri='u', timestamp=g['mtime'], length=g['size'], md5=sx.env.digest('md5', g['content']) if 'md5' in hashes else None)


class Server:
    """Serves the files of directory src at ROOT."""

    def __init__(self, sx):
        self.sx = sx
        self.asked = []

    def __call__(self, rec):
        url = rec['url']
        self.asked.append(url)
        if url.startswith(ROOT + '/'):
            c = self.sx.env.content('src/' + url[len(ROOT) + 1:])
            if c is not None:
                return self.sx.Response(c)
        return OSError('HTTP Error 404: Not Found')


def publisher(hashes, parts, pretty):
    c = Client(hashes=hashes)
    c.mapper = Mapper([ROOT, 'src'])
    c.exclude_patterns = ['.*list']
    c.pretty_xml = pretty
    if parts:
        c.max_sitemap_entries = parts
    return c


def follower(hashes, named, version='1.1'):
    c = Client(spec_version=version, hashes=hashes)
    c.mapper = Mapper([ROOT, 'd'])
    if named:
        c.sitemap_name = LIST
    return c


def setup(sx, k, scale=2):
    """Source and destination: names, source files, destination files."""
    names = NAMES[:k]
    src, dst = {}, {}
    for i, nm in enumerate(names):
        src[nm] = put(sx, 's%d' % i, 'src/' + nm, 12, i == 0, scale)
    return names, src, dst


def same(sx, nm, g, what):
    env = sx.env
    p = 'd/' + nm
    sx.check(env.kind(p) == 'file', what + ' is at the destination')
    sx.check(env.content(p) == g['content'], what + ' has the same content')
    sx.check(env.mtime(p) == int(g['mtime']), what + ' has the same time in whole seconds')


def untouched(sx, path, g):
    env = sx.env
    sx.check(env.kind(path) == 'file', 'a file that differs in nothing is left alone')
    sx.check(env.content(path) == g['content'], 'a file that differs in nothing is left alone')
    sx.check(env.mtime(path) == g['mtime'], 'a file that differs in nothing is left alone')


def p_copy(sx):
    env = sx.env
    names, src, dst = setup(sx, 3 if sx.thorough else 2)
    hashes, parts, pretty, named = sx.choice('how', [([], None, False, True), (['md5'], None, True, False), ([], 1, False, False),
                                                     (['md5'], 2, True, True)])
    for i, nm in enumerate(names):
        if sx.flag('there%d' % i):
            dst[nm] = put(sx, 'd%d' % i, 'd/' + nm, 12 if i == 0 or sx.flag('asold%d' % i) else 10, i == 0)
    if sx.flag('extra'):
        dst['e'] = put(sx, 'e', 'd/e', full=False)
    o = sx.attempt(publisher(hashes, parts, pretty).write_resource_list, outfile='src/resourcelist.xml')
    sx.check(o.ok, 'the resource list is published')
    env.handler = Server(sx)
    env.keep_log = True
    allow = sx.flag('delete')
    o = sx.attempt(follower(hashes, named).baseline_or_audit, allow_deletion=allow)
    sx.check(o.ok, 'the sync reports no error')
    for nm in names:
        if nm not in dst:
            same(sx, nm, src[nm], 'a missing file')
            sx.reach('new')
        elif spec_match(sx, as_resource(sx, dst[nm], hashes), as_resource(sx, src[nm], hashes)):
            untouched(sx, 'd/' + nm, dst[nm])
            sx.reach('same')
        else:
            same(sx, nm, src[nm], 'a file that differs')
            sx.reach('updated')
    if 'e' in dst and allow:
        sx.check(env.kind('d/e') is None, 'a file not in the source is removed if allowed')
        sx.reach('deleted')
    elif 'e' in dst:
        untouched(sx, 'd/e', dst['e'])
    files = [p for p in env.tree('d') if env.kind('d/' + p) == 'file']
    sx.check(len(files) == len(names) + (1 if 'e' in dst and not allow else 0), 'nothing else is at the destination')
    n = len(env.log)
    o = sx.attempt(follower(hashes, True).baseline_or_audit, audit_only=True)
    sx.check(o.ok, 'the audit reports no error')
    st = status(env, n)
    sx.check(('NOT IN SYNC' in st[0]) == ('e' in dst and not allow), 'the audit finds both sides in sync')


def p_changes(sx):
    env = sx.env
    names, src, dst = setup(sx, 2, 2 if sx.thorough else 1)
    hashes, parts = sx.choice('how', [([], None), (['md5'], None), ([], 1)])
    o = sx.attempt(publisher(hashes, parts, False).write_resource_list, outfile='src/resourcelist.xml')
    sx.check(o.ok, 'the resource list is published')
    env.handler = Server(sx)
    o = sx.attempt(follower(hashes, True).baseline_or_audit)
    sx.check(o.ok, 'the sync reports no error')
    # the source changes
    now, gone = {}, []
    for i, nm in enumerate(names):
        what = sx.choice('then%d' % i, ['kept', 'changed', 'removed'])
        if what == 'kept':
            now[nm] = None
        elif what == 'changed':
            now[nm] = put(sx, 'n%d' % i, 'src/' + nm, 19, i == 0)
        else:
            env.rm('src/' + nm)
            gone.append(nm)
    if (sx.thorough or what == 'kept') and sx.flag('more'):
        now['x/new'] = put(sx, 'm', 'src/x/new', 19, False)
    c = publisher(hashes, None, False)
    o = sx.attempt(c.write_change_list, ref_sitemap='src/resourcelist.xml', outfile='src/changelist.xml')
    sx.check(o.ok, 'the change list is published')
    allow = sx.flag('delete')
    c = follower(hashes, True, '1.0')
    o = sx.attempt(c.incremental, allow_deletion=allow, from_datetime='2000-01-01T00:00:00Z')
    sx.check(o.ok, 'the incremental sync reports no error')
    for nm in names:
        if nm in gone:
            if allow:
                sx.check(env.kind('d/' + nm) is None, 'a file removed from the source is removed')
                sx.reach('removed')
            else:
                same(sx, nm, src[nm], 'a file removed from the source, if deletion is not allowed,')
        elif now[nm] is None or spec_match(sx, as_resource(sx, src[nm], hashes), as_resource(sx, now[nm], hashes)):
            same(sx, nm, src[nm], 'a file that did not change')
            sx.reach('kept')
        else:
            same(sx, nm, now[nm], 'a file that changed')
            sx.reach('changed')
    if 'x/new' in now:
        same(sx, 'x/new', now['x/new'], 'a new file')
        sx.reach('new')
    files = [p for p in env.tree('d') if env.kind('d/' + p) == 'file']
    sx.check(len(files) == len(now) + (0 if allow else len(gone)), 'nothing else is at the destination')


HARNESSES = [('copy', p_copy, {'expect': ['new', 'same', 'updated', 'deleted']}),
             ('changes', p_changes, {'expect': ['removed', 'kept', 'changed', 'new']})]
