from resync.client import Client
from resync.mapper import Mapper
from .lib import BASE, ROOT, LIST, WIDE, Web, entry, listing
from .syncs import client

INFO = {
    'bounds': 'documents of any type (symbolic type names included, or none), lists and indexes, of 0-4 entries (and of 99-103 with no '
              'limit given or one of 99-102) with symbolic URIs; verbose or not; limits 1-4, or none; given as a URI, a local path or through a '
              'mapping; reference lists read in verbose mode; documents that cannot be read',
    'outside': 'how an entry is shown other than that its URI is; documents that are not well-formed XML',
    'assumptions': [],
}
TYPES = ['resourcelist', 'changelist', 'resourcedump-manifest', 'capabilitylist', 'description']
TEXT = WIDE.replace('\n', '')


def document(sx, n, many=False):
    """(element, type or None, URIs)."""
    t = sx.choice('type', ['known', 'any', 'none', 'no md'])
    cap = None
    if t == 'known':
        cap = sx.choice('cap', TYPES)
    elif t == 'any':
        cap = sx.strn('cap', TEXT.replace(' ', ''), 4)
    index = sx.flag('index')
    uris = [ROOT + '/' + ('%d' % i if many else sx.strn('u%d' % i, TEXT.replace(' ', ''), 2)) for i in range(n)]
    es = []
    for i, u in enumerate(uris):
        es.append(entry(sx, u, lastmod='2020-01-01T00:00:01Z' if i % 2 else None, tag='sitemap' if index else 'url',
                        change='updated' if cap == 'changelist' else None,
                        path='/x' if cap == 'resourcedump-manifest' else None))
    head = []
    if t != 'no md':
        head = [sx.E('rs:md', [('capability', cap)] if cap is not None else [('at', '2020-01-01T00:00:00Z')])]
    return sx.E('sm:' + ('sitemapindex' if index else 'urlset'), [], None, head + es), cap, uris


def shown(sx, out, uris, limit):
    """The lines after the summary show the first entries up to the limit."""
    want = len(uris) if limit is None or limit > len(uris) else limit
    lines = [x for x in out if not x.startswith('Showing first')]
    sx.check(len(lines) == want, 'as many entries are shown as asked for')
    for i in range(want):
        sx.check(uris[i] in lines[i], 'the entries are shown in order')
    told = [x for x in out if x.startswith('Showing first')]
    sx.check(len(told) == (1 if limit is not None and limit < len(uris) else 0), 'it is told when not all entries are shown')
    if told:
        sx.check('%d' % limit in told[0], 'it is told how many entries are shown')
        sx.reach('limited')


def p_parse(sx):
    env = sx.env
    doc, cap, uris = document(sx, sx.choice('n', [0, 1, 2, 3, 4] if sx.thorough else [0, 1, 3]))
    c = client()
    where = sx.choice('where', ['uri', 'mapping', 'file', 'missing'])
    if where == 'mapping':
        c.sitemap_name = None
        env.handler = Web(sx, {ROOT + '/resourcelist.xml': env.xml(doc)})
    elif where == 'file':
        c.sitemap_name = 'l/list.xml'
        env.mkfile('l/list.xml', env.xml(doc), BASE)
    else:
        env.handler = Web(sx, {LIST: env.xml(doc) if where == 'uri' else OSError('HTTP Error 404: Not Found')})
    c.verbose = sx.flag('verbose')
    limit = sx.choice('limit', [None, 1, 2, 4])
    c.max_sitemap_entries = limit
    o = sx.attempt(c.parse_document)
    if where == 'missing':
        sx.check(o.kind == 'ClientFatalError' and len(env.out) == 0, 'a document that cannot be read is reported')
        sx.reach('missing')
        return
    sx.check(o.ok, 'the document is accepted')
    sx.check(len(env.effects) == 0, 'nothing is changed')
    head = env.out[0]
    if cap is None:
        sx.check('unknown' in head, 'a missing type is reported as unknown')
        sx.reach('unknown')
    else:
        sx.check(' %s ' % cap in head, 'the type of the document is reported')
    sx.check(' %d ' % len(uris) in head, 'the number of entries is reported')
    if not c.verbose:
        sx.check(len(env.out) == 1, 'entries are shown in verbose mode only')
        sx.reach('summary')
        return
    shown(sx, env.out[1:], uris, limit)
    sx.reach('entries')


def p_default(sx):
    """Without a limit the first 100 entries are shown; limits above that."""
    env = sx.env
    limit = sx.choice('limit', [None, 99, 101, 102])
    n = sx.choice('n', [99, 100, 101, 102, 103] if limit else [99, 100, 101])
    doc, cap, uris = document(sx, n, True)
    env.handler = Web(sx, {LIST: env.xml(doc)})
    c = client()
    c.verbose = True
    c.max_sitemap_entries = limit
    o = sx.attempt(c.parse_document)
    sx.check(o.ok, 'the document is accepted')
    sx.check(' %d ' % n in env.out[0], 'the number of entries is reported')
    shown(sx, env.out[1:], uris, limit or 100)


def p_reference(sx):
    """A reference list read in verbose mode."""
    env = sx.env
    n = sx.choice('n', [0, 1, 2, 3, 101])
    uris = [ROOT + '/' + (sx.strn('u%d' % i, 'abc', 1) if n < 4 else '%03d' % i) for i in range(n)]
    for i in range(n if n < 4 else 0):
        for j in range(i):
            sx.assume(uris[i] < uris[j] if sx.flag('o%d%d' % (i, j)) else uris[i] > uris[j])
    lens = [sx.int('l%d' % i, 0, 9) if i < 3 else i for i in range(n)]
    env.mkfile('ref.xml', env.xml(listing(sx, 'resourcelist', [entry(sx, u, length='%d' % l) for u, l in zip(uris, lens)])), BASE)
    c = client()
    c.verbose = sx.flag('verbose')
    limit = sx.choice('limit', [None, 1, 2] if n < 4 else [None, 2, 99, 101, 102])
    c.max_sitemap_entries = limit
    o = sx.attempt(c.read_reference_resource_list, 'ref.xml')
    sx.check(o.ok, 'the list is read')
    got = list(o.value)
    sx.check(len(got) == n, 'every entry is read')
    order = sorted(range(n), key=lambda i: uris[i])
    for r, i in zip(got, order):
        sx.check(r.uri == uris[i], 'every entry is read')
        sx.check(r.length == lens[i], 'with its metadata')
    if not c.verbose:
        sx.check(len(env.out) == 0, 'entries are shown in verbose mode only')
        sx.reach('quiet')
        return
    shown(sx, env.out, [uris[i] for i in order], limit or 100)
    sx.reach('entries')


HARNESSES = [('parse', p_parse, {'expect': ['missing', 'unknown', 'summary', 'entries', 'limited']}),
             ('default', p_default, {'expect': ['limited']}),
             ('reference', p_reference, {'expect': ['quiet', 'entries', 'limited']})]
