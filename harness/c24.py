import os
from resync.client import Client, ClientError
from resync.client_utils import ClientFatalError
from resync.mapper import Mapper
from .lib import entry, listing, opt

INFO = {
    'bounds': 'every combination of the documented places being missing, unreadable, unusable or usable, for a web source, local '
              'sources (relative, absolute, file: and with URL special characters in a symbolic path), and explicit lists; references of 1-3 (4 thorough) '
              'symbolic characters over a letter, dot and slash, and absolute ones, in both kinds of documents; names, paths and URIs '
              'of 1-2 (3) symbolic characters; lists of 1-3 parts',
    'outside': 'the choice between failing and going on when a document named by a usable description cannot be read; '
               'local paths with two leading slashes; upper-case schemes; references with query, fragment or empty path components',
}
SITE = 'http://h/s/t'


def doc_list(sx, mark):
    return listing(sx, 'resourcelist', [entry(sx, 'http://h/r/' + mark)])


def links(sx):
    return [sx.E('rs:ln', [('rel', r), ('href', 'http://h/%s/x.xml' % r)]) for r in ('up', 'describedby', 'index')]


def doc_caps(sx, entries):
    return listing(sx, 'capabilitylist', [entry(sx, u, capability=c) for u, c in entries], more=links(sx))


def doc_sd(sx, uris):
    return listing(sx, 'description', [entry(sx, u, capability='capabilitylist') for u in uris], more=links(sx))


class Places:
    """Documents by location: on the web or on disk."""

    def __init__(self, sx, local):
        self.sx = sx
        self.local = local
        self.docs = []
        if not local:
            sx.env.handler = self

    def put(self, loc, doc):
        c = self.sx.env.xml(doc) if not isinstance(doc, bytes) else doc
        if self.local:
            self.sx.env.mkfile(loc, c, 1577836800)
        else:
            self.docs.append((loc, c))

    def __call__(self, rec):
        for u, c in self.docs:
            if rec['url'] == u:
                return self.sx.Response(c)
        return OSError('HTTP Error 404: Not Found')


def describe(sx, places, n, loc, refs, level):
    """Puts a source description at loc in a symbolic state.

    Returns 'next' (go on), 'fail', 'list' (used) or 'either'.
    refs(doc location, kind) -> (reference, location)."""
    st = sx.choice(n, ['missing', 'bad', 'empty', 'several', 'noCaps', 'noList', 'listMissing', 'list'][:8 if level else 2])
    if st == 'missing':
        return 'next'
    if st == 'bad':
        places.put(loc, b'no xml')
        return 'next'
    if st == 'empty':
        places.put(loc, doc_sd(sx, []))
        return 'fail'
    if st == 'several':
        # each of them usable
        rs = []
        for i in range(2 + sx.int(n + '.more', 0, 1 + sx.thorough)):
            ref, cl = refs(loc, 'cl%s%d' % (n, i))
            rs.append(ref)
            ref, rl = refs(cl, 'rl%s%d' % (n, i))
            places.put(cl, doc_caps(sx, [(ref, 'resourcelist')]))
            places.put(rl, doc_list(sx, n + 'several'))
        places.put(loc, doc_sd(sx, rs))
        return 'fail'
    ref, cl = refs(loc, 'cl' + n)
    places.put(loc, doc_sd(sx, [ref]))
    if st == 'noCaps':
        return 'either'
    if st == 'noList':
        places.put(cl, doc_caps(sx, [('http://h/x.xml', 'changelist')] if sx.flag(n + '.other') else []))
        return 'fail'
    ref, rl = refs(cl, 'rl' + n)
    places.put(cl, doc_caps(sx, [('http://h/x.xml', 'changelist'), (ref, 'resourcelist')]))
    if st == 'listMissing':
        return 'either'
    places.put(rl, doc_list(sx, n))
    return 'list'


def expect(sx, o, want):
    """want: mark of the list used, 'fail', or a set of these."""
    got = 'fail'
    if o.ok:
        us = [r.uri for r in o.value]
        sx.check(len(us) == 1, 'a list is returned')
        got = us[0][len('http://h/r/'):]
    else:
        sx.check(isinstance(o.exc, (ClientError, ClientFatalError)), 'the search fails with an error of the client')
    ok = False
    for w in want:
        if got == w:
            ok = True
    sx.check(ok, 'the first list in the documented order is used, or the search fails')
    sx.observe('got', got)
    sx.reach('failed' if got == 'fail' else 'found')


def search(sx, base, host, places, refs):
    """Documents at all places; the marks allowed."""
    first = describe(sx, places, 'sd1', base + '.well-known/resourcesync', refs, True)
    second = 'next'
    if first in ('next', 'either'):
        second = describe(sx, places, 'sd2', host + '.well-known/resourcesync', refs, first == 'next')
    rest = 'fail'
    if first == 'fail' or second == 'fail':
        # everything that must not be used is there
        if first == 'fail':
            loc = host + '.well-known/resourcesync'
            ref, cl = refs(loc, 'cx')
            places.put(loc, doc_sd(sx, [ref]))
            ref, rl = refs(cl, 'rx')
            places.put(cl, doc_caps(sx, [(ref, 'resourcelist')]))
            places.put(rl, doc_list(sx, 'unused'))
        for loc in (base + 'resourcelist.xml', base + 'sitemap.xml', host + 'sitemap.xml'):
            places.put(loc, doc_list(sx, 'unused'))
    elif (first == 'next' or first == 'either') and second in ('next', 'either'):
        for mark, loc in (('l1', base + 'resourcelist.xml'), ('l2', base + 'sitemap.xml'), ('l3', host + 'sitemap.xml')):
            st = sx.choice(mark, ['missing', 'bad', 'ok'] if mark == 'l1' or first == second == 'next' else ['missing', 'ok'])
            if st == 'bad':
                places.put(loc, b'<no/>')
            elif st == 'ok':
                places.put(loc, doc_list(sx, mark))
                if rest == 'fail':
                    rest = mark
    after2 = [rest] if second == 'next' else ['fail'] if second == 'fail' else ['sd2'] if second == 'list' else ['fail', rest]
    if first == 'next':
        return after2
    if first == 'fail':
        return ['fail']
    if first == 'list':
        return ['sd1']
    return ['fail'] + after2


def client(source):
    c = Client()
    c.mapper = Mapper([source, 'd'])
    return c


def p_web(sx):
    places = Places(sx, False)

    def refs(doc, name):
        loc = 'http://h/' + name + '.xml'
        return loc, loc
    slash = sx.choice('slash', ['', '/'])
    c = client(SITE + slash)
    want = search(sx, SITE + '/', 'http://h/', places, refs)
    expect(sx, sx.attempt(c.find_resource_list), want)


def resolve(doc, ref):
    """Reference resolution of RFC 3986 for references without scheme, query or fragment."""
    root = 'http://h'
    assert doc.startswith(root)
    if ref.startswith('/'):
        path = ref
    else:
        path = doc[len(root):]
        path = path[:path.rindex('/') + 1] + ref
    out = []
    segs = path.split('/')[1:]
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.' or s == '..':
            if s == '..' and out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return root + '/' + '/'.join(out)


def p_refs(sx):
    """Relative references in web documents."""
    places = Places(sx, False)
    where = sx.choice('where', ['sd', 'caps', 'explicit'])
    form = sx.choice('form', ['relative', 'name', 'absolute'])
    if form == 'relative':
        ref = sx.str('ref', 'a./', 1, 4 if sx.thorough else 3)
        sx.assume('//' not in ref)
    elif form == 'name':
        ref = sx.choice('up', ['', '../', '/', './', '../../../']) + sx.strn('n', 'ab', 1) + '/c.xml'
    else:
        ref = sx.choice('abs', ['http://o/', 'https://h/']) + sx.strn('n', 'ab', 1)
    sd = SITE + '/.well-known/resourcesync'
    cl = 'http://h/caps/x/cl.xml'
    if where == 'sd':
        cl = ref if form == 'absolute' else resolve(sd, ref)
        sx.assume(cl != 'http://h/rl.xml')
        places.put(sd, doc_sd(sx, [ref]))
        places.put(cl, doc_caps(sx, [('http://h/rl.xml', 'resourcelist')]))
        places.put('http://h/rl.xml', doc_list(sx, 'x'))
    else:
        rl = ref if form == 'absolute' else resolve(cl, ref)
        sx.assume(rl != cl)
        places.put(sd, doc_sd(sx, [cl]))
        places.put(cl, doc_caps(sx, [(ref, 'resourcelist')]))
        places.put(rl, doc_list(sx, 'x'))
    c = client(SITE)
    if where == 'explicit':
        c.capability_list_uri = cl
    expect(sx, sx.attempt(c.find_resource_list), ['x'])
    sx.reach(where)


def p_local(sx):
    """Local sources."""
    env = sx.env
    places = Places(sx, True)
    how = sx.choice('how', ['relative', 'absolute', 'file:relative', 'file://', 'deep'])
    name = 's' + (sx.strn('name', 'a #?%.', 1) if how in ('relative', 'absolute', 'deep') else 'x')
    path = 'p/' + name if how == 'deep' else name
    src = {'relative': path, 'deep': path, 'absolute': os.getcwd() + '/' + path, 'file:relative': 'file:' + path,
           'file://': 'file://' + os.getcwd() + '/' + path}[how]
    rel = sx.choice('ref', ['name', '../', 'absolute'])

    def refs(doc, n):
        d = os.getcwd() + '/' + path + '/.well-known/'
        if rel == 'name':
            return n + '.xml', doc[:doc.rindex('/') + 1] + n + '.xml'
        if rel == '../':
            i = doc.rindex('/')
            j = doc[:i].rindex('/') if '/' in doc[:i] else -1
            return '../' + n + '.xml', doc[:j + 1] + n + '.xml'
        full = os.getcwd() + '/' + n + '.xml'
        return ('file://' if how == 'file://' else '') + full, full
    c = client(src)
    if how in ('absolute', 'file://'):
        # the host would be the root directory: nothing is put there
        first = describe(sx, places, 'sd1', path + '/.well-known/resourcesync', refs, True)
        if first in ('next', 'either'):
            w = 'fail'
            for mark, loc in (('l1', path + '/resourcelist.xml'), ('l2', path + '/sitemap.xml')):
                if sx.flag(mark):
                    places.put(loc, doc_list(sx, mark))
                    if w == 'fail':
                        w = mark
            want = [w] if first == 'next' else [w, 'fail']
            if w == 'fail' and how == 'absolute':
                sx.assume(not os.path.exists('sitemap.xml'))
        else:
            for loc in (path + '/resourcelist.xml', path + '/sitemap.xml'):
                places.put(loc, doc_list(sx, 'unused'))
            want = ['fail'] if first == 'fail' else ['sd1']
    else:
        sd2 = rel != '../'
        want = search(sx, path + '/', '', places, refs) if sd2 else None
        if not sd2:
            first = describe(sx, places, 'sd1', path + '/.well-known/resourcesync', refs, True)
            w = 'fail'
            if first == 'fail':
                for loc in (path + '/resourcelist.xml', path + '/sitemap.xml', 'sitemap.xml'):
                    places.put(loc, doc_list(sx, 'unused'))
            if first in ('next', 'either') and sx.flag('l3'):
                places.put('sitemap.xml', doc_list(sx, 'l3'))
                w = 'l3'
            want = {'next': [w], 'either': [w, 'fail'], 'fail': ['fail'], 'list': ['sd1']}[first]
    expect(sx, sx.attempt(c.find_resource_list), want)
    sx.reach(how)


def p_explicit(sx):
    """Explicit resource list or capability list: used or the search fails."""
    places = Places(sx, False)
    # all default places are usable
    for mark, loc in (('l1', SITE + '/resourcelist.xml'), ('l2', SITE + '/sitemap.xml'), ('l3', 'http://h/sitemap.xml')):
        places.put(loc, doc_list(sx, mark))
    places.put(SITE + '/.well-known/resourcesync', doc_sd(sx, ['http://h/ocl.xml']))
    places.put('http://h/ocl.xml', doc_caps(sx, [(SITE + '/sitemap.xml', 'resourcelist')]))
    c = client(SITE)
    want = None
    loc = 'http://h/' + sx.strn('loc', 'xyz', 1) + '.xml'
    kind = sx.choice('kind', ['list', 'caps', 'both'])
    if kind in ('list', 'both'):
        c.sitemap_name = loc
        st = sx.choice('st', ['missing', 'bad', 'ok'])
        if st == 'ok':
            places.put(loc, doc_list(sx, 'e'))
            want = 'e'
        else:
            if st == 'bad':
                places.put(loc, b'<a/>')
            want = 'fail'
    if kind in ('caps', 'both'):
        cl = 'http://h/c/' + sx.strn('cl', 'xyz', 1) + '.xml'
        c.capability_list_uri = cl
        st = sx.choice('cst', ['missing', 'bad', 'nolist', 'nolisting', 'ok'])
        w = 'fail'
        if st == 'bad':
            places.put(cl, b'hello')
        elif st == 'nolist':
            places.put(cl, doc_caps(sx, [('http://h/x.xml', 'changelist')]))
        elif st != 'missing':
            places.put(cl, doc_caps(sx, [('../rl.xml', 'resourcelist')]))
            if st == 'ok':
                places.put('http://h/rl.xml', doc_list(sx, 'c'))
                w = 'c'
        if want is None:
            want = w
    expect(sx, sx.attempt(c.find_resource_list), [want])
    sx.reach(kind)


def p_named(sx):
    """Where a list given by name is taken from."""
    c = Client()
    src = sx.choice('source', [SITE, 'sub', '/abs', 'file:/f'])
    c.mapper = Mapper([src + '=d', 'http://o/second=e'] if sx.flag('second') else [src, 'd'])
    kind = sx.choice('kind', ['name', 'path', 'URI'])
    t = sx.str('t', 'a1.-_~ /\xe9?', 1, 3 if sx.thorough else 2)
    if kind == 'path':
        name = '/' + t
    elif kind == 'URI':
        name = sx.choice('scheme', ['http:', 'https:', 'file:', 'ftp:']) + t
    else:
        name = t + sx.choice('end', ['', '.xml'])
        sx.assume(not name.startswith('/'))
    o = sx.attempt(c.sitemap_uri, name)
    sx.check(o.ok and o.value == (src + '/' + name if kind == 'name' else name),
             'a name is taken below the source, a path or URI as it is')
    c.resource_list_name = name
    sx.check(c.sitemap == o.value, 'the default list has its name there')
    c.sitemap_name = t
    sx.check(c.sitemap == t, 'an explicit list is used as it is')
    sx.reach(kind)


def p_parts(sx):
    """Lists of several parts: explicit or found, on the web or local."""
    env = sx.env
    web, n = {}, sx.int('n', 1, 3)
    how = sx.choice('how', ['explicit web', 'explicit local', 'found', 'secure web'])
    site = SITE if how != 'explicit local' else sx.choice('scheme', ['http', 'https', 'ftp', 'rsync']) + '://h/s/t'
    if how == 'secure web':
        site = sx.choice('scheme', ['http', 'https']) + '://h/s/t'
    us = []
    for i in range(n):
        u = site + '/q%d' % i
        us.append('http://h/r/%s%d' % (sx.strn('e%d' % i, 'ab', 1), i))
        p = env.xml(listing(sx, 'resourcelist', [entry(sx, us[-1])]))
        if how == 'explicit local':
            env.mkfile('d/q%d' % i, p, 1577836800)
        else:
            web[u] = p
    index = env.xml(listing(sx, 'resourcelist', [entry(sx, site + '/q%d' % i, tag='sitemap') for i in range(n)], root='sitemapindex'))
    if how == 'explicit local':
        env.mkfile('d/index.xml', index, 1577836800)
    else:
        web[('https' + SITE[4:] if how == 'secure web' else SITE) + '/resourcelist.xml'] = index

    def handler(rec):
        return sx.Response(web[rec['url']]) if rec['url'] in web else OSError('HTTP Error 404: Not Found')
    env.handler = handler
    c = client(site)
    if sx.flag('second'):
        c.mapper = Mapper([site + '=d', 'http://g/t=e'])
    if how != 'found':
        c.sitemap_name = {'explicit web': SITE + '/resourcelist.xml', 'explicit local': 'd/index.xml',
                          'secure web': 'https' + SITE[4:] + '/resourcelist.xml'}[how]
    c.allow_multifile = not sx.flag('single')
    o = sx.attempt(c.find_resource_list)
    if not c.allow_multifile:
        sx.check(not o.ok and isinstance(o.exc, (ClientError, ClientFatalError)), 'a list of parts is refused if parts are not allowed')
        sx.reach('refused')
        return
    sx.check(o.ok, 'the list is found')
    sx.check([r.uri for r in o.value] == sorted(us), 'it has the entries of all parts')
    sx.reach(how)


HARNESSES = [('named', p_named, {'expect': ['name', 'path', 'URI']}),
             ('parts', p_parts, {'expect': ['explicit web', 'explicit local', 'found', 'secure web', 'refused']}),
             ('web', p_web, {'expect': ['found', 'failed']}), ('refs', p_refs, {'expect': ['found', 'sd', 'caps', 'explicit']}),
             ('local', p_local, {'expect': ['found', 'failed', 'relative', 'absolute', 'file:relative', 'file://', 'deep']}),
             ('explicit', p_explicit, {'expect': ['found', 'failed', 'list', 'caps', 'both']})]
