"""Helpers shared by the harnesses (run instrumented and natively)."""
from resync.resource import Resource

# every printable ASCII character and some others
ASCII = ''.join(chr(i) for i in range(33, 127))
WIDE = ASCII + ' \n\xe9\u0130\u20ac'

META = ('timestamp', 'length', 'md5', 'sha1', 'sha256')


def opt(sx, name, make):
    """None or the value make() gives (the path forks)."""
    return make() if sx.flag(name + '?') else None


def meta_of(r):
    return [r.uri] + [getattr(r, a) for a in META]


def same_meta(sx, a, b):
    """Formula: two metadata tuples are identical."""
    fs = []
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
        else:
            fs.append(x == y)
    return sx.and_(*fs)


def spec_match(sx, a, b, tol=1):
    """The specified equality of two resources with equal URIs (formula)."""
    fs = []
    if a.timestamp is None or b.timestamp is None:
        if a.timestamp is not None or b.timestamp is not None:
            return False
    else:
        d = a.timestamp - b.timestamp
        if tol == 0:
            fs.append(d == 0)
        else:
            fs.append(d < tol)
            fs.append(d > -tol)
    for at in ('length', 'md5', 'sha1', 'sha256'):
        x, y = getattr(a, at), getattr(b, at)
        if x is not None and y is not None:
            fs.append(x == y)
    return sx.and_(*fs)


def sym_resource(sx, n, uri, fields, tsrange=(5, 7), scale=2):
    """A resource whose listed metadata fields are each absent or symbolic."""
    kw = {}
    for f in fields:
        if f == 'timestamp':
            kw[f] = opt(sx, n + '.ts', lambda: sx.ts(n + '.ts', tsrange[0], tsrange[1], scale))
        elif f == 'timestamp!':
            kw['timestamp'] = sx.ts(n + '.ts', tsrange[0], tsrange[1], scale)
        elif f == 'length':
            kw[f] = opt(sx, n + '.len', lambda: sx.int(n + '.len', 0, 2))
        elif f == 'length!':
            kw['length'] = sx.int(n + '.len', 0, 2)
        else:
            kw[f] = opt(sx, n + '.' + f, lambda: sx.strn(n + '.' + f, 'xy', 1))
    return Resource(uri=uri, **kw)


def leaves(rest):
    """A relative path leaves its base directory through '..' components."""
    depth = 0
    for c in rest.split('/'):
        if c == '..':
            depth -= 1
            if depth < 0:
                return True
        elif c != '' and c != '.':
            depth += 1
    return False


# ---------------------------------------------------------------- synchronization scenarios

BASE = 1577836800          # 2020-01-01T00:00:00Z
ROOT = 'http://h/s'
LIST = ROOT + '/resourcelist.xml'


def when(sx, name, lo=0, hi=9, frac=''):
    """(text, value) of a symbolic time on 2020-01-01, seconds lo..hi (below 10)."""
    d = sx.int(name, lo, hi)
    return '2020-01-01T00:00:0%d%sZ' % (d, frac), BASE + d + (float('0' + frac) if frac else 0)


def entry(sx, uri, lastmod=None, tag='url', **md):
    """<url> element; md holds the XML attributes of rs:md ('' prefix stripped)."""
    kids = [sx.E('sm:loc', [], uri)]
    if lastmod is not None:
        kids.append(sx.E('sm:lastmod', [], lastmod))
    atts = [(k.rstrip('_'), v) for k, v in md.items() if v is not None]
    if atts:
        kids.append(sx.E('rs:md', atts))
    return sx.E('sm:' + tag, [], None, kids)


def listing(sx, capability, entries, root='urlset', more=()):
    """A list document."""
    return sx.E('sm:' + root, [], None, [sx.E('rs:md', [('capability', capability)])] + list(more) + list(entries))


class Web:
    """Serves a table of url -> content, exception, or list of these for successive requests."""

    def __init__(self, sx, table):
        self.sx = sx
        self.table = table
        self.fetched = []

    def __call__(self, rec):
        url = rec['url']
        self.fetched.append(url)
        for k in self.table:
            if url == k:
                v = self.table[k]
                if isinstance(v, list):
                    v = v.pop(0) if v else OSError('nothing more served')
                if isinstance(v, BaseException):
                    return v
                if isinstance(v, self.sx.Response):
                    return v
                return self.sx.Response(v)
        return OSError('HTTP Error 404: Not Found')


def status(env, since=0):
    """Texts of the status lines logged."""
    return [t for (l, t) in env.log[since:] if t is not None and t.startswith('Status:')]
