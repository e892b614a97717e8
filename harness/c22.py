from resync.resource import ChangeTypeError, Resource
from .lib import BASE

INFO = {
    'bounds': 'originals with every attribute absent or symbolic (numbers also zero, texts also empty), explicit values for any '
              'attribute; links with symbolic targets, explicit lists of links also empty; hash strings of up to 4 items with symbolic values of 0-2 characters, known and unknown types '
              'in any order, separated by blanks; change types of up to 3 characters and near misses of the valid ones',
    'outside': 'hash items without colon; attributes other than the documented ones',
}
NUM = ('timestamp', 'length', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
TXT = ('mime_type', 'md5', 'sha1', 'sha256', 'path', 'capability')
DATES = {'lastmod': 'timestamp', 'datetime': 'ts_datetime', 'md_at': 'ts_at', 'md_completed': 'ts_completed', 'md_from': 'ts_from',
         'md_until': 'ts_until'}


def value(sx, n, a):
    if a == 'change':
        return sx.choice(n, ['created', 'updated', 'deleted'])
    if a in NUM:
        return sx.int(n, 0, 3)
    return sx.str(n, 'xy', 0, 1)


def facts(r):
    d = {a: getattr(r, a) for a in ('uri', 'change') + NUM + TXT}
    d['ln'] = None if r.ln is None else [dict(x) for x in r.ln]
    return d


def same(sx, got, want, msg):
    for a in want:
        g, w = got[a], want[a]
        if w is None or g is None:
            sx.check(g is None and w is None, '%s: %s' % (msg, a))
        elif a == 'ln':
            sx.check(len(g) == len(w), msg + ': number of links')
            for x, y in zip(g, w):
                sx.check(sorted(x) == sorted(y), msg + ': link attributes')
                for k in x:
                    sx.check(x[k] == y[k], msg + ': links')
        else:
            sx.check(g == w, '%s: %s' % (msg, a))


def p_copy(sx):
    group = sx.choice('group', [NUM[:4], NUM[4:] + ('change',), TXT[:3], TXT[3:] + ('timestamp',)])
    kw, over = {}, {}
    for a in group:
        if a == group[-1] or sx.flag(a + '?'):
            kw[a] = value(sx, a, a)
    for a in sx.choice('new', [(), group[:4]] + [(a,) for a in group] + [group[::2], group[1::2]]):
        over[a] = value(sx, 'new ' + a, a)
    rest = len(over) == 1 or (len(over) == 0 and sx.flag('rest'))
    if rest:
        for i, a in enumerate(('change',) + NUM + TXT):
            if a not in group:
                kw[a] = 'updated' if a == 'change' else 10 + i if a in NUM else 't%d' % i
    r = Resource('http://h/' + sx.strn('uri', 'ab', 1), **kw)
    links = sx.choice('links', [0, 1, 2]) if len(kw) < 3 or rest else 0
    for i in range(links):
        r.link_add(sx.choice('rel%d' % i, ['up', 'contents']), 'http://h/' + sx.strn('href%d' % i, 'ab', 1), **({'pri': '1'} if i else {}))
    before = facts(r)
    uri = len(kw) % 2 == 1 or sx.flag('new uri')
    if uri:
        over['uri'] = 'http://h/' + sx.strn('newuri', 'bc', 1)
    newln = links and sx.flag('new ln')
    if newln:
        over['ln'] = [{'rel': 'x', 'href': 'http://h/x'}] if uri or sx.flag('some ln') else []
    c = Resource(resource=r, **over)
    same(sx, facts(r), before, 'making a copy leaves the original')
    want = dict(before)
    for a in over:
        want[a] = over[a]
    same(sx, facts(c), want, 'the copy has every attribute, explicit values first')
    # the two are independent
    snapshot = facts(c)
    for a in group[:2]:
        setattr(c, a, 'deleted' if a == 'change' else 9 if a in NUM else 'zz')
    if links:
        c.link_set('up', 'http://h/changed')
        c.link_add('new', 'http://h/new')
    same(sx, facts(r), before, 'changing the copy leaves the original')
    if over:
        sx.reach('explicit')
    if links:
        sx.reach('links')
    sx.reach('copied')
    sx.observe('copy', [snapshot[a] for a in sorted(snapshot) if a != 'ln'])


def p_dates(sx):
    """Explicit dates."""
    src = Resource('http://h/a', timestamp=1, ts_datetime=2, ts_at=3, ts_completed=4, ts_from=5, ts_until=6)
    before = facts(src)
    over, want = {}, dict(before)
    for a in sorted(DATES):
        if sx.flag(a):
            d = sx.int('v ' + a, 0, 9)
            over[a] = '2020-01-01T00:00:0%dZ' % d
            want[DATES[a]] = BASE + d
    c = Resource(resource=src, **over)
    same(sx, facts(c), want, 'dates given go first')
    same(sx, facts(src), before, 'the original stays')
    fresh = Resource('http://h/a', **over)
    for a in DATES:
        w = want[DATES[a]] if a in over else None
        g = getattr(fresh, DATES[a])
        sx.check(g is None if w is None else g is not None and g == w, 'a date given sets the time')
    sx.reach('dates')


def p_hash(sx):
    """Reading the combined string."""
    r = Resource('http://h/a')
    items = []
    for h, a in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')):
        if sx.flag(h):
            v = sx.str('v ' + h, 'ab:-', 0, 2)
            setattr(r, a, v)
            items.append((h, a, v))
    got = r.hash
    if not items:
        sx.check(got is None, 'no digest, no string')
        sx.reach('none')
        return
    text = ''
    for h, a, v in items:
        text = text + (' ' if text else '') + h + ':' + v
    sx.check(got == text, 'the string lists exactly the known digests')
    o = Resource('http://h/b', md5='old1', sha1='old2', sha256='old3')
    o.hash = got
    known = {a: v for h, a, v in items}
    for a in ('md5', 'sha1', 'sha256'):
        g = getattr(o, a)
        if a in known:
            sx.check(g is not None and g == known[a], 'a digest is restored')
        else:
            sx.check(g is None, 'a digest not listed is cleared')
    sx.reach('some')
    sx.observe('hash', got)


def p_parse(sx):
    """Strings of any items."""
    n = sx.choice('n', [0, 1, 2, 3, 4] if sx.thorough else [0, 1, 2, 3])
    types = ['md5', 'sha-1', 'sha-256', 'sha-512', 'sha1']
    s = sx.choice('lead', ['', ' '])
    items = []
    for i in range(n):
        t = sx.choice('t%d' % i, types + (['MD5', ''] if i == 0 else []))
        v = sx.strn('v%d' % i, 'ab:', 1)
        items.append((t, v))
        s = s + t + ':' + v + (sx.choice('sep%d' % i, [' ', ' \t']) if i == 0 else ' ')
    r = Resource('http://h/b', md5='old1', sha1='old2', sha256='old3')
    o = sx.attempt(setattr, r, 'hash', s)
    names = [t for t, v in items]
    bad = any(t not in types[:3] for t in names) or len(set(names)) < len(names)
    if bad:
        sx.check(not o.ok and isinstance(o.exc, ValueError), 'duplicate or unknown types are an error')
        sx.reach('error')
    else:
        sx.check(o.ok, 'known types are accepted')
    d = dict(reversed(items))
    for h, a in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')):
        g = getattr(r, a)
        sx.check(g is None if h not in d else g is not None and g == d[h], 'exactly the digests listed are set')
    if not bad:
        sx.reach('set')
    sx.observe('set', [r.md5, r.sha1, r.sha256])


def p_name(sx):
    """The name of a resource."""
    path = sx.str('path', 'a/.', 0, 3)
    tail = sx.choice('tail', ['', '?q=/x', '#f/x', '?a#/'])
    if len(path) and path[0] != '/':
        path = '/' + path
    r = Resource(sx.choice('base', ['http://h', 'https://h:80', 'file://']) + path + tail)
    want = ''
    for ch in path:
        want = '' if ch == '/' else want + ch
    sx.check(r.basename == want, 'the name is the last component of the path')
    sx.reach('name')


def p_types(sx):
    """Change types accepted."""
    how = sx.choice('how', ['short', 'case', 'extra', 'valid'])
    base = sx.choice('base', ['created', 'updated', 'deleted'])
    if how == 'short':
        s = sx.str('s', 'cdu -', 0, 3)
    elif how == 'case':
        i = sx.choice('i', list(range(7)))
        s = base[:i] + sx.strn('c', 'CUDREAT_', 1) + base[i + 1:]
    elif how == 'extra':
        s = sx.str('pre', ' s,', 0, 1) + base + sx.str('post', ' s,', 0, 1)
    else:
        s = base
    valid = s == 'created' or s == 'updated' or s == 'deleted'
    via = sx.choice('via', ['new', 'set', 'copy', 'like'])
    if via == 'new':
        o = sx.attempt(Resource, 'http://h/a', change=s)
        r = o.value
    elif via == 'copy':
        o = sx.attempt(Resource, resource=Resource('http://h/a', change='updated'), change=s)
        r = o.value
    elif via == 'like':
        o = sx.attempt(Resource, resource=Like('http://h/a', s))
        r = o.value
    else:
        r = Resource('http://h/a')
        o = sx.attempt(setattr, r, 'change', s)
        if not o.ok:
            sx.check(r.change is None, 'a type refused is not set')
    if valid:
        sx.check(o.ok and r.change == s, 'a valid change type is set')
        sx.reach('valid')
    else:
        sx.check(not o.ok and isinstance(o.exc, ChangeTypeError), 'an invalid change type is refused')
        sx.reach('invalid')


class Like:
    """A resource-like object."""

    def __init__(self, uri, change):
        self.uri = uri
        self.change = change


HARNESSES = [('name', p_name, {'expect': ['name']}), ('copy', p_copy, {'expect': ['explicit', 'links', 'copied']}), ('dates', p_dates, {'expect': ['dates']}),
             ('hash', p_hash, {'expect': ['none', 'some']}), ('parse', p_parse, {'expect': ['error', 'set']}),
             ('types', p_types, {'expect': ['valid', 'invalid']})]
