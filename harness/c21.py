from resync.resource import Resource

INFO = {
    'bounds': 'pairs of resources with symbolic URIs of 1-2 characters; times (multiples of 1/8 s, around zero and in this '
              'century), lengths, digests each absent or symbolic on each side; tolerance symbolic from 0 to 3 s in steps of 1/8 s',
    'outside': 'comparison with objects of other types; times finer than 1/8 s',
}
HASHES = ('md5', 'sha1', 'sha256')


def one(sx, n, fields, lo=0):
    kw = {}
    for f in fields:
        if f == 'uri':
            continue
        if not sx.flag('%s.%s?' % (n, f)):
            continue
        if f == 'timestamp':
            kw[f] = sx.ts(n + '.ts', lo, lo + 4, 3)
        elif f == 'length':
            kw[f] = sx.int(n + '.len', 0, 3)
        else:
            kw[f] = sx.strn(n + '.' + f, 'xyz', 1)
    uri = 'http://h/' + (sx.str(n + '.uri', 'ab', 0, 2) if 'uri' in fields else 'a')
    return Resource(uri, **kw)


def spec(sx, a, b, tol):
    fs = [a.uri == b.uri]
    if (a.timestamp is None) != (b.timestamp is None):
        return False
    if a.timestamp is not None:
        d = a.timestamp - b.timestamp
        fs.append(sx.or_(d == 0, sx.and_(d < tol, d > -tol)))
    for at in ('length',) + HASHES:
        x, y = getattr(a, at), getattr(b, at)
        if x is not None and y is not None:
            fs.append(x == y)
    return sx.and_(*fs)


def run(sx, a, b, hows=('==', 'none', 'delta')):
    how = sx.choice('how', hows)
    if how == '==':
        tol = 1
        ab, ba = (a == b), (b == a)
        aa = (a == a)
    elif how == 'none':
        tol = 0
        ab, ba, aa = a.equal(b), b.equal(a), a.equal(a)
    else:
        tol = sx.ts('tol', 0, 3, 3)
        ab, ba, aa = a.equal(b, delta=tol), b.equal(a, delta=tol), a.equal(a, tol)
    w = spec(sx, a, b, tol)
    sx.check(aa, 'a resource equals itself')
    if how == '==':
        sx.check(not (a == None), 'a resource is not equal to nothing')   # noqa: E711
        sx.check(a != None, 'a resource differs from nothing')    # noqa: E711
        sx.check(bool(a != b) == (not ab), 'difference is the opposite of equality')
    else:
        sx.check(not a.equal(None), 'a resource is not equal to nothing')
    sx.check(bool(ab) == bool(ba), 'equality is symmetric')
    if ab:
        sx.check(w, 'equal resources have no known difference')
        sx.reach('equal')
    else:
        sx.check(sx.not_(w), 'resources without known difference are equal')
        sx.reach('different')
    sx.observe('equal', bool(ab))


def p_time(sx):
    lo = sx.choice('lo', [-2, 1577836800])
    run(sx, one(sx, 'a', ['uri', 'timestamp', 'length'], lo), one(sx, 'b', ['uri', 'timestamp', 'length'], lo))


def p_hash(sx):
    run(sx, one(sx, 'a', ['length', 'md5', 'sha1', 'sha256']), one(sx, 'b', ['length', 'md5', 'sha1', 'sha256']))


def p_all(sx):
    """Every attribute present or absent on each side."""
    run(sx, one(sx, 'a', ('timestamp', 'length') + HASHES), one(sx, 'b', ('timestamp', 'length') + HASHES), ['=='])


def p_other(sx):
    """Attributes that do not count."""
    a = Resource('http://h/a', length=1, timestamp=5, path=sx.choice('ap', [None, 'p', 'q']), change=sx.choice('ac', [None, 'updated']),
                 mime_type=sx.choice('am', [None, 'x/y']), ts_datetime=sx.ts('ad', 0, 9), lastmod=None)
    b = Resource('http://h/a', length=sx.int('bl', 0, 2), timestamp=sx.ts('bt', 3, 7, 3), path=sx.choice('bp', [None, 'p']),
                 change=sx.choice('bc', [None, 'deleted']), mime_type=sx.choice('bm', [None, 'x/z']), ts_datetime=sx.ts('bd', 0, 9))
    if sx.flag('links'):
        a.link_set('up', 'http://h/up')
    run(sx, a, b)


HARNESSES = [('time', p_time, {'expect': ['equal', 'different']}), ('hash', p_hash, {'expect': ['equal', 'different']}),
             ('all', p_all, {'expect': ['equal', 'different']}), ('other', p_other, {'expect': ['equal', 'different']})]
