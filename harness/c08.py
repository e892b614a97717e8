from resync.url_authority import UrlAuthority
from .lib import ASCII

INFO = {
    'bounds': 'server names of up to 3 (master) and 5 (other) characters over letters, digits, hyphen, underscore and dots (well-formed '
              'labels), also after www., optional port, paths of up to 4 (5 thorough) characters over printable characters, optional query '
              'and fragment, schemes http/https/file; strict and lax mode; master set at creation or later',
    'outside': 'upper-case server names, percent-escapes and dot segments in paths (compared as written)',
}


HOST = 'abz09-_.'
PATH = ''.join(c for c in ASCII if c not in '?#;.')


def well_formed(sx, s):
    """Dots only between labels (formula)."""
    fs = []
    n = len(s)
    if n == 0:
        return True
    fs.append(s[0] != '.')
    fs.append(s[n - 1] != '.')
    for i in range(n - 1):
        fs.append(sx.or_(s[i] != '.', s[i + 1] != '.'))
    return sx.and_(*fs)


def directory(path):
    i = len(path) - 1
    while i >= 0 and not path[i] == '/':
        i -= 1
    d = path[:i + 1]
    while d.endswith('/'):
        d = d[:-1]
    return d


def below(d, m):
    if d == m:
        return True
    return d.startswith(m + '/')


def spec(sx, strict, m, o):
    if m['scheme'] != o['scheme']:
        return False
    if not (o['host'] == m['host']):
        if not o['host'].endswith('.' + m['host']):
            return False
    if strict:
        return below(directory(o['path']), directory(m['path']))
    return True


def url(sx, n, hostmax, pathmax, schemes, alphabet, tails):
    sch = sx.choice(n + '.scheme', schemes)
    host = sx.str(n + '.host', alphabet, 1, hostmax)
    sx.assume(well_formed(sx, host))
    if alphabet == HOST:
        host = sx.choice(n + '.www', ['', 'www.']) + host
    port = sx.choice(n + '.port', ['', ':80'])
    haspath = sx.flag(n + '.haspath')
    path = '/' + sx.str(n + '.path', PATH, 0, pathmax) if haspath else ''
    tail = sx.choice(n + '.tail', tails)
    return {'scheme': sch, 'host': host + port, 'path': path, 'url': sch + '://' + host + port + path + tail}


def judge(sx, m, o, strict):
    later = sx.flag('later')
    if later:
        a = UrlAuthority(strict=strict)
        a.set_master(m['url'])
    else:
        a = UrlAuthority(m['url'], strict)
    want = spec(sx, strict, m, o)
    got = a.has_authority_over(o['url'])
    sx.check(bool(got) == bool(want), 'authority follows scheme, host and path hierarchy')
    sx.reach('granted' if want else 'refused')
    sx.observe('got', bool(got))


def p_host(sx):
    m = url(sx, 'm', 3, 0, ['http', 'https'], HOST, [''])
    o = url(sx, 'o', 6 if sx.thorough else 5, 0, ['http', 'https'], HOST, [''])
    judge(sx, m, o, sx.flag('strict'))


def p_path(sx):
    n = 4 if sx.thorough else 3
    m = url(sx, 'm', 1, n, ['http'], 'a', ['', '?/b/'] if sx.thorough else [''])
    o = url(sx, 'o', 1, n + 1, ['http'], 'a', ['', '?q=/../', '#a/b'])
    sx.assume(sx.eq(m['host'], o['host']))
    judge(sx, m, o, sx.flag('strict'))


def p_none(sx):
    """Without a master nothing is authorized."""
    a = UrlAuthority(strict=sx.flag('strict'))
    o = url(sx, 'o', 2, 1, ['http', 'file'], HOST, [''])
    sx.check(not a.has_authority_over(o['url']), 'no master, no authority')
    sx.reach('none')


def p_local(sx):
    """Local lists: file URLs and plain paths."""
    pre = sx.choice('kind', [('', ''), ('file://', 'file'), ('', 'http')])
    m = '/' + sx.str('m', PATH, 0, 3)
    o = '/' + sx.str('o', PATH, 0, 4)
    # a path starting with two slashes names a server
    sx.assume(sx.not_(m.startswith('//')))
    sx.assume(sx.not_(o.startswith('//')))
    strict = sx.flag('strict')
    a = UrlAuthority(pre[0] + m, strict)
    other = (pre[0] + o) if pre[1] != 'http' else 'http://a' + o
    got = a.has_authority_over(other)
    want = pre[1] != 'http' and (not strict or below(directory(o), directory(m)))
    sx.check(bool(got) == bool(want), 'authority of local lists')
    sx.reach('granted' if want else 'refused')


HARNESSES = [
    ('host', p_host, {'expect': ['granted', 'refused']}),
    ('path', p_path, {'expect': ['granted', 'refused']}),
    ('none', p_none, {'expect': ['none']}),
    ('local', p_local, {'expect': ['granted', 'refused']}),
]
