from resync.mapper import Map, Mapper, MapperError
from .lib import WIDE, leaves

INFO = {
    'bounds': 'prefixes of 1-3 and queries of 0-5 characters over letters, slash, newline and pattern metacharacters '
              '(quick; prefixes to 4 and queries to 6 thorough); up to two mappings (three thorough), and three (four) of which any two may clash; nested mappings with climbing remainders',
    'outside': 'longer strings; the name of a destination made up other than that it is a single ordinary name; sources without a host '
               'but with a scheme and no destination given',
}
ALPHA = WIDE.replace('=', '')      # prefixes hold no equals sign


def strip(s):
    while s.endswith('/'):
        s = s[:-1]
    return s


def spec(prefix, repl, q):
    """Literal translation or None (forks)."""
    if q == prefix:
        return repl + '/'
    if q.startswith(prefix + '/'):
        return repl + q[len(prefix):]
    return None


def p_single(sx):
    n = 4 if sx.thorough else 3
    src = sx.str('src', ALPHA, 1, n)
    dst = sx.str('dst', 'd./+', 1, 2)
    q = sx.str('q', WIDE, 0, n + 2)
    via = sx.choice('via', ['map', 'pair'])
    if via == 'map':
        m = Map(src, dst)
    else:
        m = Mapper([src, dst])
    s, d = strip(src), strip(dst)
    want = spec(s, d, q)
    o = sx.attempt(m.src_to_dst, q)
    if want is None:
        if via == 'map':
            sx.check(o.ok and o.value is None, 'a URI outside the prefix is not translated')
        else:
            sx.check(not o.ok and isinstance(o.exc, MapperError), 'a URI outside the prefix is refused')
        sx.reach('refused')
        return
    if leaves(q[len(s):]):
        sx.check(not o.ok and isinstance(o.exc, MapperError), 'a remainder that leaves the destination is refused')
        sx.reach('leaving')
        return
    sx.reach('translated')
    sx.check(o.ok and o.value is not None, 'a URI under the prefix is translated')
    sx.check(o.value == want, 'the prefix is replaced and the rest kept')
    b = sx.attempt(m.dst_to_src, o.value)
    sx.check(b.ok and b.value is not None, 'the path translates back')
    sx.check(b.value == (s + '/' if q == s else q), 'there and back returns the original')
    sx.observe('path', o.value)


def p_back(sx):
    src = sx.str('src', 'u./+', 1, 2)
    dst = sx.str('dst', ALPHA, 1, 3)
    q = sx.str('q', WIDE, 0, 6 if sx.thorough else 5)
    m = Mapper([src, dst])
    want = spec(strip(dst), strip(src), q)
    o = sx.attempt(m.dst_to_src, q)
    if want is None:
        sx.check(not o.ok and isinstance(o.exc, MapperError), 'a path outside the destination is refused')
        sx.reach('refused')
        return
    sx.check(o.ok, 'a path under the destination is translated')
    sx.check(o.value == want, 'the destination path is replaced and the rest kept')
    sx.observe('uri', o.value)
    sx.reach('translated')


def p_multi(sx):
    n = 3 if sx.thorough else 2
    maps, strs = [], []
    for i in range(n):
        s = sx.str('src%d' % i, 'ab/', 1, 3 if sx.thorough or i == 0 else 2)
        d = sx.str('dst%d' % i, 'xy/', 1, 2 if sx.thorough or i == 1 else 1)
        maps.append((strip(s), strip(d)))
        strs.append(s + '=' + d)
    dup = False
    for i in range(n):
        for j in range(i):
            if maps[i][0] == maps[j][0] or maps[i][1] == maps[j][1]:
                dup = True
    o = sx.attempt(Mapper, strs)
    if dup:
        sx.check(not o.ok and isinstance(o.exc, MapperError), 'a repeated prefix or destination is refused')
        sx.reach('dup')
        return
    sx.check(o.ok, 'distinct mappings are accepted')
    m = o.value
    sx.check(len(m) == n, 'every mapping is kept')
    back = sx.flag('back')
    q = sx.str('q', 'ab/c' if not back else 'xy/z', 0, 4 if sx.thorough else 3)
    want = None
    for s, d in maps:
        if want is None:
            want = spec(d, s, q) if back else spec(s, d, q)
    r = sx.attempt(m.dst_to_src if back else m.src_to_dst, q)
    if want is None:
        sx.check(not r.ok and isinstance(r.exc, MapperError), 'what no mapping covers is refused')
        sx.reach('refused')
    else:
        sx.check(r.ok, 'what a mapping covers is translated')
        sx.check(r.value == want, 'the first mapping that applies is used')
        sx.observe('r', r.value)
        sx.reach('translated')


def p_dups(sx):
    """Three or four mappings of which any two may share a prefix or destination."""
    n = sx.choice('n', [3, 4] if sx.thorough else [3])
    maps, strs = [], []
    for i in range(n):
        a = sx.choice('src%d' % i, ['', 'a', '/']) if i else ''
        b = sx.choice('dst%d' % i, ['', 'x', '/']) if i else ''
        s = ('u%d' % i if i == 0 or a == '' else 'u' + sx.strn('s%d' % i, '0123', 1) + a)
        d = ('p%d' % i if i == 0 or b == '' else 'p' + sx.strn('d%d' % i, '0123', 1) + b)
        maps.append((strip(s), strip(d)))
        strs.append(s + '=' + d)
    dup = False
    for i in range(n):
        for j in range(i):
            if maps[i][0] == maps[j][0] or maps[i][1] == maps[j][1]:
                dup = True
    o = sx.attempt(Mapper, strs)
    if dup:
        sx.check(not o.ok and isinstance(o.exc, MapperError), 'a repeated prefix or destination is refused')
        sx.reach('dup')
    else:
        sx.check(o.ok and len(o.value) == n, 'distinct mappings are accepted')
        for s, d in maps:
            sx.check(o.value.dst_to_src(d + '/') is not None and o.value.src_to_dst(s + '/') is not None, 'every mapping is kept')
        sx.reach('distinct')


def p_climb(sx):
    """The first mapping that covers a URI decides, also if it refuses it."""
    maps = sx.choice('maps', [[('h/x', 'b'), ('h', 'a')], [('h', 'a'), ('h/x', 'b')], [('h/x', 'b'), ('h/x/y', 'c'), ('h', 'a')]])
    q = sx.choice('head', ['h', 'h/x', 'h/x/y']) + sx.str('q', 'x./', 0, 6 if sx.thorough else 5)
    m = Mapper(['%s=%s' % x for x in maps])
    o = sx.attempt(m.src_to_dst, q)
    for s, d in maps:
        want = spec(s, d, q)
        if want is None:
            continue
        if leaves(q[len(s):]):
            sx.check(not o.ok and isinstance(o.exc, MapperError), 'a remainder that leaves the destination is refused')
            sx.reach('leaving')
        else:
            sx.check(o.ok, 'a URI under the prefix is translated')
            sx.check(o.value == want, 'the first mapping that applies is used')
            sx.reach('translated')
        return
    sx.check(not o.ok and isinstance(o.exc, MapperError), 'what no mapping covers is refused')
    sx.reach('refused')


def p_parse(sx):
    """Mapping strings with a wrong number of '=' are refused."""
    a = sx.str('a', 'a=/', 1, 4)
    k = sx.choice('k', [1, 2, 3])
    lst = [a] + ['p%d=q%d' % (i, i) for i in range(k - 1)]
    n = a.count('=')
    o = sx.attempt(Mapper, lst)
    if n != 1:
        sx.check(not o.ok and isinstance(o.exc, MapperError), 'a malformed mapping is refused')
        sx.reach('bad')
    elif o.ok:
        sx.check(len(o.value) == k, 'every mapping is kept')
        sx.check(o.value.default_src_uri() == strip(a.split('=')[0]), 'the default source is the first one')
        sx.reach('good')
    else:
        sx.fail('a well formed mapping is accepted')


def p_default(sx):
    """The destination made up if none is given."""
    local = sx.flag('local')
    if local:
        uri = sx.str('src', ALPHA.replace(':', '').replace('?', '').replace('#', '').replace(';', ''), 1, 3)
        sx.assume('//' not in uri.replace('\n', ''))
    else:
        head, tail = sx.choice('around', [('', ''), ('h', '/..'), ('..', '/')])
        rest = head + sx.str('rest', ALPHA, 0, 3 if sx.thorough else 2) + tail
        uri = sx.choice('scheme', ['http://', 'HTTPS://']) + rest
    o = sx.attempt(Mapper, [uri], use_default_path=True)
    if local:
        sx.check(o.ok, 'a local path is accepted')
        q = strip(uri) + '/x'
        sx.check(o.value.src_to_dst(q) == q, 'a local path is mapped to itself')
        sx.reach('local')
        return
    host = rest.replace('\n', '')
    for c in '/?#':
        host = host.split(c)[0]
    if host == '':
        sx.reach('no host')
        return
    if not o.ok:
        sx.check(not host.replace('-', 'a').isalnum(), 'a source with an ordinary host is accepted')
        sx.reach('refused')
        return
    m = o.value
    q = m.src_to_dst(strip(uri) + '/x')
    sx.check(q.endswith('/x'), 'resources keep their names')
    d = q[:-2]
    sx.check(d != '', 'the destination made up is no root directory')
    sx.check('/' not in d and '\0' not in d, 'the destination made up is a name in the current directory')
    sx.check(d != '.' and d != '..' and not d.startswith('.'), 'the destination made up is the name of an ordinary directory')
    sx.check(m.dst_to_src(q) == strip(uri) + '/x', 'and it maps back to the source')
    sx.reach('named')


HARNESSES = [
    ('default', p_default, {'expect': ['local', 'refused', 'named']}),
    ('single', p_single, {'expect': ['refused', 'translated', 'leaving']}),
    ('back', p_back, {'expect': ['refused', 'translated']}),
    ('multi', p_multi, {'expect': ['dup', 'refused', 'translated']}),
    ('dups', p_dups, {'expect': ['dup', 'distinct']}),
    ('climb', p_climb, {'expect': ['leaving', 'translated', 'refused']}),
    ('parse', p_parse, {'expect': ['bad', 'good']}),
]
