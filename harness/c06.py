from resync.client import Client
from resync.mapper import Mapper
from .lib import WIDE, BASE, ROOT, LIST, Web, entry
from .syncs import CHANGES, KINDS, STATE, is_state, changelist, change, client, resourcelist

INFO = {
    'bounds': 'one listed URI: the mapped prefix followed by 0-5 (quick) or 0-7 (thorough) characters over printable characters, space, '
              'newline and some other letters, or by encoded or plain parent components between two such characters, or by 1-4 components out of ., .., empty and names; destinations that are plain, '
              'nested, or contain dots; one or two mappings; baseline and incremental, created, updated and deleted; '
              'authority checking off; a file present outside and inside',
    'outside': 'symbolic links inside the destination made by somebody else; longer URIs',
    'assumptions': [],
}


def norm(p):
    """Components of the absolute form of a path below the working directory '/w/cwd'."""
    out = ['w', 'cwd']
    if p.startswith('/'):
        out = []
    for c in p.split('/'):
        if c == '' or c == '.':
            continue
        if c == '..':
            if out:
                out.pop()
        else:
            out.append(c)
    return out


def below(p, d):
    a, b = norm(p), norm(d)
    return a[:len(b)] == b


def run(sx, rest, dst, second):
    env = sx.env
    uri = ROOT + rest
    env.mkdir(dst)
    env.mkfile('out', 'keep', BASE)
    env.mkfile('e/f', 'keep', BASE)
    env.mkdir('d2')
    c = client(noauth=True, ignore_failures=sx.flag('ignore'))
    c.mapper = Mapper([ROOT + '=' + dst] + (['http://h/s2=d2'] if second else []))
    mode = sx.choice('mode', ['baseline', 'incremental'])
    if mode == 'baseline':
        table = {LIST: resourcelist(sx, [entry(sx, uri, lastmod='2020-01-01T00:00:00Z')])}
        call = lambda: c.baseline_or_audit(allow_deletion=True)
    else:
        k = sx.choice('change', KINDS)
        table = {CHANGES: changelist(sx, [change(sx, uri, k, lastmod='2020-01-01T00:00:00Z', at='2020-01-01T00:00:00Z')])}
        call = lambda: c.incremental(allow_deletion=True, change_list_uri=CHANGES, from_datetime='2000')

    def web(rec):
        for k in table:
            if rec['url'] == k:
                return sx.Response(table[k])
        return sx.Response(b'new')
    env.handler = web
    o = sx.attempt(call)
    where = [x for x in env.effects if not is_state(x)]
    for x in where:
        sx.check(below(x[1], dst), 'every effect is inside the destination of the mapping')
    sx.check(env.kind('out') == 'file' and env.kind('e/f') == 'file', 'files outside are still there')
    s = uri[len(ROOT):]
    depth = low = 0
    for comp in s.split('/'):
        if comp == '..':
            depth -= 1
            low = min(low, depth)
        elif comp != '' and comp != '.':
            depth += 1
    covered = s == '' or s[0] == '/'
    if low < 0 or not covered:
        sx.check(not o.ok, 'a path that would leave the destination is refused')
        sx.check(len(where) == 0, 'nothing is done for a refused resource')
        sx.reach('refused')
    elif len(where) > 0:
        sx.reach('applied')
    sx.observe('ok', o.ok)
    sx.observe('effects', len(where))


def p_chars(sx):
    rest = sx.str('rest', WIDE, 0, 6 if sx.thorough else 4)
    dst = 'd'
    if sx.thorough:
        dst = sx.choice('dst', ['d', 'd/e.x'])
    run(sx, rest, dst, False)


def p_comps(sx):
    n = sx.choice('n', [1, 2, 3, 4] if sx.thorough else [1, 2, 3])
    rest = ''
    for i in range(n):
        rest += sx.choice('s%d' % i, ['/..', '/.', '/', '/a', '/...', '/..a'] if i < n - 1 else ['/..', '/out', '/', '/d', '/../s2/f'])
    run(sx, rest, sx.choice('dst', ['d', 'g/f.d', './d', 'd/../g', 'd/']), sx.choice('second', [True, False] if sx.thorough else [True]))


def p_sep(sx):
    """Arbitrary characters around '..' and its encoded forms."""
    rest = '/' + sx.str('s0', WIDE, 0, 1) + sx.choice('up', ['..', '%2e%2e', '.%2E', '%2e.', '%252e%252e', '&#46;.', '...'])
    rest += sx.str('s1', WIDE, 1, 1) + 'out' if sx.flag('one') else sx.choice('enc', ['%2f', '%2F', '%5c', '\\\\', '/./']) + 'out'
    run(sx, rest, 'd', False)


HARNESSES = [
    ('chars', p_chars, {'expect': ['refused', 'applied']}),
    ('sep', p_sep, {'expect': ['refused', 'applied']}),
    ('comps', p_comps, {'expect': ['refused', 'applied']}),
]
