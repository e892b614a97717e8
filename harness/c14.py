import os
from resync.hashes import Hashes
from resync.mapper import Mapper
from resync.resource import Resource
from resync.resource_list import ResourceList
from resync.resource_list_builder import ResourceListBuilder
from .lib import ROOT, opt

INFO = {
    'bounds': 'trees of up to 4 nodes in two levels with symbolic names of 1-2 characters over letters, dot, percent, blank '
              'and a non-ASCII letter, each a file, directory, special file or symbolic link to file, directory or nothing; 7 sets of '
              'exclude patterns; symbolic sizes, contents and times; every subset of options and hash types; one or two '
              'mappings, disjoint or nested; explicit, repeated and overlapping paths; existing list',
    'outside': 'exclude patterns together with an explicit path that is a single file; following symbolic links; file names that '
               'are not UTF-8; files that change during the scan',
}
ALPHA = 'ab.% é'
EXCLUDES = {
    'none': ([], lambda n: False),
    'a': (['a'], lambda n: n.startswith('a')),
    '.*b': (['.*b'], lambda n: 'b' in n),
    r'\.': ([r'\.'], lambda n: n.startswith('.')),
    'a$|': (['a$', '%'], lambda n: n == 'a' or n.startswith('%')),
    'b': (['.+b', ' '], lambda n: 'b' in n[1:] or n.startswith(' ')),
    'é': (['[ab]é'], lambda n: n.startswith('aé') or n.startswith('bé')),
}


def names(sx, n, alpha):
    out = []
    for i in range(n):
        s = sx.str('name%d' % i, alpha, 1, 2 if sx.thorough or i == 0 else 1)
        sx.assume(sx.and_(s != '.', s != '..', s != '%'))
        out.append(s)
    return out


def match_lists(sx, got, want, fields):
    """got holds exactly the entries of want: [(uri, dict)] in any order."""
    sx.check(len(got) == len(want), 'one entry for every file and no other')
    left = list(got)
    for uri, atts in want:
        found = None
        for r in left:
            if r.uri == uri:
                found = r
                break
        sx.check(found is not None, 'every file has its entry at the mapped URI')
        left = [r for r in left if r is not found]
        for f in fields:
            v, w = getattr(found, f), atts.get(f)
            if w is None:
                sx.check(v is None, '%s is absent' % f)
            else:
                sx.check(v is not None, '%s is present' % f)
                sx.check(v == w, '%s is that of the file' % f)


ALL = ('timestamp', 'length', 'md5', 'sha1', 'sha256', 'path')


def p_scan(sx):
    """Which files are listed."""
    env = sx.env
    env.mkdir('d')
    env.mkfile('t/file', env.blob(20, 3), 100)
    env.mkfile('t/dir/inner', env.blob(21, 3), 100)
    nn = names(sx, 3, ALPHA if sx.thorough else 'ab.é%')
    ex = sx.choice('exclude', sorted(EXCLUDES))
    pats, excluded = EXCLUDES[ex]
    sx.assume(nn[0] != nn[1])
    want = []
    kinds = []
    # two nodes in the top directory and one below the second
    for i in (0, 1):
        p = 'd/' + nn[i]
        k = sx.choice('kind%d' % i, ['file', 'dir', 'flink', 'dlink', 'broken', 'fifo'] if i == 0 else ['file', 'dir', 'ldir'])
        kinds.append(k)
        if k == 'file':
            env.mkfile(p, env.blob(i, 4 + i), 50 + i)
            if not excluded(nn[i]):
                want.append((ROOT + '/' + nn[i], {'timestamp': 50 + i, 'length': 4 + i}))
        elif k == 'dir':
            env.mkdir(p)
        elif k == 'fifo':
            env.mkfifo(p)
        elif k == 'ldir':
            env.symlink(p, '../t/dir')
        else:
            env.symlink(p, {'flink': '../t/file', 'dlink': '../t/dir', 'broken': 'nowhere'}[k])
    if kinds[1] == 'dir':
        p = 'd/' + nn[1] + '/' + nn[2]
        k = sx.choice('kind2', ['file', 'dir', 'flink'])
        if k == 'file':
            env.mkfile(p, env.blob(2, 6), 52)
            if not excluded(nn[1]) and not excluded(nn[2]):
                want.append((ROOT + '/' + nn[1] + '/' + nn[2], {'timestamp': 52, 'length': 6}))
        elif k == 'dir':
            env.mkfile(p + '/x', env.blob(3, 7), 53)
            if not excluded(nn[1]) and not excluded(nn[2]) and not excluded('x'):
                want.append((ROOT + '/' + nn[1] + '/' + nn[2] + '/x', {'timestamp': 53, 'length': 7}))
        else:
            env.symlink(p, '../../t/file')
        if excluded(nn[1]):
            sx.reach('directory excluded')
        if excluded(nn[2]):
            sx.reach('file in directory excluded')
    rich = len(pats) == 1
    b = ResourceListBuilder(mapper=Mapper([ROOT, 'd']), set_path=rich, set_hashes=['md5'] if rich else None, set_length=not rich)
    for u, atts in want:
        if rich:
            p = 'd' + u[len(ROOT):]
            atts['path'], atts['length'], atts['md5'] = p, None, env.digest('md5', env.content(p))
    if len(pats) == 2:
        b.add_exclude_patterns(pats[:1])
        b.add_exclude_patterns(pats[1:])
    else:
        b.add_exclude_patterns(pats)
    o = sx.attempt(b.from_disk)
    sx.check(o.ok, 'the scan succeeds')
    match_lists(sx, list(o.value), want, ALL)
    if want:
        sx.reach('listed')
    else:
        sx.reach('none listed')
    sx.check(len(env.effects) == 0, 'nothing is changed')
    sx.observe('uris', sorted(sx.concrete(r.uri) for r in o.value))


def p_fields(sx):
    """The metadata of the entries."""
    env = sx.env
    hs = [h for h in ('md5', 'sha-1', 'sha-256') if sx.flag('hash ' + h)]
    length = sx.flag('length')
    path = sx.flag('path')
    as_set = sx.flag('as_set')
    want = []
    for i, p in enumerate(['d/a', 'd/b/c']):
        size = sx.int('size%d' % i, 1, 9)
        tag = sx.int('tag%d' % i, 0, 5)
        t = sx.ts('time%d' % i, 0, 20, 2)
        if i == 1 and sx.flag('empty'):
            c, size = b'', 0
        else:
            c = env.blob(tag, size)
        env.mkfile(p, c, t)
        atts = {'timestamp': t, 'length': size if length else None, 'path': p if path else None}
        for h, a in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')):
            atts[a] = env.digest(a, c) if h in hs else None
        want.append((ROOT + p[1:], atts))
    b = ResourceListBuilder(mapper=Mapper([ROOT, 'd']), set_hashes=(set(hs) if as_set else hs), set_length=length, set_path=path)
    old = sx.choice('list', ['none', 'empty', 'other', 'same'])
    kw = {}
    if old != 'none':
        rl = ResourceList()
        kw['resource_list'] = rl
        if old == 'other':
            rl.add(Resource('http://h/other', timestamp=7, length=8))
            want.append(('http://h/other', {'timestamp': 7, 'length': 8}))
    o = sx.attempt(b.from_disk, **kw)
    sx.check(o.ok, 'the scan succeeds')
    if old != 'none':
        sx.check(o.value is rl, 'the list passed is extended')
    if old == 'same':
        o = sx.attempt(b.from_disk, resource_list=rl)
        sx.check(o.ok, 'a second scan succeeds')
        sx.reach('twice')
    match_lists(sx, list(o.value), want, ALL)
    if hs:
        sx.reach('hashes')
    else:
        sx.reach('no hashes')
    sx.observe('entries', sorted([r.uri, r.timestamp, r.length, r.path, r.md5 is None, r.sha1 is None, r.sha256 is None]
                                 for r in o.value))


def p_paths(sx):
    """Several mappings and explicit paths."""
    env = sx.env
    pairs = [('http://h/s', 'd'), ('http://h/t', 'e'), ('http://h/u', 'd/b'), ('http://h/s/b', 'd/b'), ('http://h/v', 'missing'),
             ('http://h/w', 'd/a')]
    k = sx.choice('k', [1, 2, 3])
    pick = [pairs[sx.choice('m%d' % i, list(range(len(pairs))))] for i in range(min(k, 2))]
    if k == 3:
        sx.assume(pick[0][1] != 'missing' and pick[1][1] != 'missing')
        pick.append(('http://h/x', 'z'))
    if k >= 2:
        sx.assume(pick[0][0] != pick[1][0])
        sx.assume(pick[0][1] != pick[1][1])
    n = sx.strn('name', 'ab', 1)
    files = [('d/a', 'd'), ('d/c/x', 'd'), ('d/b/' + n, 'd d/b'), ('d/bb', 'd'), ('e/' + n, 'e'), ('z/y', 'z')]
    for i, (f, _) in enumerate(files):
        env.mkfile(f, env.blob(i, i + 1), 60 + i)
    explicit = sx.choice('paths', [None, ['d'], ['d', 'd'], ['d/b', 'd'], ['d/a'], ['d/a', 'd/bb', 'd/a'], ['d/missing'], ['d/'], ['d/b/', 'd/c'], []])
    roots = [p[1] for p in pick] if explicit is None else explicit
    want = []
    refused = False
    for i, (f, _) in enumerate(files):
        hit = False
        for r in roots:
            r = r.rstrip('/')
            if f == r or f.startswith(r + '/'):
                hit = True
        if hit:
            uri = None
            for s, d in pick:
                if uri is None and (f.startswith(d + '/')):
                    uri = s + f[len(d):]
                elif uri is None and f == d:
                    uri = s + '/'
            if uri is None:
                refused = True
                continue
            want.append((uri, {'timestamp': 60 + i, 'length': i + 1}))
    m = Mapper()
    m.parse(['%s=%s' % p for p in pick])
    b = ResourceListBuilder(mapper=m)
    o = sx.attempt(b.from_disk, paths=explicit)
    if refused:
        sx.check(not o.ok, 'a path outside the mappings is refused')
        sx.reach('refused')
        return
    if o.kind == 'MapperError' and explicit == ['d/missing']:
        sx.reach('missing path outside the mappings')
        return
    sx.check(o.ok, 'the scan succeeds')
    match_lists(sx, list(o.value), want, ALL)
    sx.reach('listed' if want else 'empty')
    if len(roots) == 2:
        sx.reach('two')
    sx.observe('uris', sorted(sx.concrete(r.uri) for r in o.value))


HARNESSES = [('scan', p_scan, {'expect': ['listed', 'none listed', 'directory excluded', 'file in directory excluded']}),
             ('fields', p_fields, {'expect': ['hashes', 'no hashes', 'twice']}),
             ('paths', p_paths, {'expect': ['refused', 'listed', 'empty', 'two', 'missing path outside the mappings']})]
