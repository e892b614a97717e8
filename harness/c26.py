from resync.hashes import Hashes
from resync.client import Client
from resync.mapper import Mapper
from resync.resource import Resource
from resync.resource_list_builder import ResourceListBuilder
from .lib import BASE, ROOT, LIST, Web, entry, listing, status
from .syncs import client, resourcelist, CHANGES, changelist, change

INFO = {
    'bounds': 'content of 0-5 (quick) or 0-8 (thorough) symbolic bytes with block sizes 1-4 (1-5), 5000 bytes with block size 1, and of lengths around one and two '
              'default blocks with symbolic bytes at the block limits; all sets of types; two listed resources with every '
              'combination of requested types and given types of the first; type names one character away from the supported ones',
    'outside': 'the digest functions themselves (hashlib): they are an injective token of the content per type; longer contents',
    'assumptions': ['different contents have different digests'],
}
NAMES = ['md5', 'sha-1', 'sha-256']
ATT = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}
ALG = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}


def subset(sx, name, least=0):
    k = sx.choice(name, list(range(least, 8)))
    return [t for i, t in enumerate(NAMES) if k >> i & 1]


def right(sx, h, types, content, what=''):
    for t in NAMES:
        v = getattr(h, ATT[t])
        if t in types:
            sx.check(v is not None, 'the %s digest is computed%s' % (t, what))
            sx.check(v == sx.env.digest(ALG[t], content), 'the %s digest is that of the whole content%s' % (t, what))
        else:
            sx.check(v is None, 'no %s digest unless asked for%s' % (t, what))


def p_blocks(sx):
    env = sx.env
    content = sx.str('content', 'ab', 0, 8 if sx.thorough else 5).encode('ascii')
    env.mkfile('f', content, BASE)
    types = subset(sx, 'types')
    bs = sx.choice('block', [1, 2, 3, 4, 5] if sx.thorough else [1, 2, 3, 4])
    h = Hashes(types)
    o = sx.attempt(h.compute_for_file, 'f', block_size=bs)
    sx.check(o.ok, 'digests are computed')
    right(sx, h, types, content)
    sx.reach('empty' if len(content) == 0 else 'many' if len(content) > bs else 'one')
    if sx.flag('again'):
        other = sx.strn('other', 'ab', 2).encode('ascii')
        env.mkfile('g', other, BASE)
        h.compute_for_file('g')
        right(sx, h, types, other, ' of the second file')
        r = Resource('http://h/r', sha1='kept')
        h.set(r)
        for t in NAMES:
            if t in types:
                sx.check(getattr(r, ATT[t]) == env.digest(ALG[t], other), 'the digest is recorded for the resource')
            else:
                sx.check(getattr(r, ATT[t]) == ('kept' if t == 'sha-1' else None), 'other types are left as they are')
        sx.reach('again')


def p_long(sx):
    env = sx.env
    n = sx.choice('n', [2 ** 14 - 1, 2 ** 14, 2 ** 14 + 1, 2 ** 15, 2 ** 15 + 1])
    content = b'a' * (n - 4) + sx.strn('c', 'ab', 3).encode('ascii') + b'z'
    env.mkfile('f', content, BASE)
    types = subset(sx, 'types', 1)
    o = sx.attempt(Hashes, types, 'f')
    sx.check(o.ok, 'digests are computed')
    right(sx, o.value, types, content)
    sx.reach('done')


def p_blocksn(sx):
    """Very many blocks."""
    env = sx.env
    n = 5000
    content = b'a' * (n - 4) + sx.strn('c', 'ab', 3).encode('ascii') + b'z'
    env.mkfile('f', content, BASE)
    h = Hashes(['md5', 'sha-256'])
    o = sx.attempt(h.compute_for_file, 'f', block_size=1)
    sx.check(o.ok, 'digests are computed')
    right(sx, h, ['md5', 'sha-256'], content)
    sx.reach('done')


def p_types(sx):
    good = sx.choice('good', NAMES)
    how = sx.choice('how', ['change', 'drop', 'add'])
    i = sx.choice('at', list(range(len(good) + (how == 'add'))))
    c = sx.strn('char', 'md5sha-126MDSHA _', 1)
    if how == 'change':
        name = good[:i] + c + good[i + 1:]
    elif how == 'drop':
        name = good[:i] + good[i + 1:]
    else:
        name = good[:i] + c + good[i:]
    others = subset(sx, 'others')
    at = sx.choice('pos', [0, len(others)])
    o = sx.attempt(Hashes, others[:at] + [name] + others[at:])
    known = sx.or_(*[name == t for t in NAMES])
    if o.ok:
        sx.check(known, 'unknown types are refused')
        sx.reach('accepted')
    else:
        sx.check(sx.not_(known), 'known types are accepted')
        sx.check(str(o.exc).startswith('Hash type '), 'the message says so')
        sx.reach('refused')


def given(sx, n, types, content):
    """Value of the hash attribute with right or wrong digests, and the digests."""
    ds = {}
    for t in types:
        if sx.flag('%s.%s wrong' % (n, t)):
            ds[t] = sx.env.digest(ALG[t], sx.env.blob(9, 1))
        else:
            ds[t] = sx.env.digest(ALG[t], content)
    return ' '.join('%s:%s' % (t, ds[t]) for t in types) or None, ds


def differ(sx, req, ds, local):
    """Formula: a shared type shows a difference."""
    return sx.or_(*[ds[t] != sx.env.digest(ALG[t], local) for t in req if t in ds])


def p_sync(sx):
    """Audit and baseline of files of equal size and time."""
    env = sx.env
    req = subset(sx, 'requested')
    src, es, table, want = [], [], {}, []
    k = 2
    for i in range(k):
        n = 'r%d' % i
        uri = ROOT + '/' + n
        tag = sx.int(n + '.tag', 0, 1)
        c = env.blob(tag, 3)
        if i == 0:
            types = subset(sx, 'given')
        else:
            types = {'none': [], 'md5': ['md5'], 'sha-256': ['sha-256']}[sx.choice('given1', ['none', 'md5', 'sha-256'])]
        ds = dict((t, env.digest(ALG[t], c)) for t in types)
        text = ' '.join('%s:%s' % (t, ds[t]) for t in types) or None
        loc = env.blob(sx.int(n + '.local', 0, 1), 3)
        env.mkfile('d/' + n, loc, BASE)
        es.append(entry(sx, uri, lastmod='2020-01-01T00:00:00Z', length='3', hash=text))
        table[uri] = c
        want.append(differ(sx, req, ds, loc))
    table[LIST] = resourcelist(sx, es)
    web = Web(sx, table)
    env.handler = web
    audit = sx.flag('audit')
    c = client(hashes=req)
    env.keep_log = True
    start = len(env.log)
    o = sx.attempt(c.baseline_or_audit, audit_only=audit)
    sx.check(o.ok, 'the hash types given do not prevent the run')
    text = status(env, start)[0]
    num = sum(sx.ite(w, 1, 0) for w in want)
    got = int(text[text.index('to update=') + len('to update='):].split(',')[0])
    sx.check(num == got, 'a file is found different exactly if a requested type the source gives shows it')
    sx.check('to create=0' in text and 'to delete=0' in text, 'and nothing else is found')
    if not audit:
        for i in range(k):
            hit = any([u == ROOT + '/r%d' % i for u in web.fetched])
            sx.check(want[i] if hit else sx.not_(want[i]), 'exactly the files found different are fetched')
            sx.check(sx.implies(want[i], env.content('d/r%d' % i) == table[ROOT + '/r%d' % i]), 'and replaced')
    sx.reach(('audit' if audit else 'baseline') + (' differs' if got else ' same'))


def p_reports(sx):
    """Downloads that differ from what the list says are reported, others are not."""
    env = sx.env
    req = subset(sx, 'requested')
    uri = ROOT + '/a'
    c0 = env.blob(sx.int('tag', 0, 1), sx.int('size', 1, 2))
    ds = {}
    for t in NAMES:
        st = sx.choice(t, ['absent', 'right', 'wrong'])
        if st != 'absent':
            ds[t] = env.digest(ALG[t], c0 if st == 'right' else env.blob(9, 1))
    ln = sx.choice('length', [None, 0, 1, 2])
    env.mkdir('d')
    how = sx.choice('how', ['baseline', 'incremental'])
    h = ' '.join('%s:%s' % (t, ds[t]) for t in ds) or None
    kw = dict(lastmod='2020-01-01T00:00:05Z', length=None if ln is None else str(ln), hash=h)
    if how == 'baseline':
        env.handler = Web(sx, {LIST: resourcelist(sx, [entry(sx, uri, **kw)]), uri: c0})
    else:
        env.handler = Web(sx, {CHANGES: changelist(sx, [change(sx, uri, 'updated', at='2020-01-01T00:00:05Z', **kw)]), uri: c0})
    c = client(hashes=req)
    env.keep_log = True
    start = len(env.log)
    if how == 'baseline':
        o = sx.attempt(c.baseline_or_audit)
    else:
        o = sx.attempt(c.incremental, change_list_uri=CHANGES, from_datetime='2019-01-01')
    sx.check(o.ok, 'differences do not end the sync')
    texts = [t for l, t in env.log[start:] if t is not None and not t.startswith('Event')]
    wrong = 0
    for t in NAMES:
        if t not in ds:
            continue
        mine = env.digest(ALG[t], c0)
        lines = [x for x in texts if ds[t] in x]
        if t in req and ds[t] != mine:
            wrong += 1
            sx.check(any([sx.and_(mine in x, uri in x) for x in lines]), 'a digest that differs is reported')
            sx.reach('digest')
        else:
            sx.check(not lines, 'no other digest is reported')
    lines = [x for x in texts if 'bytes' in x and 'match' in x]
    if ln is not None and ln != len(c0):
        sx.check(len(lines) == 1 and uri in lines[0], 'a length that differs is reported')
        sx.reach('length')
    else:
        sx.check(len(lines) == 0, 'a length that does not differ is not reported')
    if not wrong:
        sx.reach('right')
    sx.check(env.content('d/a') == c0, 'the file is kept as served')


def p_incremental(sx):
    """Hash types of change lists do not prevent the sync; the outcome is the same without hashes."""
    env = sx.env
    req = subset(sx, 'requested')
    types = subset(sx, 'given')
    c0 = env.blob(sx.int('tag', 0, 1), 3)
    h, ds = given(sx, 'c', types, c0)
    uri = ROOT + '/a'
    loc = None
    if sx.flag('present'):
        loc = env.blob(sx.int('local', 0, 1), 3)
        env.mkfile('d/a', loc, BASE)
    else:
        env.mkdir('d')
    es = [change(sx, uri, 'updated' if loc is not None else 'created', at='2020-01-01T00:00:05Z', lastmod='2020-01-01T00:00:05Z',
                 length='3', hash=h)]
    if sx.flag('deleted'):
        env.mkfile('d/b', env.blob(5, 5), BASE)
        es.append(change(sx, ROOT + '/b', 'deleted', at='2020-01-01T00:00:06Z'))
    env.handler = Web(sx, {CHANGES: changelist(sx, es), uri: c0})
    c = client(hashes=req)
    o = sx.attempt(c.incremental, allow_deletion=True, change_list_uri=CHANGES, from_datetime='2019-01-01')
    sx.check(o.ok, 'the hash types given do not prevent the sync')
    sx.check(env.content('d/a') == c0, 'the file is fetched')
    sx.check(env.kind('d/b') is None, 'the other one deleted')
    sx.reach('done')


def p_list(sx):
    """Lists built give exactly the requested types, of the files' contents."""
    env = sx.env
    req = subset(sx, 'requested')
    cs = {}
    for n in ('a', 'b'):
        cs[ROOT + '/' + n] = env.blob(sx.int(n, 0, 1), sx.int(n + '.size', 1, 2))
        env.mkfile('d/' + n, cs[ROOT + '/' + n], BASE)
    c = client(hashes=req)
    o = sx.attempt(c.build_resource_list)
    sx.check(o.ok, 'the list is built')
    seen = 0
    for r in o.value:
        seen += 1
        right(sx, r, req, cs[sx.concrete(r.uri)])
    sx.check(seen == 2, 'both files are listed')
    sx.check(o.value.hashes() == set(req), 'the list says which types it gives')
    sx.reach('done')


HARNESSES = [('blocks', p_blocks, {'expect': ['empty', 'one', 'many', 'again']}), ('long', p_long, {'expect': ['done']}),
             ('blocksn', p_blocksn, {'expect': ['done']}),
             ('types', p_types, {'expect': ['accepted', 'refused']}),
             ('sync', p_sync, {'expect': ['audit differs', 'audit same', 'baseline differs', 'baseline same']}),
             ('reports', p_reports, {'expect': ['digest', 'length', 'right']}),
             ('incremental', p_incremental, {'expect': ['done']}), ('list', p_list, {'expect': ['done']})]
