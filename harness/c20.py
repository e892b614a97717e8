from resync.change_list import ChangeList
from resync.client import Client
from resync.mapper import Mapper
from resync.resource import ChangeTypeError, Resource
from resync.resource_list import ResourceList
from resync.w3c_datetime import str_to_datetime
from .lib import BASE, ROOT, entry, listing, spec_match, when

INFO = {
    'bounds': 'old and new lists of 0-3 entries (4 old thorough) with symbolic URIs, times (seconds), lengths and hashes each present or absent, '
              'given as files or as a scan of the disk; single or multi-part output; sequences of up to 4 additions with '
              'any change type; change types of up to 3 symbolic characters and near misses of the valid ones',
    'outside': 'longer lists; dumps of change lists (not implemented)',
}
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


def read_changes(doc):
    """[(uri, change, Resource)] and capability of a change list document."""
    out = []
    cap = None
    for k in doc.kids:
        if k.tag == RS + 'md':
            cap = dict(k.attrs).get('capability')
        if k.tag != SM + 'url':
            continue
        loc, lastmod, md = None, None, {}
        for x in k.kids:
            if x.tag == SM + 'loc':
                loc = x.text
            elif x.tag == SM + 'lastmod':
                lastmod = x.text
            elif x.tag == RS + 'md':
                md = dict(x.attrs)
        r = Resource(loc, lastmod=lastmod, length=int(md['length']) if 'length' in md else None)
        if 'hash' in md:
            r.hash = md['hash']
        out.append((loc, md.get('change'), r))
    return out, cap


def sym_entry(sx, n, fields):
    """(facts, document element) of a list entry."""
    u = ROOT + '/' + sx.strn(n + '.uri', 'abc', 1)
    lm, ts = (None, None)
    if 'time' in fields and sx.flag(n + '.t?') or 'time!' in fields:
        lm, ts = when(sx, n + '.t', 0, 5)
    length = sx.int(n + '.len', 0, 3) if 'length!' in fields or 'length' in fields and sx.flag(n + '.len?') else None
    md5 = sx.strn(n + '.md5', 'xy', 1) if 'md5' in fields and sx.flag(n + '.md5?') else None
    r = Resource(u, timestamp=ts, length=length, md5=md5)
    return r, entry(sx, u, lastmod=lm, length=None if length is None else str(length),
                    hash=None if md5 is None else 'md5:' + md5)


def identical(sx, a, b):
    fs = []
    for at in ('timestamp', 'length', 'md5', 'sha1', 'sha256'):
        x, y = getattr(a, at), getattr(b, at)
        if x is None or y is None:
            if x is not y:
                return False
        else:
            fs.append(x == y)
    return sx.and_(*fs)


def verify(sx, old, new, changes):
    for u, ch, r in changes:
        n = 0
        for v, _, _ in changes:
            if v == u:
                n += 1
        sx.check(n == 1, 'a URI has one entry at most')

    def find(rs, u):
        for r in rs:
            if r.uri == u:
                return r
        return None
    expected = 0
    for o in old:
        nw = find(new, o.uri)
        e = None
        for u, ch, r in changes:
            if u == o.uri:
                e = (ch, r)
        if nw is None:
            sx.check(e is not None and e[0] == 'deleted', 'a URI that is gone is marked deleted')
            sx.check(identical(sx, e[1], o), 'a deletion carries the old metadata')
            expected += 1
            sx.reach('deleted')
        else:
            same = spec_match(sx, o, nw)
            if e is None:
                sx.check(same, 'a URI whose metadata differs has an entry')
                sx.reach('same')
            else:
                sx.check(sx.not_(same), 'a URI whose metadata does not differ has no entry')
                sx.check(e[0] == 'updated', 'a URI whose metadata differs is marked updated')
                sx.check(identical(sx, e[1], nw), 'an update carries the new metadata')
                expected += 1
                sx.reach('updated')
    for nw in new:
        if find(old, nw.uri) is None:
            e = None
            for u, ch, r in changes:
                if u == nw.uri:
                    e = (ch, r)
            sx.check(e is not None and e[0] == 'created', 'a new URI is marked created')
            sx.check(identical(sx, e[1], nw), 'a creation carries the new metadata')
            expected += 1
            sx.reach('created')
    sx.check(len(changes) == expected, 'there are no other entries')


def distinct(sx, rs):
    for i in range(len(rs)):
        for j in range(i):
            sx.assume(rs[i].uri != rs[j].uri)


def p_lists(sx):
    env = sx.env
    no = sx.choice('old', [0, 1, 2, 3])
    nn = sx.choice('new', [0, 1, 2, 3] if sx.thorough else [0, 1, 2])
    if no + nn > 4:
        sx.assume(sx.thorough)
    fields = ['time', 'length', 'md5'] if no == nn == 1 else ['time!'] if no < nn else ['length!']
    old = [sym_entry(sx, 'o%d' % i, fields) for i in range(no)]
    new = [sym_entry(sx, 'n%d' % i, fields) for i in range(nn)]
    distinct(sx, [r for r, e in old])
    distinct(sx, [r for r, e in new])
    env.mkfile('old.xml', env.xml(listing(sx, 'resourcelist', [e for r, e in old])))
    env.mkfile('new.xml', env.xml(listing(sx, 'resourcelist', [e for r, e in new])))
    c = Client()
    c.mapper = Mapper([ROOT, 'd'])
    out = sx.choice('out', ['print', 'd/out.xml'] if no + nn < 4 else ['d/out.xml'])
    env.mkdir('d')
    if out == 'print':
        o = sx.attempt(c.write_change_list, ref_sitemap='old.xml', newref_sitemap='new.xml')
        sx.check(o.ok, 'the change list is written')
        doc = env.doc_of_text(env.out[-1])
    else:
        o = sx.attempt(c.write_change_list, ref_sitemap='old.xml', newref_sitemap='new.xml', outfile=out,
                       paths='d' if no + nn == 3 and sx.flag('paths') else None)
        sx.check(o.ok, 'the change list is written')
        doc = env.read_doc(out)
    changes, cap = read_changes(doc)
    sx.check(cap == 'changelist', 'it is a change list')
    verify(sx, [r for r, e in old], [r for r, e in new], changes)
    sx.observe('changes', [[u, ch] for u, ch, r in changes])


def p_disk(sx):
    """New state from disk."""
    env = sx.env
    old, new = [], []
    md5 = sx.flag('md5')
    for i, n in enumerate('abc' if sx.thorough else 'ab'):
        where = sx.choice('in%d' % i, ['old', 'new', 'both'])
        u, p = ROOT + '/' + n, 'd/' + n
        size, tag = sx.int('size%d' % i, 1, 3), sx.int('tag%d' % i, 0, 2)
        t = sx.int('t%d' % i, 0, 5)
        if where != 'old':
            b = env.blob(tag, size)
            env.mkfile(p, b, BASE + t)
            new.append(Resource(u, timestamp=BASE + t, length=size, md5=env.digest('md5', b) if md5 else None))
        if where != 'new':
            ot = sx.int('ot%d' % i, 0, 5)
            osize = sx.int('osize%d' % i, 1, 3)
            h = None
            if md5:
                h = env.digest('md5', env.blob(sx.int('otag%d' % i, 0, 2), osize))
            old.append(Resource(u, timestamp=BASE + ot, length=osize, md5=h))
    env.mkdir('d')
    env.mkfile('old.xml', env.xml(listing(sx, 'resourcelist', [
        entry(sx, r.uri, lastmod='2020-01-01T00:00:0%dZ' % (r.timestamp - BASE), length=str(r.length),
              hash=None if r.md5 is None else 'md5:' + r.md5) for r in old])))
    c = Client(hashes=['md5'] if md5 else [])
    c.mapper = Mapper([ROOT, 'd'])
    o = sx.attempt(c.write_change_list, ref_sitemap='old.xml', outfile='out.xml', **({'paths': 'd'} if sx.flag('paths') else {}))
    sx.check(o.ok, 'the change list is written')
    changes, cap = read_changes(env.read_doc('out.xml'))
    verify(sx, old, new, changes)
    sx.observe('changes', [[u, ch] for u, ch, r in changes])


def p_empty(sx):
    """An empty change list has no entries, whatever else is given."""
    env = sx.env
    env.mkdir('d')
    (r0, e0), (r1, e1) = sym_entry(sx, 'o', ['length']), sym_entry(sx, 'n', ['length'])
    env.mkfile('d/f', env.blob(1, 2), BASE)
    env.mkfile('old.xml', env.xml(listing(sx, 'resourcelist', [e0])))
    env.mkfile('new.xml', env.xml(listing(sx, 'resourcelist', [e1])))
    c = Client()
    c.mapper = Mapper([ROOT, 'd'])
    kw = {}
    if sx.flag('old given'):
        kw['ref_sitemap'] = 'old.xml'
    if sx.flag('new given'):
        kw['newref_sitemap'] = 'new.xml'
    if sx.flag('paths given'):
        kw['paths'] = 'd'
    link = sx.flag('link')
    if link:
        kw['links'] = [{'rel': 'up', 'href': 'http://h/' + sx.strn('href', 'ab', 1)}]
    o = sx.attempt(c.write_change_list, outfile='out.xml', empty=True, **kw)
    sx.check(o.ok, 'the change list is written')
    doc = env.read_doc('out.xml')
    changes, cap = read_changes(doc)
    sx.check(cap == 'changelist' and len(changes) == 0, 'an empty change list has no entries')
    lns = [dict(k.attrs) for k in doc.kids if k.tag == RS + 'ln']
    sx.check(len(lns) == (1 if link else 0), 'it has the links given')
    if link:
        sx.check(sx.and_(lns[0]['rel'] == 'up', lns[0]['href'] == kw['links'][0]['href']), 'it has the links given')
    sx.reach('empty')


def p_accept(sx):
    """Additions to a change list."""
    kinds = ['created', 'updated', 'deleted', None]
    n = sx.choice('n', [1, 2, 3, 4])
    c = ChangeList()
    want = []
    refused = False
    form = sx.choice('form', ['single', 'list', 'container', 'changed'])
    rs = []
    for i in range(n):
        k = sx.choice('k%d' % i, kinds if i != 1 else ['deleted'])
        r = Resource('http://h/' + sx.strn('u%d' % i, 'ba', 1), change=k, length=i)
        rs.append((r, k))
    if form == 'changed':
        ch = sx.choice('ch', kinds)
        o = sx.attempt(c.add_changed_resources, [r for r, k in rs], **({} if ch is None else {'change': ch}))
        if ch is None and any(k is None for r, k in rs):
            sx.check(not o.ok and isinstance(o.exc, ChangeTypeError), 'an entry without change type is refused')
            sx.reach('refused')
            return
        sx.check(o.ok, 'entries with change type are accepted')
        got = list(c)
        sx.check(len(got) == n, 'one entry for each')
        for g, (r, k) in zip(got, rs):
            sx.check(sx.and_(g.uri == r.uri, g.length == r.length), 'in order')
            sx.check(g.change == (k if ch is None else ch), 'with the change type')
            sx.check(r.change == k, 'the entries given are not changed')
        sx.reach('changed')
        return
    if form == 'single':
        for r, k in rs:
            o = sx.attempt(c.add, r)
            if k is None:
                sx.check(not o.ok and isinstance(o.exc, ChangeTypeError), 'an entry without change type is refused')
                sx.reach('refused')
            else:
                sx.check(o.ok, 'an entry with change type is accepted')
                want.append(r)
    else:
        if form == 'container':
            src = ChangeList(resources=[r for r, k in rs])
        else:
            src = [r for r, k in rs]
        o = sx.attempt(c.add, src)
        if any(k is None for r, k in rs):
            sx.check(not o.ok and isinstance(o.exc, ChangeTypeError), 'an entry without change type is refused')
            sx.reach('refused')
            return
        sx.check(o.ok, 'entries with change type are accepted')
        want = [r for r, k in rs]
    got = list(c)
    sx.check(len(got) == len(want), 'every entry accepted is in the list')
    for g, w in zip(got, want):
        sx.check(g is w, 'in order')
    sx.reach('accepted')


def p_types(sx):
    """Change types accepted."""
    how = sx.choice('how', ['short', 'case', 'extra', 'valid'])
    base = sx.choice('base', ['created', 'updated', 'deleted'])
    if how == 'short':
        s = sx.str('s', 'cdu -', 0, 3)
    elif how == 'case':
        i = sx.choice('i', list(range(7)))
        s = base[:i] + sx.strn('c', 'CUDREAT_', 1) + base[i + 1:]
    elif how == 'extra':
        s = sx.str('pre', ' s,', 0, 1) + base + sx.str('post', ' s,', 0, 1)
    else:
        s = base
    valid = s == 'created' or s == 'updated' or s == 'deleted'
    via = sx.choice('via', ['new', 'set', 'copy'])
    if via == 'new':
        o = sx.attempt(Resource, 'http://h/a', change=s)
        r = o.value
    elif via == 'copy':
        o = sx.attempt(Resource, resource=Resource('http://h/a', change='updated'), change=s)
        r = o.value
    else:
        r = Resource('http://h/a')
        o = sx.attempt(setattr, r, 'change', s)
        if not o.ok:
            sx.check(r.change is None, 'a type refused is not set')
    if valid:
        sx.check(o.ok and r.change == s, 'a valid change type is set')
        sx.reach('valid')
    else:
        sx.check(not o.ok and isinstance(o.exc, ChangeTypeError), 'an invalid change type is refused')
        sx.reach('invalid')


HARNESSES = [('lists', p_lists, {'expect': ['deleted', 'same', 'updated', 'created']}),
             ('disk', p_disk, {'expect': ['deleted', 'same', 'updated', 'created']}),
             ('empty', p_empty, {'expect': ['empty']}),
             ('accept', p_accept, {'expect': ['refused', 'changed', 'accepted']}),
             ('types', p_types, {'expect': ['valid', 'invalid']})]
