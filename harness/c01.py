from resync.resource_list import ResourceList, ResourceListDict, ResourceListOrdered
from .lib import ASCII, meta_of, same_meta, spec_match, sym_resource

INFO = {
    'bounds': 'lists of up to 3+3 (quick) or 4+3 (thorough) entries with symbolic URIs of 1-2 printable characters; '
              'timestamps multiples of 1/4 s in [5,7], lengths 0-2, one-character hashes, each present or absent; both '
              'storage classes',
    'outside': 'longer lists and URIs; more metadata values than the comparison can distinguish',
}


EXTRA = ('ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until', 'mime_type', 'change', 'path', 'capability', 'ln')
CHANGES = ['updated', None, 'deleted', 'created']


def dress(sx, r, n, k):
    """Give r every attribute that the comparison has nothing to do with."""
    t = sx.int(n + '.other', 0, 9)
    r.ts_datetime, r.ts_at, r.ts_completed, r.ts_from, r.ts_until = t, t + 1, t + 2, t + 3, t + 4
    r.mime_type = sx.strn(n + '.mime', ASCII, 1)
    r.path = sx.strn(n + '.path', ASCII, 1)
    r.capability = sx.strn(n + '.cap', ASCII, 1)
    r.change = CHANGES[k % 4]
    r.ln = [{'rel': 'up', 'href': sx.strn(n + '.href', ASCII, 1), 'pri': k}] if k != 2 else []
    return r


def full(r):
    """A copy of every attribute."""
    d = {a: getattr(r, a) for a in EXTRA}
    d['ln'] = [dict(x) for x in r.ln] if r.ln else r.ln
    return meta_of(r), d


def same_full(sx, a, b):
    return sx.and_(same_meta(sx, a[0], b[0]), *[a[1][k] is b[1][k] if a[1][k] is None or b[1][k] is None else sx.eq(a[1][k], b[1][k])
                                                for k in EXTRA])


def build(sx, n, count, fields, alphabet, lo, hi, cls):
    rs = []
    for i in range(count):
        u = 'http://e/' + sx.str('%s%d.uri' % (n, i), alphabet, lo, hi)
        for o in rs:
            sx.assume(u != o.uri)
        rs.append(dress(sx, sym_resource(sx, '%s%d' % (n, i), u, fields), '%s%d' % (n, i), i + (n == 's')))
    rl = ResourceList(resources_class=cls)
    for r in rs:
        rl.add(r)
    return rl, rs


def run(sx, nd, ns, fields, alphabet, lo, hi, classes=3):
    cls = sx.choice('classes', [(ResourceListDict, ResourceListDict), (ResourceListOrdered, ResourceListDict),
                                (ResourceListDict, ResourceListOrdered)][:classes])
    dst, ds = build(sx, 'd', nd, fields, alphabet, lo, hi, cls[0])
    src, ss = build(sx, 's', ns, fields, alphabet, lo, hi, cls[1])
    dm, sm = [full(r) for r in ds], [full(r) for r in ss]
    was = dict([(id(r), f) for r, f in zip(ds + ss, dm + sm)])
    same, updated, deleted, created = dst.compare(src)
    exp = {'same': [], 'updated': [], 'deleted': [], 'created': []}
    for d in ds:
        s = None
        for x in ss:
            if x.uri == d.uri:
                s = x
        if s is None:
            exp['deleted'].append((True, d, None))
        else:
            exp['same'].append((spec_match(sx, d, s), d, s))
    for s in ss:
        if not any(d.uri == s.uri for d in ds):
            exp['created'].append((True, s, None))
    got = {'same': list(same), 'updated': list(updated), 'deleted': list(deleted), 'created': list(created)}

    def find(lst, uri):
        return [r for r in lst if r.uri == uri]
    total = 0
    for kind in got:
        total += len(got[kind])
    sx.check(total == len(exp['same']) + len(exp['deleted']) + len(exp['created']),
             'every URI is in exactly one of the results')
    for kind in ('deleted', 'created'):
        for c, r, o in exp[kind]:
            f = find(got[kind], r.uri)
            sx.check(len(f) == 1, 'a URI on one side only is %s' % kind)
            sx.check(same_full(sx, full(f[0]), was[id(r)]), '%s entry carries the metadata of its side' % kind)
            sx.reach(kind)
    for c, d, s in exp['same']:
        f, g = find(got['same'], d.uri), find(got['updated'], d.uri)
        sx.check(len(f) + len(g) == 1, 'a URI on both sides is same or updated')
        if f:
            sx.check(c, 'same implies matching metadata')
            sx.check(same_full(sx, full(f[0]), was[id(d)]), 'same entry is the one of the destination')
            sx.reach('same')
        else:
            sx.check(sx.not_(c), 'updated implies conflicting metadata')
            sx.check(same_full(sx, full(g[0]), was[id(s)]), 'updated entry carries the metadata of the source')
            sx.reach('updated')
    # inputs unaltered
    sx.check(len(list(dst)) == nd and len(list(src)) == ns, 'input lists keep their entries')
    for r, m in list(zip(ds, dm)) + list(zip(ss, sm)):
        sx.check(same_full(sx, full(r), m), 'input entries keep their metadata')
    for lst, rs in ((dst, ds), (src, ss)):
        for r in rs:
            sx.check(len(find(list(lst), r.uri)) == 1, 'input list still holds each entry')
    sx.observe('kinds', {k: [r.uri for r in v] for k, v in got.items()})


def p_order(sx):
    top = 4 if sx.thorough else 3
    nd = sx.choice('nd', list(range(0, top + 1)))
    ns = sx.choice('ns', list(range(0, 4)))
    if nd + ns > 5 and not sx.thorough:
        sx.assume(False)
    run(sx, nd, ns, ['length!'], ASCII + '\xe9', 1, 1)


def p_prefix(sx):
    run(sx, 2, 2 if sx.thorough else 1, ['timestamp!'], ASCII, 1, 2)


def p_meta(sx):
    run(sx, 1, 1, ['timestamp', 'length', 'md5', 'sha1', 'sha256'], 'ab', 1, 1, 1)


HARNESSES = [
    ('order', p_order, {'expect': ['same', 'updated', 'deleted', 'created']}),
    ('prefix', p_prefix, {'expect': ['same', 'updated', 'deleted', 'created']}),
    ('meta', p_meta, {'expect': ['same', 'updated']}),
]
