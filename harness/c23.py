from resync.capability_list import CapabilityList
from resync.resource import Resource
from resync.resource_list import ResourceList, ResourceListDupeError, ResourceListOrdered
from resync.resource_set import ResourceSet, ResourceSetDupeError
from resync.source_description import SourceDescription

INFO = {
    'bounds': 'up to 4 additions (5 thorough), one by one or as a collection, of entries with symbolic URIs of 1-2 characters (upper and lower '
              'case, slash, punctuation), any with replacement; all kinds of capabilities including unknown ones and none',
    'outside': 'order among entries of different unknown capabilities',
}
ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
         'changelist-archive', 'changedump-archive']


def make(kind):
    if kind == 'ordered':
        return ResourceList(resources_class=ResourceListOrdered)
    return {'resourcelist': ResourceList, 'capabilities': CapabilityList, 'description': SourceDescription,
            'set': ResourceSet}[kind]()


def build(sx, kind, n, uri, cap):
    """(container, model): model is a list of the entries held, in order of addition."""
    c = make(kind)
    model = []
    together = kind != 'set' and sx.flag('together')
    rs = [Resource(uri(i), length=i, capability=cap(i)) for i in range(n)]
    replace = [sx.flag('replace%d' % i) for i in range(1 if together else n)]

    def put(r, rep):
        """True if accepted."""
        for j, m in enumerate(model):
            if m.uri == r.uri:
                if not rep:
                    return False
                model[j] = r
                return True
        model.append(r)
        return True
    if together:
        o = sx.attempt(c.add, rs, replace=True) if replace[0] else sx.attempt(c.add, rs)
        fine = True
        for r in rs:
            if not put(r, replace[0]):
                fine = False
                break
        verdict(sx, o, fine)
    else:
        for r, rep in zip(rs, replace):
            o = sx.attempt(c.add, r, replace=True) if rep else sx.attempt(c.add, r)
            verdict(sx, o, put(r, rep))
    return c, model


def verdict(sx, o, fine):
    if fine:
        sx.check(o.ok, 'an entry with a new URI, or with replacement, is accepted')
    else:
        sx.check(not o.ok and isinstance(o.exc, (ResourceListDupeError, ResourceSetDupeError)), 'a second entry for a URI is refused')
        sx.reach('refused')


def same_entries(sx, got, want, msg):
    sx.check(len(got) == len(want), 'every entry once')
    for g, w in zip(got, want):
        sx.check(g is w, msg)


def by_uri(rs):
    out = []
    for r in rs:
        i = len(out)
        while i > 0 and r.uri < out[i - 1].uri:
            i -= 1
        out.insert(i, r)
    return out


def p_sets(sx):
    kind = sx.choice('kind', ['resourcelist', 'ordered', 'description', 'set'])
    n = sx.choice('n', [1, 2, 3, 4] if sx.thorough else [1, 2, 3])
    alpha = 'aB/'if n > 2 else 'aBb/!'
    c, model = build(sx, kind, n, lambda i: 'http://h/' + sx.str('u%d' % i, alpha, 1, 2 if i < 2 else 1), lambda i: None)
    want = model if kind == 'ordered' else by_uri(model)
    got = list(c)
    same_entries(sx, got, want, 'in the order specified')
    same_entries(sx, list(c), want, 'in the order specified again')
    sx.check(len(c) == len(want), 'the size is the number of entries')
    if kind in ('resourcelist', 'ordered'):
        us = list(c.resources.uris())
        sx.check(len(us) == len(want), 'every URI once')
        for u, w in zip(us, want):
            sx.check(u == w.uri, 'the URIs are in the order of the entries')
    for w in want:
        sx.check(c[w.uri] is w, 'an entry is found by its URI')
    # two iterations at once
    a = iter(c)
    b = iter(c)
    pairs = [(next(a), next(b)) for _ in want]
    for (x, y), w in zip(pairs, want):
        sx.check(x is w and y is w, 'iterations do not disturb each other')
    sx.reach(kind)
    sx.observe('uris', [r.uri for r in got])


def p_caps(sx):
    n = sx.choice('n', [1, 2, 3, 4] if sx.thorough else [1, 2, 3])
    few = ['resourcelist', 'changelist', 'odd', None]
    caps = []

    def cap(i):
        v = sx.choice('cap%d' % i, (ORDER + ['odd', None]) if i < 2 and n < 3 else few)
        caps.append(v)
        return v
    c, model = build(sx, 'capabilities', n, lambda i: 'http://h/' + sx.strn('u%d' % i, 'abc', 1), cap)
    got = list(c)
    known = [r for k in ORDER for r in by_uri([m for m in model if m.capability == k])]
    unknown = [m for m in model if m.capability not in ORDER]
    sx.check(len(got) == len(model), 'every entry once')
    same_entries(sx, got[:len(known)], known, 'in order of capabilities, then URIs')
    for u in unknown:
        k = 0
        for g in got[len(known):]:
            if g is u:
                k += 1
        sx.check(k == 1, 'unknown capabilities last')
    tail = got[len(known):]
    for v in ('odd', None):
        same_entries(sx, [g for g in tail if g.capability == v], by_uri([m for m in unknown if m.capability == v]),
                     'entries of an unknown capability in order of URIs')
    for name in ORDER[:3] + ['odd', 'other']:
        info = c.capability_info(name)
        fit = [m for m in model if m.capability == name]
        if fit:
            sx.check(info is not None and any(info is m for m in fit), 'looking up a capability gives its entry')
            sx.reach('found')
        else:
            sx.check(info is None, 'looking up a capability not declared gives nothing')
            sx.reach('not found')
        sx.check(c.has_capability(name) == (len(fit) > 0), 'a capability is there if declared')
    if unknown and known:
        sx.reach('unknown')
    sx.observe('order', [[r.uri, r.capability] for r in got[:len(known)]])


def p_add(sx):
    """Additions by the special functions."""
    kind = sx.choice('kind', ['capabilities', 'description'])
    c = make(kind)
    n = 3
    model = []
    for i in range(n):
        u = 'http://h/' + sx.strn('u%d' % i, 'ba', 1)
        if kind == 'capabilities':
            name = sx.choice('name%d' % i, ['changelist', 'resourcelist'])
            if name == 'resourcelist' and sx.flag('object%d' % i):
                o = sx.attempt(c.add_capability, ResourceList(uri=u))
            else:
                o = sx.attempt(c.add_capability, uri=u, name=name)
        else:
            name = 'capabilitylist'
            if sx.flag('object%d' % i):
                cl = CapabilityList(uri=u)
                o = sx.attempt(c.add_capability_list, cl)
            else:
                o = sx.attempt(c.add_capability_list, u)
        held = False
        for m in model:
            if m[0] == u:
                held = True
        verdict(sx, o, not held)
        if not held:
            model.append((u, name))
    got = list(c)
    sx.check(len(got) == len(model), 'every entry once')
    for u, name in model:
        k = 0
        for g in got:
            if g.uri == u:
                k += 1
                sx.check(g.capability == name, 'with its capability')
        sx.check(k == 1, 'one entry for a URI')
    for a, b in zip(got, got[1:]):
        if a.capability == b.capability:
            sx.check(a.uri < b.uri, 'in order of URIs')
        else:
            sx.check(a.capability == 'resourcelist', 'in order of capabilities')
    sx.reach('added')


HARNESSES = [('sets', p_sets, {'expect': ['refused', 'resourcelist', 'ordered', 'description', 'set']}),
             ('caps', p_caps, {'expect': ['refused', 'found', 'not found', 'unknown']}),
             ('add', p_add, {'expect': ['refused', 'added']})]
