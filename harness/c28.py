from resync.resource import Resource
from resync.resource_container import ResourceContainer
from resync.resource_list import ResourceList
from resync.change_list import ChangeList
from resync.capability_list import CapabilityList
from resync.source_description import SourceDescription

INFO = {
    'bounds': 'resources and five classes of lists; up to two initial links (one possibly without a relation) with symbolic relations '
              'of one letter; three (quick) or four (thorough) operations among link_set, link_add and the up, describedby, index and '
              'contents accessors with symbolic relations, targets and attribute values; then lookups of any relation',
    'outside': 'initial links without a target; several initial links of one relation after setting it (the first is replaced)',
}


class Model:
    """The links as a list of [rel, href, {att: value}] kept by the specification."""

    def __init__(self):
        self.ln = []

    def first(self, rel):
        for l in self.ln:
            if l[0] is not None and l[0] == rel:
                return l
        return None

    def set(self, rel, href, atts):
        l = self.first(rel)
        if l is None:
            self.add(rel, href, atts)
        else:
            l[1] = href
            l[2].update(atts)

    def add(self, rel, href, atts):
        self.ln.append([rel, href, dict(atts)])


def same(sx, obj, m, what):
    ln = obj.ln or []
    sx.check(len(ln) == len(m.ln), what + ': as many links as expected')
    for d, (rel, href, atts) in zip(ln, m.ln):
        n = len(atts) + (href is not None) + (rel is not None)
        sx.check(len(d) == n, what + ': the links have no other attributes')
        sx.check(d.get('href') == href, what + ': each link has its target')
        if rel is None:
            sx.check('rel' not in d, what + ': the link without relation stays so')
        else:
            sx.check(d.get('rel') == rel, what + ': each link has its relation')
        for k in atts:
            sx.check(d.get(k) == atts[k], what + ': each link has its attributes')


def lookups(sx, obj, m, rel):
    want = m.first(rel)
    got = obj.link(rel)
    if want is None:
        sx.check(got is None and obj.link_href(rel) is None, 'nothing is found for a relation that is not there')
    else:
        sx.check(got is not None, 'the relation is found')
        sx.check(sx.and_(got['rel'] == rel, got['href'] == want[1], obj.link_href(rel) == want[1]), 'the first link of the relation is found')
        for k in want[2]:
            sx.check(got[k] == want[2][k], 'with its attributes')


CLASSES = {'resource': Resource, 'container': ResourceContainer, 'resourcelist': ResourceList, 'changelist': ChangeList,
           'capabilitylist': CapabilityList, 'description': SourceDescription}


def make(sx, kind, ln):
    if kind == 'resource':
        return Resource(uri='http://h/r', ln=ln)
    return CLASSES[kind](ln=ln)


def p_ops(sx):
    kind = sx.choice('kind', list(CLASSES) if sx.thorough else ['resource', 'container', 'changelist'])
    m = Model()
    ln = None
    k = sx.choice('initial', [None, 0, 1, 2])
    if k is not None:
        ln = []
        for i in range(k):
            rel = sx.strn('r%d' % i, 'abu', 1)
            href = sx.strn('h%d' % i, 'xy', 1)
            if i == 1 and sx.flag('norel'):
                ln.append({'href': href})
                m.ln.append([None, href, {}])
            else:
                ln.append({'rel': rel, 'href': href, 'type': 't'})
                m.add(rel, href, {'type': 't'})
    obj = make(sx, kind, ln)
    if ln is not None:
        same(sx, obj, m, 'on creation')
    ops = ['set', 'setatt'] + (['add'] if kind == 'resource' else [])
    acc = ['up'] if not sx.thorough else ['up', 'describedby', 'index'] + (['contents'] if kind == 'resource' else [])
    for i in range(4 if sx.thorough and not k else 2 if k == 2 and not sx.thorough else 3):
        op = sx.choice('op%d' % i, ops + acc)
        href = sx.strn('href%d' % i, 'xy', 1)
        if op in acc:
            setattr(obj, op, href)
            m.set(op, href, {'type': 'application/xml'} if op == 'contents' else {})
            sx.check(getattr(obj, op) == href, 'the accessor gives the new target')
            continue
        rel = sx.strn('rel%d' % i, 'ab', 1)
        atts = {}
        if op == 'setatt' or op == 'add':
            atts = {'type': sx.strn('type%d' % i, 'pq', 1)}
            if op == 'setatt':
                atts['pri'] = i
        if op == 'add':
            obj.link_add(rel, href, **atts)
            m.add(rel, href, atts)
            sx.reach('add')
        else:
            obj.link_set(rel, href, **atts)
            m.set(rel, href, atts)
            sx.check(obj.link_href(rel) == href, 'looking the relation up gives the new target')
            sx.reach('set')
        same(sx, obj, m, 'after each operation')
    same(sx, obj, m, 'in the end')
    lookups(sx, obj, m, sx.strn('query', 'abu', 1))
    for a in ('up', 'describedby', 'index'):
        sx.check(getattr(obj, a) == (m.first(a)[1] if m.first(a) else None), 'the accessors give the targets of their relations')
    sx.reach(kind)


def p_names(sx):
    """Accessors and exact relation names; objects do not share links."""
    kind = sx.choice('kind', list(CLASSES))
    names = ['up', 'describedby', 'index'] + (['contents'] if kind == 'resource' else [])
    obj, other = make(sx, kind, None), make(sx, kind, None)
    m = Model()
    for i in range(2):
        if sx.flag('acc%d' % i):
            rel = sx.choice('a%d' % i, names)
            href = sx.strn('h%d' % i, 'xy', 1)
            setattr(obj, rel, href)
            m.set(rel, href, {'type': 'application/xml'} if rel == 'contents' else {})
        else:
            rel = sx.choice('near%d' % i, ['u', 'Up', 'upp', 'indexes', 'describedBy', '']) + sx.str('s%d' % i, 'p x', 0, 1)
            href = sx.strn('h%d' % i, 'xy', 1)
            obj.link_set(rel, href)
            m.set(rel, href, {})
    same(sx, obj, m, 'in the end')
    for a in names:
        w = m.first(a)
        sx.check(getattr(obj, a) == (w[1] if w else None), 'the accessors give the targets of their relations')
        sx.check(getattr(other, a) is None, 'other objects have no such link')
    sx.check(len(other.ln or []) == 0, 'other objects keep having no links')
    lookups(sx, obj, m, sx.str('query', 'up x', 0, 2))
    sx.reach(kind)


HARNESSES = [('ops', p_ops, {'expect': ['add', 'set', 'resource', 'container', 'changelist']}),
             ('names', p_names, {'expect': list(CLASSES)})]
