import socket

from .lib import BASE, ROOT, LIST, Web, entry, spec_match, when
from .syncs import CHANGES, KINDS, changelist, change, client, local, resourcelist, served, store
from resync.resource import Resource

INFO = {
    'bounds': 'baseline and incremental sync over two (quick) or three resources (URIs with one symbolic character), each to be '
              'created, updated (decided by symbolic times and sizes, whatever change type the list gives), deleted or left alone, with or without a local copy; deletion '
              'allowed or not; dry run or not; one download failing, failures ignored or not, or working after 1 or 2 time-outs; a local file that cannot be removed',
    'outside': 'the layout of the record other than that it is one line starting "Event: " with the change type and the URI quoted in it',
    'assumptions': [],
}


def events(sx, since=0):
    """[(text)] of the events recorded."""
    return [t for (l, t) in sx.env.log[since:] if t is not None and t.startswith('Event: ')]


def verify(sx, expected):
    """expected: [(uri, change)] in any order."""
    got = events(sx)
    sx.check(len(got) == len(expected), 'one event is recorded for every action taken and none otherwise')
    for uri, ch in expected:
        sx.check(len([t for t in got if repr(uri) in t and repr(ch) in t]) == 1,
                 'the event has the URI and the type of change')


def uris(sx, k):
    """k names; the first with a symbolic character."""
    return ['a' + sx.strn('name', 'pqrs09-_~', 1), 'x/b', 'c'][:k]


def p_lists(sx):
    env = sx.env
    names = uris(sx, 3 if sx.thorough else 2)
    table, es, todo = {}, [], []
    for i, nm in enumerate(names):
        st = sx.choice('p%d' % i, ['source', 'both', 'dest'])
        uri = ROOT + '/' + nm
        if st != 'source':
            g = local(sx, 'f%d' % i, 'd/' + nm)
        if st == 'dest':
            todo.append((uri, 'deleted', nm))
            continue
        text, ts = when(sx, 'f%d.ts' % i)
        f = served(sx, 'f%d' % i)
        es.append(entry(sx, uri, lastmod=text, length='%d' % env.size(f), change=sx.choice('ch', [None] + KINDS) if i == 0 else None))
        table[uri] = f
        if st == 'source':
            todo.append((uri, 'created', nm))
        elif not spec_match(sx, Resource(uri=uri, timestamp=g['mtime'], length=g['size']),
                            Resource(uri=uri, timestamp=ts, length=env.size(f))):
            todo.append((uri, 'updated', nm))
    es.append(entry(sx, ROOT + '/k', lastmod='2020-01-01T00:00:01Z', length='1'))
    env.mkfile('d/k', b'k', BASE + 1)
    run(sx, table, es, todo, LIST, resourcelist, lambda c, allow: sx.attempt(c.baseline_or_audit, allow_deletion=allow))


def p_changes(sx):
    env = sx.env
    store(sx, '1577836800.0')
    names = uris(sx, 3 if sx.thorough else 2)
    table, es, todo = {}, [], []
    for i, nm in enumerate(names):
        ch = sx.choice('c%d' % i, [None] + KINDS)
        if ch is None:
            continue
        uri = ROOT + '/' + nm
        here = sx.flag('here%d' % i)
        if here:
            env.mkfile('d/' + nm, b'o', BASE - 5)
        es.append(change(sx, uri, ch, at='2020-01-01T00:00:0%dZ' % sx.int('at%d' % i, 1, 9)))
        table[uri] = served(sx, 's%d' % i)
        todo.append((uri, ch, nm if here or ch != 'deleted' else None))
    run(sx, table, es, todo, CHANGES, changelist,
        lambda c, allow: sx.attempt(c.incremental, allow_deletion=allow, change_list_uri=CHANGES))


def run(sx, table, es, todo, where, document, call):
    env = sx.env
    allow, mode = sx.flag('delete'), sx.choice('mode', ['sync', 'dryrun', 'fails', 'stops', 'held', 'slow'])
    done = [(u, ch) for u, ch, nm in todo if nm is not None and (ch != 'deleted' or allow)]
    bad = None
    if mode in ('fails', 'stops'):
        cs = [u for u, ch in done if ch != 'deleted']
        sx.assume(len(cs) > 0)
        bad = sx.choice('bad', list(range(len(cs))))
        bad = cs[bad]
        table[bad] = OSError('HTTP Error 404: Not Found')
    if mode == 'slow':
        cs = [u for u, ch in done if ch != 'deleted']
        sx.assume(len(cs) > 0)
        u = cs[sx.choice('bad', list(range(len(cs))))]
        k = sx.choice('attempts', [1, 2])
        table[u] = [socket.timeout('timed out')] * k + [sx.Response(table[u])]
    if mode == 'held':
        cs = [(u, nm) for u, ch, nm in todo if ch == 'deleted' and allow and nm is not None]
        sx.assume(len(cs) > 0)
        bad, nm = cs[sx.choice('bad', list(range(len(cs))))]
        env.rm('d/' + nm)
        env.mkdir('d/' + nm)      # cannot be unlinked
        if where == LIST:
            # a directory is not a file to be deleted
            done = [x for x in done if x[0] != bad]
    table[where] = document(sx, es)
    env.handler = Web(sx, table)
    env.keep_log = True
    c = client(tries=3, dryrun=mode == 'dryrun', ignore_failures=mode == 'fails')
    o = call(c, allow)
    if mode == 'stops':
        sx.check(o.kind == 'ClientFatalError', 'a failure not ignored ends the sync')
        got = events(sx)
        fetched = [u for u in env.handler.fetched if u not in (where, bad)]
        fetched += [u for u, ch, nm in todo if ch == 'deleted' and nm is not None and env.kind('d/' + nm) is None]
        sx.check(len(got) == len(fetched), 'one event is recorded for every action taken and none otherwise')
        for u in fetched:
            sx.check(len([t for t in got if repr(u) in t]) == 1, 'the event has the URI and the type of change')
        sx.reach('stops')
        return
    sx.check(o.ok, 'no error is reported')
    if mode == 'dryrun':
        sx.check(len(events(sx)) == 0, 'a dry run records no event')
        sx.reach('dryrun')
        return
    done = [x for x in done if x[0] != bad]
    verify(sx, done)
    for u, ch in done:
        sx.reach(ch)
    sx.reach(mode if len(done) else 'none')


EXPECT = ['slow', 'created', 'updated', 'deleted', 'sync', 'fails', 'stops', 'dryrun', 'none', 'held']
HARNESSES = [('lists', p_lists, {'expect': EXPECT}), ('changes', p_changes, {'expect': EXPECT})]
