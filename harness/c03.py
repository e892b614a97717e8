from .lib import BASE, ROOT, LIST, Web, entry, when
from .syncs import CHANGES, KINDS, STATE, changelist, change, client, local, resourcelist, served, store, stored

INFO = {
    'bounds': 'two (quick) or three (thorough) listed resources or changes (any change type, repeated URIs), in the top directory, '
              'an existing and a missing sub-directory; destination files present or not with symbolic times and sizes; an extra '
              'destination file; deletion allowed or not; stored time present or not; hash comparison on or off',
    'outside': 'longer lists; the destination is never consulted for anything but presence, size, time and content',
    'assumptions': ['every change of the file system goes through a modelled call (all calls of the os, shutil, distutils and '
                    'builtin file functions are intercepted; an unmodelled one stops the check)'],
}
NAMES = ['a', 'x/b', 'y/z/c']


def unchanged(sx, before, had, what):
    env = sx.env
    sx.check(len(env.effects) == 0, what + ' makes no call that changes a file or directory')
    after = env.tree('d')
    sx.check(sorted(before) == sorted(after), what + ' leaves the same files and directories')
    for p in before:
        sx.check(before[p][0] == after[p][0], what + ' leaves the kind of each')
        if before[p][0] == 'file':
            sx.check(sx.and_(before[p][1] == after[p][1], before[p][2] == after[p][2]),
                     what + ' leaves content and time of each file')
    sx.check(env.kind(STATE) == ('file' if had else None), what + ' neither makes nor removes stored state')
    sx.check(stored() == (BASE + 3.5 if had else None), what + ' leaves the stored time')


def setup(sx, names):
    env = sx.env
    env.mkdir('d')
    env.mkdir('d/x')
    n = 0
    for i, nm in enumerate(names):
        if sx.flag('d%d' % i):
            local(sx, 'd%d' % i, 'd/' + nm)
    if sx.flag('extra'):
        env.mkfile('d/q', 'kept', BASE)
    had = sx.flag('stored')
    if had:
        store(sx, '1577836803.5')
    return had


def p_lists(sx):
    env = sx.env
    names = NAMES[:3 if sx.thorough else 2]
    had = setup(sx, names)
    table, es = {}, []
    for i, nm in enumerate(names):
        if i > 0 and not sx.flag('s%d' % i):
            continue
        uri = ROOT + '/' + nm
        text, ts = when(sx, 's%d.ts' % i)
        c = served(sx, 's%d' % i)
        es.append(entry(sx, uri, lastmod=text, length='%d' % sx.int('s%d.len' % i, 1, 2)))
        table[uri] = c
    table[LIST] = resourcelist(sx, es)
    env.handler = Web(sx, table)
    before = env.tree('d')
    mode = sx.choice('mode', ['audit', 'dryrun', 'both'])
    c = client(hashes=['md5'] if sx.flag('hash') else [])
    c.dryrun = mode != 'audit'
    o = sx.attempt(c.baseline_or_audit, allow_deletion=sx.flag('delete'), audit_only=mode != 'dryrun')
    sx.check(o.ok, 'no error')
    if mode == 'dryrun' and any(env.kind('d/' + nm) is None for nm in names if ROOT + '/' + nm in table):
        sx.reach('get')
    if mode == 'dryrun' and any(env.kind('d/' + nm) for nm in names if ROOT + '/' + nm not in table):
        sx.reach('delete')
    unchanged(sx, before, had, 'an audit' if mode != 'dryrun' else 'a dry run')
    sx.reach(mode)


def p_changes(sx):
    env = sx.env
    names = NAMES[:3 if sx.thorough else 2]
    had = setup(sx, names)
    table, es = {}, []
    for i in range(len(names)):
        nm = names[i] if i == 0 else sx.choice('u%d' % i, names)
        uri = ROOT + '/' + nm
        text, ts = when(sx, 'c%d.ts' % i)
        es.append(change(sx, uri, sx.choice('c%d' % i, KINDS), lastmod=None if i == 0 and sx.flag('no lastmod') else text, at=text))
        table[uri] = 'new'
    table[CHANGES] = changelist(sx, es)
    env.handler = Web(sx, table)
    before = env.tree('d')
    c = client(dryrun=True)
    start = sx.flag('from')
    o = sx.attempt(c.incremental, allow_deletion=sx.flag('delete'), change_list_uri=CHANGES,
                   from_datetime='2020-01-01T00:00:04Z' if start else None)
    sx.check(o.ok == (start or had), 'an error only without start time')
    unchanged(sx, before, had, 'a dry run')
    sx.reach('done' if o.ok else 'refused')


HARNESSES = [
    ('lists', p_lists, {'expect': ['audit', 'dryrun', 'both', 'get', 'delete']}),
    ('changes', p_changes, {'expect': ['done', 'refused']}),
]
