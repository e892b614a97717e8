from .lib import BASE, ROOT, LIST, Web, entry, spec_match, status, when
from .syncs import CHANGES, KINDS, changelist, change, client, local, resourcelist, served, store
from resync.resource import Resource

INFO = {
    'bounds': 'audit, baseline and incremental sync over up to three resources, each at the source only, at the destination only, '
              'on both sides with symbolic times and sizes or (incremental) created, updated, deleted or not mentioned, with or '
              'without a local copy; deletion allowed or not; dry run or not; downloads of one resource failing, failures ignored; '
              'one or all of the files to be removed that cannot be',
    'outside': 'the wording of the messages other than the status word and the names of the counts; the status word of a sync in '
               'which downloads failed or of a dry run; several changes of a resource (C04)',
    'assumptions': [],
}
NAMES = ['a', 'x/b', 'c']


def parse(sx, line):
    """Status word and counts of a status line."""
    t = line.split('Status:', 1)[1]
    word, rest = t.split('(', 1)
    counts = {}
    for f in rest.rsplit(')', 1)[0].split(','):
        k, v = f.rsplit('=', 1)
        k = k.strip()
        for name in ('same', 'creat', 'updat', 'delet'):
            if name in k:
                counts[name] = int(v)
    return word.strip(), counts


def total(xs):
    n = 0
    for x in xs:
        n = n + x
    return n


def hold(sx, paths):
    """One or more of the files cannot be removed."""
    k = sx.choice('held', list(range(len(paths) + 1)))
    held = paths if k == len(paths) else [paths[k]]
    sx.env.fault_fn = lambda op, path, mode: PermissionError(13, 'denied') if op == 'unlink' and path in held else None


def p_lists(sx):
    """Audit and baseline sync."""
    env = sx.env
    names = NAMES if sx.thorough else NAMES[:2]
    table, es, same, upd, cre, dele = {}, [], [], [], [], []
    there = {}
    for i, nm in enumerate(names):
        st = sx.choice('p%d' % i, ['source', 'both', 'dest'])
        uri = ROOT + '/' + nm
        if st != 'source':
            g = local(sx, 'f%d' % i, 'd/' + nm)
        if st == 'dest':
            dele.append(nm)
            continue
        text, ts = when(sx, 'f%d.ts' % i)
        f = served(sx, 'f%d' % i)
        es.append(entry(sx, uri, lastmod=text, length='%d' % env.size(f)))
        table[uri] = f
        if st == 'source':
            cre.append(nm)
        else:
            m = spec_match(sx, Resource(uri=uri, timestamp=g['mtime'], length=g['size']),
                           Resource(uri=uri, timestamp=ts, length=env.size(f)))
            same.append(sx.ite(m, 1, 0))
            upd.append((nm, sx.ite(m, 0, 1)))
    es.append(entry(sx, ROOT + '/k', lastmod='2020-01-01T00:00:01Z', length='1'))
    table[ROOT + '/k'] = b'k'
    env.mkfile('d/k', b'k', BASE + 1)
    same.append(1)
    allow, mode = sx.flag('delete'), sx.choice('mode', ['audit', 'sync', 'dryrun', 'fails', 'held'])
    bad = None
    if mode == 'held':
        sx.assume(allow and len(dele) > 0)
        hold(sx, ['d/' + n for n in dele])
    if mode == 'fails':
        sx.assume(len(names) > len(dele))
        bad = sx.choice('bad', [n for n in names if n not in dele])
        table[ROOT + '/' + bad] = [sx.Response(b'', status=404, fail=OSError(5, 'error'))]
    table[LIST] = resourcelist(sx, es)
    env.handler = Web(sx, table)
    env.keep_log = True
    c = client(dryrun=mode == 'dryrun', ignore_failures=mode == 'fails')
    o = sx.attempt(c.baseline_or_audit, allow_deletion=allow, audit_only=mode == 'audit')
    sx.check(o.ok, 'no error is reported')
    st = status(env)
    word, n = parse(sx, st[0])
    sx.check(n['same'] == total(same), 'the number of resources that agree is reported')
    sx.check(n['creat'] == len(cre), 'the number of resources missing at the destination is reported')
    nu = total([x for m, x in upd])
    sx.check(n['updat'] == nu, 'the number of resources that differ is reported')
    sx.check(n['delet'] == len(dele), 'the number of resources at the destination only is reported')
    none = sx.and_(nu == 0, len(cre) + len(dele) == 0)
    sx.check(none if word == 'IN SYNC' else sx.not_(none), 'in sync is reported exactly if nothing differs')
    sx.check(word in ('IN SYNC', 'NOT IN SYNC'), 'the state found is reported')
    if mode == 'audit' or word == 'IN SYNC':
        sx.check(len(st) == 1, 'one status is reported')
        sx.reach('insync' if word == 'IN SYNC' else 'audit')
        return
    sx.check(len(st) == 2, 'a status is reported after the sync')
    word, n = parse(sx, st[1])
    sx.check(n['same'] == total(same), 'the number of resources that agreed is reported')
    if mode == 'dryrun':
        sx.check(n['creat'] == 0 and n['updat'] == 0, 'a dry run counts nothing as done')
        sx.check(len(dele) == 0 or word == 'PART SYNCED' and n['delet'] == len(dele), 'a dry run counts nothing as deleted')
        sx.reach('dryrun')
        return
    sx.check(n['creat'] == len([x for x in cre if x != bad]), 'the number of resources created is reported')
    sx.check(n['updat'] == total([x for m, x in upd if m != bad]), 'the number of resources updated is reported')
    sx.check(n['delet'] == len(dele), 'the number of resources deleted, or left to be deleted, is reported')
    if mode == 'held' or len(dele) > 0 and not allow:
        sx.check(word == 'PART SYNCED', 'deletions not carried out are reported')
        if mode == 'held':
            sx.reach('held')
        sx.reach('part')
    elif mode == 'sync':
        sx.check(word == 'SYNCED', 'a complete sync is reported')
        sx.reach('synced')
    else:
        sx.reach('failed')


def p_changes(sx):
    """Incremental sync."""
    env = sx.env
    store(sx, '1577836800.0')
    table, es, facts = {}, [], []
    for i, nm in enumerate(NAMES):
        ch = sx.choice('c%d' % i, [None] + KINDS)
        if ch is None:
            continue
        uri = ROOT + '/' + nm
        here = sx.flag('here%d' % i) if ch == 'created' or i == 0 and ch == 'updated' or sx.thorough and ch == 'updated' else True
        if here:
            env.mkfile('d/' + nm, b'o', BASE - 5)
        before = sx.flag('c%d.before' % i) if i == 0 or sx.thorough else False
        es.append(change(sx, uri, ch, at='2019-12-31T00:00:00Z' if before else '2020-01-01T00:00:0%dZ' % (i + 1)))
        table[uri] = served(sx, 's%d' % i)
        if not before:
            facts.append((nm, ch))
    allow, mode = sx.flag('delete'), sx.choice('mode', ['sync', 'dryrun', 'fails', 'held'])
    fetched = [nm for nm, ch in facts if ch != 'deleted']
    bad = None
    if mode == 'held':
        gone = ['d/' + nm for nm, ch in facts if ch == 'deleted']
        sx.assume(allow and len(gone) > 0)
        hold(sx, gone)
    if mode == 'fails':
        sx.assume(len(fetched) > 0)
        bad = sx.choice('bad', fetched)
        table[ROOT + '/' + bad] = [sx.Response(b'', status=404, fail=OSError(5, 'error'))]
    table[CHANGES] = changelist(sx, es)
    w = env.handler = Web(sx, table)
    env.keep_log = True
    c = client(dryrun=mode == 'dryrun', ignore_failures=mode == 'fails')
    o = sx.attempt(c.incremental, allow_deletion=allow, change_list_uri=CHANGES)
    sx.check(o.ok, 'no error is reported')
    lists = {k: [nm for nm, ch in facts if ch == k] for k in KINDS}
    st = status(env)
    word, n = parse(sx, st[0])
    sx.check(n['creat'] == len(lists['created']) and n['updat'] == len(lists['updated']) and n['delet'] == len(lists['deleted']),
             'the number of changes of each type to be considered is reported')
    sx.check('APPLIED' not in word, 'no change is reported as applied before any is')
    sx.check(('NO CHANGES' in word) == (len(facts) == 0), 'no changes are reported exactly if there are none')
    if len(facts) == 0 or len(fetched) == 0 and not allow:
        sx.check(all(['APPLIED' not in x for x in st]), 'no changes are reported as applied if none are')
        sx.reach('none' if len(facts) == 0 else 'withheld')
        return
    sx.check(len(st) == 2, 'a status is reported after the sync')
    word, n = parse(sx, st[1])
    if mode == 'dryrun':
        sx.check(n['creat'] == 0 and n['updat'] == 0, 'a dry run counts nothing as done')
        sx.reach('dryrun')
        return
    for k, key in (('created', 'creat'), ('updated', 'updat')):
        sx.check(n[key] == len([x for x in lists[k] if x != bad]), 'the number of resources created and updated is reported')
    sx.check(n['delet'] == len(lists['deleted']), 'the number of resources deleted, or left to be deleted, is reported')
    sx.check(word != 'NO CHANGES', 'changes that were applied are not reported as none')
    if mode == 'held' or len(lists['deleted']) > 0 and not allow:
        sx.check(word == 'PART APPLIED', 'deletions not carried out are reported')
        if mode == 'held':
            sx.reach('held')
        sx.reach('part')
    elif mode == 'sync':
        sx.check(word == 'CHANGES APPLIED', 'a complete sync is reported')
        sx.reach('applied')
    else:
        sx.reach('failed')


HARNESSES = [('lists', p_lists, {'expect': ['insync', 'audit', 'dryrun', 'part', 'synced', 'failed', 'held']}),
             ('changes', p_changes, {'expect': ['none', 'withheld', 'dryrun', 'part', 'applied', 'failed', 'held']})]
