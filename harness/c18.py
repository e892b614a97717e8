import http.client
import socket
from urllib.error import URLError

from .lib import BASE, ROOT, LIST, Web, entry, status, when
from .syncs import CHANGES, STATE, changelist, change, client, resourcelist, store, stored

INFO = {
    'bounds': 'two resources (thorough: also three tries for both), 1-3 tries configured, every sequence of outcomes per attempt: '
              'success, time-out while connecting, before and during reading, I/O error before and during reading, failure to '
              'open or to write the destination file; contents differ per attempt; a file where a directory is needed and the reverse; failures ignored or not; baseline and incremental; '
              'created and updated; listed time absent, whole or fractional',
    'outside': 'exceptions that are not I/O errors; the configured number of '
               'tries above 3 (the loop is the same)',
    'assumptions': ['an attempt fails by an exception from opening or reading the response or from opening or writing the destination file'],
}
TIMEOUTS = ['t-open', 't-conn', 't-read']
ERRORS = ['e-open', 'e-read']


def response(sx, what, content):
    if what == 'ok':
        return sx.Response(content)
    if what == 't-open':
        return socket.timeout('timed out')
    if what == 't-conn':
        return URLError(socket.timeout('timed out'))
    if what == 'e-open':
        return URLError('refused')
    part = sx.env.part_blob(content)
    return sx.Response(content, fail=socket.timeout('timed out') if what == 't-read' else ConnectionResetError(104, 'reset'),
                       partial=part)


def attempts(sx, n, tries, kinds):
    """Outcomes of successive attempts, up to the first final one: (list, tags)."""
    out = []
    for i in range(tries):
        k = sx.choice('%s.%d' % (n, i), kinds)
        out.append(k)
        if k not in TIMEOUTS:
            break
    return out


def run(sx, mode, names, tries, kinds, texts):
    env = sx.env
    ignore = sx.flag('ignore')
    c = client(tries=tries, ignore_failures=ignore)
    table, es, facts = {}, [], []
    for i, nm in enumerate(names):
        f = {'uri': ROOT + '/' + nm, 'path': 'd/' + nm}
        t = texts[i]
        f['text'] = f['ts'] = None
        if t != 'none':
            f['text'], f['ts'] = when(sx, nm + '.ts', 1, 9, '.5' if t == 'frac' else '')
        f['out'] = attempts(sx, nm, tries, kinds[i])
        f['blobs'] = [env.blob(k, sx.int('%s.size%d' % (nm, k), 2, 3)) for k in range(len(f['out']))]
        f['exists'] = i == 0 and sx.flag('exists')
        if f['exists']:
            env.mkfile(f['path'], env.blob(4, 1), BASE - 100)
        md = {}
        if mode == 'incremental':
            es.append(change(sx, f['uri'], 'updated' if f['exists'] else 'created', at='2020-01-01T00:00:09Z', lastmod=f['text']))
        else:
            es.append(entry(sx, f['uri'], lastmod=f['text'], length='1'))
        table[f['uri']] = [response(sx, k, b) for k, b in zip(f['out'], f['blobs'])]
        facts.append(f)
    table[LIST] = resourcelist(sx, es)
    table[CHANGES] = changelist(sx, es)
    w = env.handler = Web(sx, table)
    store(sx, '1577836800.0')
    env.keep_log = True
    if mode == 'incremental':
        o = sx.attempt(c.incremental, change_list_uri=CHANGES)
    else:
        o = sx.attempt(c.baseline_or_audit)
    # expected course, in the order the resources were taken
    order = [w.fetched.index(f['uri']) if f['uri'] in w.fetched else len(w.fetched) for f in facts]
    facts = [facts[i] for i in sorted(range(len(facts)), key=lambda i: order[i])]
    stopped = False
    good = []
    for f in facts:
        got = [u for u in w.fetched if u == f['uri']]
        events = [t for l, t in env.log if t is not None and t.startswith('Event:') and f['uri'] in t]
        if stopped:
            sx.check(len(got) == 0, 'nothing is fetched after the sync has ended with an error')
            sx.check(len(events) == 0, 'nothing is logged after the sync has ended with an error')
            continue
        sx.check(len(got) == len(f['out']), 'time-outs are retried up to the limit, other errors are not')
        if f['out'][-1] == 'ok':
            good.append(f)
            sx.check(env.content(f['path']) == f['blobs'][-1], 'the file holds exactly the content of the last attempt')
            if f['ts'] is not None:
                sx.check(env.mtime(f['path']) == int(f['ts']), 'the file has the listed time in whole seconds')
            sx.check(len(events) == 1, 'a successful download is logged as a change')
            if len(f['out']) > 1:
                sx.reach('retried')
        else:
            sx.check(len(events) == 0, 'a failed download is not logged as a change')
            sx.check(not any(x[0] == 'utime' and x[1] == f['path'] for x in env.effects), 'a failed download gets no time')
            if not ignore:
                stopped = True
            elif len(f['out']) == tries:
                sx.reach('exhausted')
    sx.check(o.ok == (not stopped), 'a failed download ends the sync with an error unless failures are ignored')
    if stopped:
        sx.check(o.kind == 'ClientFatalError', 'the error is reported as a client error')
        sx.check(stored() == BASE + 0.0, 'the stored time is unchanged after an error')
        sx.reach('failed')
        return
    st = status(env)[-1]
    made = len([f for f in good if not f['exists']])
    upd = len([f for f in good if f['exists']])
    sx.check('created=%d,' % made in st and 'updated=%d,' % upd in st, 'exactly the successful downloads are counted')
    if mode == 'baseline':
        want = None
        for f in good:
            if f['ts'] is not None:
                want = f['ts'] if want is None else sx.ite(f['ts'] > want, f['ts'], want)
        got = stored()
        sx.check(got is not None and sx.eq(got, BASE + 0.0 if want is None else want),
                 'only successful downloads advance the remembered time')
    sx.reach('done')
    sx.observe('fetched', list(w.fetched))


def p_tries(sx):
    tries = sx.choice('tries', [1, 2, 3])
    run(sx, sx.choice('mode', ['baseline', 'incremental']), ['a', 'b'], tries,
        [['ok'] + TIMEOUTS + ERRORS, ['ok', 't-open', 'e-read'] if sx.thorough else ['ok']], ['whole', 'frac'])


def p_both(sx):
    run(sx, sx.choice('mode', ['baseline', 'incremental']), ['a', 'x/b'], 2,
        [['ok', 't-read', 'e-open'], ['ok', 't-read', 'e-open']],
        [sx.choice('time', ['none', 'whole', 'frac']), 'whole'])


def p_local(sx):
    """The destination file cannot be opened or written."""
    env = sx.env
    ignore = sx.flag('ignore')
    tries = sx.choice('tries', [1, 2])
    env.handler = w = Web(sx, {ROOT + '/a': [sx.Response(b'x'), sx.Response(b'y')], ROOT + '/b': b'z',
                               LIST: resourcelist(sx, [entry(sx, ROOT + '/a', lastmod='2020-01-01T00:00:05Z'),
                                                       entry(sx, ROOT + '/b', lastmod='2020-01-01T00:00:03Z')])})
    env.mkdir('d')
    bad = sx.choice('op', ['open', 'write'])
    env.fault_fn = lambda op, path, mode: OSError(28, 'No space left') if (
        op == bad and ('w' in mode or 'a' in mode) and path.endswith('/a')) else None
    o = sx.attempt(client(tries=tries, ignore_failures=ignore).baseline_or_audit)
    env.fault_fn = None
    sx.check(len([u for u in w.fetched if u == ROOT + '/a']) == 1, 'an I/O error is not retried')
    sx.check(o.ok == ignore, 'a failed download ends the sync with an error unless failures are ignored')
    if ignore:
        sx.check(env.content('d/b') == b'z', 'the remaining resources are processed')
        sx.check(stored() == BASE + 3.0, 'only successful downloads advance the remembered time')
    else:
        sx.check(o.kind == 'ClientFatalError' and stored() is None, 'the error is reported as a client error')
    sx.reach('ignored' if ignore else 'failed')


def p_way(sx):
    """A local file or directory is in the way of a resource."""
    env = sx.env
    ignore = sx.flag('ignore')
    mode = sx.choice('mode', ['baseline', 'incremental'])
    way = sx.choice('way', ['file for directory', 'directory for file'])
    at = sx.choice('at', [0, 1, 2])
    names = ['b', 'e']
    names.insert(at, 'x/y' if way == 'file for directory' else 'x')
    t = dict((n, when(sx, n + '.ts', 1, 9)) for n in names)
    uris = dict((n, ROOT + '/' + n) for n in names)
    table = dict((uris[n], n.encode()) for n in names)
    table[LIST] = resourcelist(sx, [entry(sx, uris[n], lastmod=t[n][0]) for n in names])
    table[CHANGES] = changelist(sx, [change(sx, uris[n], 'created', at='2020-01-01T00:00:%02dZ' % (11 + i), lastmod=t[n][0])
                                     for i, n in enumerate(names)])
    env.handler = Web(sx, table)
    if way == 'file for directory':
        env.mkfile('d/x', b'old', BASE)
    else:
        env.mkdir('d/x')
        env.mkfile('d/x/z', b'old', BASE)
    store(sx, '1577836800.0')
    env.keep_log = True
    c = client(ignore_failures=ignore)
    if mode == 'incremental':
        o = sx.attempt(c.incremental, change_list_uri=CHANGES)
    else:
        o = sx.attempt(c.baseline_or_audit)
    sx.check(o.ok == ignore, 'a failed download ends the sync with an error unless failures are ignored')
    sx.check(env.content('d/x' if way == 'file for directory' else 'd/x/z') == b'old', 'what is in the way is untouched')
    if not ignore:
        sx.check(o.kind == 'ClientFatalError', 'the error is reported as a client error')
        sx.check(stored() == BASE + 0.0, 'the stored time is unchanged after an error')
        sx.reach('failed')
        return
    for n in ('b', 'e'):
        sx.check(env.content('d/' + n) == n.encode(), 'the remaining resources are processed')
        sx.check(env.mtime('d/' + n) == int(t[n][1]), 'the file has the listed time in whole seconds')
    sx.check('created=2,' in status(env)[-1], 'exactly the successful downloads are counted')
    if mode == 'baseline':
        a, b = t['b'][1], t['e'][1]
        sx.check(sx.eq(stored(), sx.ite(a > b, a, b)), 'only successful downloads advance the remembered time')
    sx.reach('ignored')


HARNESSES = [
    ('way', p_way, {'expect': ['ignored', 'failed']}),
    ('tries', p_tries, {'expect': ['retried', 'exhausted', 'failed', 'done']}),
    ('both', p_both, {'expect': ['retried', 'exhausted', 'failed', 'done']}),
    ('local', p_local, {'expect': ['ignored', 'failed']}),
]
