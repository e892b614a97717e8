import argparse
import os
import socket
from urllib.error import URLError
from resync.client_utils import process_shared_misc_options
from resync.url_or_file_open import set_url_or_file_open_config, url_or_file_open
from .lib import BASE, ROOT, entry, listing, opt
from .syncs import client

INFO = {
    'bounds': 'sequences of 1-4 requests (5 thorough) to web locations with symbolic paths and to local files (plain paths with symbolic names of '
              '1-2 characters special in URLs, relative and absolute, and file: URLs), existing or not; token absent or with 1-3 symbolic characters, delay absent or '
              'symbolic, either set or changed at any point; all methods; time-outs absent or symbolic; requests of a synchronization; command-line options',
    'outside': 'a configured empty token or zero delay; paths that start with two slashes, contain a line break, or start with letters and a colon',
}


def look(sx, env, k, want, since):
    """The request want is number k; since is the number of delays before it."""
    sx.check(len(env.requests) == k + 1, 'one request is made')
    rec = env.requests[k]
    h = {a.lower(): b for a, b in rec['headers'].items()}
    if want['token'] is None:
        sx.check('authorization' not in h, 'no token is sent unless configured')
    else:
        sx.check('authorization' in h, 'the token configured is sent')
        sx.check(h['authorization'] == 'Bearer ' + want['token'], 'as a bearer token')
    sx.check('user-agent' in h and h['user-agent'].startswith('resync/'), 'the client is identified')
    if 'url' in want:
        sx.check(rec['url'] == want['url'], 'a location with a scheme is opened unchanged')
    sx.check(rec['method'] == want.get('method', 'GET'), 'with the method asked for')
    if want.get('timeout') is None:
        sx.check(isinstance(rec['timeout'], str), 'without time-out unless asked for')
    else:
        sx.check(not isinstance(rec['timeout'], str), 'with time-out if asked for')
        sx.check(rec['timeout'] == want['timeout'], 'with the time-out asked for')
    total = 0
    for s in env.sleeps[since:]:
        total = total + s
    sx.check(total == want['delay'], 'the delay is applied before web requests except the first request, and only there')
    sx.check(rec['sleeps'] == len(env.sleeps), 'before the request')


def p_requests(sx):
    env = sx.env
    env.handler = lambda rec: sx.Response(b'web')
    n = sx.choice('n', [1, 2, 3, 4] + ([5] if sx.thorough else []))
    token, delay = None, None
    if n > 2 or sx.flag('configured'):
        change = sx.choice('at', list(range(n)))
    else:
        change = None
    env.mkfile('there', b'local', BASE)
    for i in range(n):
        if i == change:
            what = sx.choice('what', ['token', 'delay', 'both'])
            if what != 'delay':
                token = sx.str('token', 'aZ.= -', 1, 3)
                set_url_or_file_open_config('bearer_token', token)
            if what != 'token':
                delay = sx.ts('delay', 1, 5, 2)
                set_url_or_file_open_config('delay', delay)
        elif change is not None and i == change + 2 and sx.flag('off%d' % i):
            token = delay = None
            set_url_or_file_open_config('bearer_token', None)
            set_url_or_file_open_config('delay', None)
        kind = sx.choice('kind%d' % i, ['web', 'path', 'file:'] if i < 3 else ['web', 'path'])
        want = {'token': token, 'delay': 0}
        kw = {}
        if i == n - 1:
            m = sx.choice('method%d' % i, [None, 'GET', 'HEAD', 'POST'])
            if m is not None:
                kw['method'] = want['method'] = m
            t = opt(sx, 'timeout%d' % i, lambda: sx.ts('timeout%d' % i, 0, 4, 1))
            if t is not None:
                kw['timeout'] = want['timeout'] = t
        if kind == 'web':
            u = sx.choice('scheme%d' % i, ['http', 'https'])
            u = u + '://h/' + sx.strn('p%d' % i, 'a%+=?.', 1)
            want['url'] = u
            if i > 0 and delay is not None:
                want['delay'] = delay
        else:
            u = 'there'
            if kind == 'file:':
                u = want['url'] = 'file://' + os.getcwd() + '/' + u
        before = len(env.sleeps)
        o = sx.attempt(url_or_file_open, u, **kw)
        look(sx, env, i, want, before)
        sx.check(o.ok, 'the location is opened')
        sx.check(o.value.read() == (b'web' if kind == 'web' else b'local'), 'it is the one asked for')
        sx.reach(kind)
    sx.observe('sleeps', list(env.sleeps))


def p_paths(sx):
    """Any local path."""
    env = sx.env
    env.handler = lambda rec: sx.Response(b'web')
    first = 'ab#?%é ;&.'
    name = sx.str('name', first + ('/:' if sx.thorough else ':'), 1, 3 if sx.thorough else 2)
    sx.assume(sx.and_(name != '.', name != '..', name != './'))
    base = sx.choice('base', ['', 'd/', './', 'cwd'])
    if base == '':
        sx.assume(not (':' in name and not name.startswith(':')))
        sx.assume(not name.startswith('/'))
    sx.assume('//' not in name and not name.endswith('/') and '/./' not in name and '/..' not in name and '../' not in name)
    env.mkdir('d')
    env.mkfile('other', b'x', BASE)
    path = (os.getcwd() + '/' if base == 'cwd' else base) + name
    there = sx.flag('there')
    if there:
        env.mkfile(path, b'local', BASE)
    o = sx.attempt(url_or_file_open, path)
    if there:
        sx.check(o.ok, 'an existing local path is opened')
        sx.check(o.value.read() == b'local', 'it is the file at that path')
        sx.reach('opened')
    else:
        sx.check(not o.ok and isinstance(o.exc, OSError), 'a missing local path is an error')
        sx.reach('missing')
    sx.check(len(env.sleeps) == 0, 'no delay')


def p_sync(sx):
    """Requests of a baseline synchronization."""
    env = sx.env
    token = opt(sx, 'token', lambda: sx.str('token', 'aZ ', 1, 2))
    delay = opt(sx, 'delay', lambda: sx.ts('delay', 1, 3, 2))
    timeout = opt(sx, 'timeout', lambda: sx.ts('timeout', 1, 3, 2))
    args = argparse.Namespace(checksum=False, hash=None, access_token=token, delay=delay)
    o = sx.attempt(process_shared_misc_options, args, include_remote=True)
    sx.check(o.ok, 'the options are accepted')
    slow = sx.choice('slow', [None, 0, 1])
    tried = []
    doc = env.xml(listing(sx, 'resourcelist', [entry(sx, ROOT + '/' + n) for n in 'ab']))

    def serve(rec):
        if rec['url'].endswith('.xml'):
            return sx.Response(doc)
        tried.append(rec['url'])
        if slow is not None and len(tried) == slow + 1:
            x = socket.timeout('timed out')
            return x if sx.flag('direct') else URLError(x)
        return sx.Response(b'data')
    env.handler = serve
    c = client(timeout=timeout)
    o = sx.attempt(c.baseline_or_audit)
    sx.check(o.ok, 'synchronized')
    urls = [ROOT + '/resourcelist.xml', ROOT + '/a', ROOT + '/b']
    if slow is not None:
        urls.insert(1 + slow, urls[1 + slow])
    sx.check(len(env.requests) == len(urls), 'one request for each document, and one more after a time-out')
    for i, (rec, u) in enumerate(zip(env.requests, urls)):
        sx.check(rec['url'] == u, 'requested unchanged')
        h = {a.lower(): b for a, b in rec['headers'].items()}
        sx.check(('authorization' in h) == (token is not None), 'every request has the token if configured')
        if token is not None:
            sx.check(h['authorization'] == 'Bearer ' + token, 'the token configured')
        sx.check(rec['sleeps'] == (i if delay is not None else 0), 'one delay before every request but the first')
        if i > 0:
            if timeout is None:
                sx.check(isinstance(rec['timeout'], str), 'no time-out unless asked for')
            else:
                sx.check(not isinstance(rec['timeout'], str) and rec['timeout'] == timeout, 'the time-out asked for')
    for s in env.sleeps:
        sx.check(s == delay, 'the delay configured')
    sx.reach('synchronized')


def p_options(sx):
    d = sx.ts('delay', -3, 3, 2)
    sx.assume(d != 0)
    args = argparse.Namespace(checksum=False, hash=None, access_token=None, delay=d)
    env = sx.env
    env.handler = lambda rec: sx.Response(b'web')
    o = sx.attempt(process_shared_misc_options, args, include_remote=True)
    if not o.ok:
        sx.check(d < 0, 'a positive delay is accepted')
        sx.reach('refused')
        return
    sx.check(d > 0, 'a negative delay is refused')
    url_or_file_open('http://h/a')
    url_or_file_open('http://h/b')
    sx.check(len(env.sleeps) == 1 and env.sleeps[0] == d, 'and applied')
    sx.reach('accepted')


HARNESSES = [('requests', p_requests, {'expect': ['web', 'path', 'file:']}), ('paths', p_paths, {'expect': ['opened', 'missing']}),
             ('sync', p_sync, {'expect': ['synchronized']}), ('options', p_options, {'expect': ['refused', 'accepted']})]
