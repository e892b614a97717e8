import argparse
import sys

import resync.client
import resync.client_utils
import resync.explorer
import resync.url_or_file_open
from resync.client import Client, ClientFatalError
from resync.explorer import Explorer
from .lib import BASE, ROOT, WIDE, Web

INFO = {
    'bounds': 'the three command line scripts; every mode, with every pair of options given together (under each of their '
              'documented names), values symbolic: texts of three characters, whole numbers 1-99, delays 0-3 s; one or two mappings in '
              'either form; operations that fail; missing, repeated and contradictory modes',
    'outside': 'option values that are empty or zero; three and more options together; what init_logging does with its settings; '
               'the option parser of the standard library is used as it is, with symbolic values put in place of the parsed texts',
    'assumptions': ['the option parser hands over every value of type text, int or float as given'],
}
TEXT = WIDE.replace('\n', '')
REAL_PARSE = argparse.ArgumentParser.parse_args
OPERATIONS = {Client: ['baseline_or_audit', 'incremental', 'parse_document', 'write_resource_list', 'write_change_list',
                       'write_capability_list', 'write_source_description'],
              Explorer: ['explore']}
# attribute of the client -> documented default
DEFAULTS = {'verbose': False, 'dryrun': False, 'sitemap_name': None, 'capability_list_uri': None, 'noauth': False, 'strictauth': False,
            'ignore_failures': False, 'tries': 20, 'timeout': None, 'max_sitemap_entries': None, 'spec_version': '1.1',
            'dump_format': None, 'allow_multifile': True}
FALSY = ['verbose', 'dryrun', 'noauth', 'strictauth', 'ignore_failures']

# option -> (names, kind, effect); kind: flag, text, texts (repeatable), int, float, spec, hash
SHARED = {
    'hash': (['--hash'], 'hash', None),
    'checksum': (['--checksum'], 'flag', None),
    'exclude': (['--exclude'], 'texts', None),
    'multifile': (['--multifile', '-m'], 'flag', ('allow_multifile', False)),
    'logger': (['--logger', '-l'], 'flag', None),
    'logfile': (['--logfile'], 'text', None),
    'spec': (['--spec-version'], 'spec', 'spec_version'),
    'verbose': (['--verbose', '-v'], 'flag', ('verbose', True)),
    'max': (['--max-sitemap-entries'], 'int', 'max_sitemap_entries'),
}
REMOTE = {
    'noauth': (['--noauth'], 'flag', ('noauth', True)),
    'token': (['--access-token'], 'text', None),
    'delay': (['--delay'], 'float', None),
    'sitemap': (['--sitemap'], 'text', 'sitemap_name'),
}
SYNC = {
    'capabilitylist': (['--capabilitylist', '--capability-list'], 'text', 'capability_list_uri'),
    'change_list_uri': (['--changelist-uri', '--change-list-uri'], 'text', None),
    'from_datetime': (['--from'], 'text', None),
    'delete': (['--delete'], 'flag', None),
    'strictauth': (['--strictauth'], 'flag', ('strictauth', True)),
    'dryrun': (['--dryrun', '-n'], 'flag', ('dryrun', True)),
    'ignore': (['--ignore-failures'], 'flag', ('ignore_failures', True)),
    'eval': (['--eval', '-e'], 'flag', None),
    'tries': (['--tries', '-t'], 'int', 'tries'),
    'timeout': (['--timeout', '-T'], 'int', 'timeout'),
}
BUILD = {
    'outfile': (['--outfile'], 'text', None),
    'paths': (['--paths'], 'text', None),
    'reference': (['--reference'], 'text', None),
    'newreference': (['--newreference'], 'text', None),
    'link': (['--link'], 'links', None),
    'describedby': (['--describedby-link'], 'text', None),
    'source_link': (['--sourcedescription-link', '--source-description-link'], 'text', None),
    'capability_link': (['--capabilitylist-link', '--capability-list-link'], 'text', None),
    'empty': (['--empty'], 'flag', None),
    'warc': (['--warc'], 'flag', ('dump_format', 'warc')),
    'dryrun': (['--dryrun', '-n'], 'flag', ('dryrun', True)),
    'eval': (['--eval', '-e'], 'flag', None),
}
MAPS = [[], ['http://h/s/=d'], ['http://h/s', 'd'], ['http://h/s=d', 'http://h/t/=e/f']]


class Err:
    def __init__(self):
        self.text = ''

    def write(self, s):
        self.text = self.text + s

    def flush(self):
        pass


class Run:
    """One run of a script."""

    def __init__(self, sx, script, fail=None):
        self.sx = sx
        self.script = script
        self.argv = [script]
        self.subst = {}         # parsed text -> value
        self.calls = []         # operations: (name, client, arguments)
        self.logging = []
        self.fail = fail
        self.err = Err()

    def value(self, v):
        """Text to give on the command line for a value."""
        if not self.sx.symbolic:
            return str(v)
        k = 7000 + len(self.subst)
        self.subst[k] = v
        return str(k) if not isinstance(v, float) and type(v) is not float else str(k)

    def sym(self, x, kind):
        """The value in place of a parsed one."""
        if isinstance(x, list):
            return [self.sym(y, kind) for y in x]
        if type(x) is str:
            for k in self.subst:
                if x == str(k):
                    v = self.subst[k]
                    return v if kind.get(k) != 'number' else '%d' % v
                if str(k) in x:         # part of a longer text
                    a, b = x.split(str(k), 1)
                    return a + self.subst[k] + self.sym(b, kind)
            return x
        if type(x) in (int, float) and int(x) in self.subst:
            return self.subst[int(x)]
        return x

    def go(self):
        run, sx = self, self.sx
        kinds = {k: 'text' if isinstance(v, str) else 'number' for k, v in self.subst.items()}

        def parse_args(parser, args=None, namespace=None):
            ns = REAL_PARSE(parser, run.argv[1:])
            for k, v in list(vars(ns).items()):
                setattr(ns, k, run.sym(v, kinds))
            return ns

        def recorder(cls, name):
            names = getattr(cls, name).__code__.co_varnames[1:getattr(cls, name).__code__.co_argcount]

            def operation(client, *args, **kw):
                a = dict(kw)
                for n, v in zip(names, args):
                    a[n] = v
                run.calls.append((name, client, a))
                if name == 'explore' or 'write' not in name:
                    for u in ('http://h/1', 'http://h/2'):
                        resync.url_or_file_open.url_or_file_open(u)
                if run.fail is not None:
                    raise run.fail
            return operation

        def init_logging(to_file=False, logfile=None, default_logfile=None, human=True, verbose=False, eval_mode=False, **kw):
            run.logging.append((to_file, logfile, verbose, eval_mode))
        kept = [(c, n, getattr(c, n)) for c in OPERATIONS for n in OPERATIONS[c] if n in c.__dict__]
        log, argv, err = resync.client_utils.init_logging, sys.argv, sys.stderr
        sx.env.handler = Web(sx, {'http://h/1': b'x', 'http://h/2': b'x'})
        try:
            for c in OPERATIONS:
                for n in OPERATIONS[c]:
                    setattr(c, n, recorder(c, n))
            resync.client_utils.init_logging = init_logging
            if sx.symbolic:
                argparse.ArgumentParser.parse_args = parse_args
            sys.argv = self.argv
            sys.stderr = self.err
            return sx.attempt(sx.script(self.script)['main'])
        finally:
            argparse.ArgumentParser.parse_args = REAL_PARSE
            sys.argv, sys.stderr = argv, err
            resync.client_utils.init_logging = log
            for c, n, f in kept:
                setattr(c, n, f)


def give(sx, run, key, spec):
    """Adds an option to the command line; returns the value given."""
    names, kind, effect = spec
    name = sx.choice(key + '.name', names)

    def text(n):
        return sx.strn(n, TEXT, 3)

    def add(v):
        if name.startswith('--'):
            run.argv.append(name + '=' + v)
        else:
            run.argv.extend([name, v])
    if kind == 'flag':
        run.argv.append(name)
        return True
    if kind == 'text':
        v = text(key)
        add(run.value(v))
        return v
    if kind == 'texts':
        vs = [text('%s%d' % (key, i)) for i in range(sx.choice(key + '.n', [1, 2]))]
        for v in vs:
            add(run.value(v))
        return vs
    if kind == 'links':
        vs = []
        for i in range(sx.choice(key + '.n', [1, 2])):
            v = sx.strn('%s%d' % (key, i), TEXT.replace(',', '').replace('=', ''), 2)
            add('r%d,' % i + run.value(v) + (',type=t' if i else ''))
            vs.append({'rel': 'r%d' % i, 'href': v})
            if i:
                vs[i]['type'] = 't'
        return vs
    if kind == 'int':
        v = sx.int(key, 1, 99)
        add(run.value(v))
        return v
    if kind == 'float':
        v = sx.ts(key, 1, 3, 1)
        add(run.value(v))
        return v
    if kind == 'spec':
        v = sx.choice(key, ['1.0', '1.1'])
        add(v)
        return v
    vs = [sx.choice('%s%d' % (key, i), ['md5', 'sha-1', 'sha-256']) for i in range(sx.choice(key + '.n', [1, 2]))]
    for v in vs:
        add(v)
    return vs


def mappings(sx, run, c, maps):
    if len(maps) == 0:
        return
    sx.check(c.mapper.src_to_dst('http://h/s/x') == 'd/x', 'the mapping given is used')
    if len(maps) == 2 and '=' in maps[1]:
        sx.check(c.mapper.src_to_dst('http://h/t/x') == 'e/f/x', 'every mapping given is used')


def client_state(sx, c, given, table, script):
    """The settings of the client are the ones given, else the defaults."""
    want = dict(DEFAULTS)
    for key in given:
        effect = table[key][2]
        if isinstance(effect, tuple):
            want[effect[0]] = effect[1]
        elif effect is not None:
            want[effect] = given[key]
    if script == 'resync-explorer':
        want.pop('spec_version')
    for a in want:
        v = getattr(c, a)
        if a in FALSY:
            sx.check(bool(v) == want[a], 'exactly the options given are in effect: ' + a)
        elif want[a] is None or want[a] is True or want[a] is False:
            sx.check(v is want[a], 'exactly the options given are in effect: ' + a)
        else:
            sx.check(v == want[a], 'exactly the options given are in effect: ' + a)
    hs = list(given.get('hash', [])) + (['md5'] if 'checksum' in given else [])
    sx.check(sorted(c.hashes) == sorted(set(hs)), 'exactly the hash types asked for are in effect')
    ex = given.get('exclude', [])
    got = list(c.exclude_patterns or [])
    sx.check(len(got) == len(ex), 'exactly the exclude patterns given are in effect')
    for a, b in zip(got, ex):
        sx.check(a == b, 'exactly the exclude patterns given are in effect')


def requests(sx, given):
    env = sx.env
    sx.check(len(env.requests) == 2, 'two requests were made')
    for r in env.requests:
        h = {k.lower(): v for k, v in r['headers'].items()}
        if 'token' in given:
            sx.check(h.get('authorization') == 'Bearer ' + given['token'], 'the access token given is sent')
        else:
            sx.check('authorization' not in h, 'no access token is sent unless one is given')
    if 'delay' in given:
        sx.check(len(env.sleeps) == 1 and env.sleeps[0] == given['delay'], 'the delay given is applied')
    else:
        sx.check(len(env.sleeps) == 0, 'no delay is applied unless one is given')


def log_state(sx, run, given):
    sx.check(len(run.logging) == 1, 'logging is set up once')
    to_file, logfile, verbose, ev = run.logging[0]
    sx.check(bool(to_file) == ('logger' in given), 'a log file is written exactly if asked for')
    sx.check(logfile == given['logfile'] if 'logfile' in given else logfile is None, 'the log file is the one given')
    sx.check(bool(verbose) == ('verbose' in given) and bool(ev) == ('eval' in given), 'the detail of the log is the one asked for')


def pair(sx, run, table):
    """Gives up to two options; returns their values."""
    keys = sorted(table)
    i = sx.choice('first', range(len(keys) + 1))
    given = {}
    if i < len(keys):
        j = sx.choice('second', range(i, len(keys)))
        given[keys[i]] = give(sx, run, keys[i], table[keys[i]])
        if j > i:
            given[keys[j]] = give(sx, run, keys[j], table[keys[j]])
    return given


def p_sync(sx):
    table = dict(SHARED, **dict(REMOTE, **SYNC))
    run = Run(sx, 'resync-sync')
    mode = sx.choice('mode', ['baseline', 'audit', 'incremental', 'parse'])
    short = {'baseline': ['--baseline', '-b'], 'audit': ['--audit', '-a'], 'incremental': ['--incremental', '--inc', '-i'],
             'parse': ['--parse', '-p']}[mode]
    given = pair(sx, run, table)
    run.argv.insert(sx.choice('at', [1, len(run.argv)]), sx.choice('modename', short) if not given else short[0])
    maps = sx.choice('maps', MAPS) if not given else MAPS[1]
    run.argv.extend(maps)
    o = run.go()
    sx.check(o.ok and len(run.calls) == 1, 'exactly one operation is run')
    name, c, a = run.calls[0]
    sx.check(name == {'baseline': 'baseline_or_audit', 'audit': 'baseline_or_audit', 'incremental': 'incremental',
                      'parse': 'parse_document'}[mode], 'the operation asked for is run')
    if mode in ('baseline', 'audit'):
        sx.check(bool(a.get('audit_only')) == (mode == 'audit'), 'an audit is run exactly if asked for')
    if mode != 'parse':
        sx.check(bool(a.get('allow_deletion')) == ('delete' in given), 'deletion is allowed exactly if asked for')
    if mode == 'incremental':
        for k in ('change_list_uri', 'from_datetime'):
            sx.check(a.get(k) == given[k] if k in given else a.get(k) is None, 'the change list and start time are the ones given')
    client_state(sx, c, given, table, run.script)
    mappings(sx, run, c, maps)
    requests(sx, given)
    log_state(sx, run, given)
    sx.reach(mode)


def p_explorer(sx):
    table = dict(SHARED, **REMOTE)
    run = Run(sx, 'resync-explorer')
    given = pair(sx, run, table)
    o = run.go()
    sx.check(o.ok and len(run.calls) == 1 and run.calls[0][0] == 'explore', 'the explorer is run')
    client_state(sx, run.calls[0][1], given, table, run.script)
    requests(sx, given)
    sx.reach('explored')


def link_lists(sx, got, want):
    sx.check(len(got) == len(want), 'exactly the links given are used')
    for w in want:
        alts = []
        for g in got:
            if sorted(g) == sorted(w):
                alts.append(sx.and_(*[g[k] == w[k] for k in w]))
        sx.check(sx.or_(*alts), 'exactly the links given are used')


def p_build(sx):
    table = dict(SHARED, **BUILD)
    run = Run(sx, 'resync-build')
    mode = sx.choice('mode', ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'capabilitylist', 'sourcedescription'])
    names = {'resourcelist': ['--write-resourcelist', '--write-resource-list'],
             'changelist': ['--write-changelist', '--write-change-list'],
             'capabilitylist': ['--write-capabilitylist', '--write-capability-list'],
             'sourcedescription': ['--write-sourcedescription', '--write-source-description'],
             'resourcedump': ['--write-resourcedump', '--write-resource-dump', '-d'],
             'changedump': ['--write-changedump', '--write-change-dump']}[mode]
    given = pair(sx, run, table)
    name = sx.choice('modename', names) if not given else names[0]
    uri = sx.strn('uri', TEXT.replace(',', '').replace('=', ''), 2) if mode in ('capabilitylist', 'sourcedescription') else None
    if mode == 'capabilitylist':
        name += '=changelist=' + run.value(uri) + ',resourcelist=http://h/r'
    elif mode == 'sourcedescription':
        name += '=' + run.value(uri) + ',http://h/r'
    run.argv.insert(1, name)
    maps = sx.choice('maps', MAPS) if not given else MAPS[3]
    run.argv.extend(maps)
    o = run.go()
    if mode in ('changelist', 'changedump') and 'reference' not in given and 'empty' not in given:
        sx.check(not o.ok and o.kind == 'SystemExit' and len(run.calls) == 0, 'a change list needs a reference unless it is to be empty')
        sx.check('--reference' in run.err.text, 'a missing reference is reported')
        sx.reach('no reference')
        return
    sx.check(o.ok and len(run.calls) == 1, 'exactly one operation is run')
    op, c, a = run.calls[0]
    sx.check(op == {'resourcelist': 'write_resource_list', 'resourcedump': 'write_resource_list', 'changelist': 'write_change_list',
                    'changedump': 'write_change_list', 'capabilitylist': 'write_capability_list',
                    'sourcedescription': 'write_source_description'}[mode], 'the operation asked for is run')
    links = list(given.get('link', []))
    if 'describedby' in given:
        links.append({'rel': 'describedby', 'href': given['describedby']})
    if 'capability_link' in given and mode not in ('capabilitylist', 'sourcedescription'):
        links.append({'rel': 'up', 'href': given['capability_link']})
    if 'source_link' in given and mode == 'capabilitylist':
        links.append({'rel': 'up', 'href': given['source_link']})
    link_lists(sx, a.get('links') or [], links)
    sx.check(a.get('outfile') == given['outfile'] if 'outfile' in given else a.get('outfile') is None, 'the output file is the one given')
    if mode in ('resourcelist', 'resourcedump', 'changelist', 'changedump'):
        sx.check(a.get('paths') == given['paths'] if 'paths' in given else a.get('paths') is None, 'the paths scanned are the ones given')
        sx.check(bool(a.get('dump')) == (mode in ('resourcedump', 'changedump')), 'a dump is written exactly if asked for')
    if mode in ('changelist', 'changedump'):
        for k, key in (('ref_sitemap', 'reference'), ('newref_sitemap', 'newreference')):
            sx.check(a.get(k) == given[key] if key in given else a.get(k) is None, 'the reference lists are the ones given')
        sx.check(bool(a.get('empty')) == ('empty' in given), 'an empty list is written exactly if asked for')
    if mode == 'capabilitylist':
        caps = list(a['capabilities'].items())
        sx.check(len(caps) == 2 and caps[0][0] == 'changelist' and caps[1] == ('resourcelist', 'http://h/r'),
                 'the capabilities are the ones given')
        sx.check(caps[0][1] == uri, 'the capabilities have the URIs given')
    if mode == 'sourcedescription':
        ls = list(a['capability_lists'])
        sx.check(len(ls) == 2 and ls[1] == 'http://h/r', 'the capability lists are the ones given')
        sx.check(ls[0] == uri, 'the capability lists are the ones given')
    client_state(sx, c, given, table, run.script)
    mappings(sx, run, c, maps)
    log_state(sx, run, given)
    sx.reach(mode)


def p_errors(sx):
    """Wrong command lines and operations that fail."""
    script = sx.choice('script', ['resync-sync', 'resync-build', 'resync-explorer'])
    case = sx.choice('case', ['no mode', 'two modes', 'version', 'delay', 'number', 'map', 'link', 'fails', 'unknown'])
    run = Run(sx, script, ClientFatalError('it went wrong') if case == 'fails' else None)
    modes = {'resync-sync': ['-b', '-a', '-i', '-p'], 'resync-build': ['--write-resourcelist', '-d', '--write-changedump'],
             'resync-explorer': []}[script]
    m = sx.choice('mode', modes) if modes and case != 'no mode' else None
    if m is not None:
        run.argv.append(m)
    if case == 'no mode' or case == 'two modes':
        sx.assume(script != 'resync-explorer')
        if case == 'two modes':
            run.argv.append(sx.choice('other', [x for x in modes if x != m]))
    elif case == 'version':
        run.argv.append('--spec-version=' + sx.choice('v', ['1.2', '1', '2.0']))
    elif case == 'delay':
        sx.assume(script != 'resync-build')
        run.argv.append('--delay=-0.5')
    elif case == 'number':
        run.argv.append('--max-sitemap-entries=' + sx.choice('v', ['x', '1.5']))
    elif case == 'map':
        sx.assume(script != 'resync-explorer')
        run.argv.extend(sx.choice('v', [['a', 'b', 'c'], ['http://h/s=d', 'http://h/s=e'], ['a=b=c']]))
    elif case == 'link':
        sx.assume(script == 'resync-build')
        run.argv.append('--link=' + sx.choice('v', ['x', 'x,', ',y', 'x,y,z']))
    elif case == 'unknown':
        run.argv.append('--nothing-like-that')
    if case == 'fails' and m in ('--write-changedump',):
        run.argv.append('--empty')
    o = run.go()
    if case == 'fails':
        sx.check(len(run.calls) == 1, 'the operation asked for is run')
        sx.check(o.ok or o.kind == 'SystemExit', 'an error of the operation is no crash')
        sx.check('it went wrong' in run.err.text, 'an error of the operation is reported')
        sx.reach('failed')
        return
    sx.check(len(run.calls) == 0, 'no operation is run if the command line is wrong')
    sx.check(not o.ok or run.err.text != '', 'a wrong command line is reported')
    sx.reach('wrong')


HARNESSES = [('sync', p_sync, {'expect': ['baseline', 'audit', 'incremental', 'parse']}),
             ('build', p_build, {'expect': ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'capabilitylist',
                                            'sourcedescription', 'no reference']}),
             ('explorer', p_explorer, {'expect': ['explored']}), ('errors', p_errors, {'expect': ['failed', 'wrong']})]
