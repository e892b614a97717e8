from resync.client_state import ClientState

INFO = {
    'bounds': 'sequences of up to 4 (quick) or 5 (thorough) operations (store, clear) on two sources with symbolic names of 1-3 '
              'characters over letters of both cases, a non-ASCII letter, digit, blank and the punctuation that is special in the state '
              'file; symbolic times (integers, and fractions in multiples of 1/8 second, two finer ones), also zero and negative; operations by one or several objects; '
              'state file absent or holding another source; one failure or end of the process on opening, at each write to or on renaming a file',
    'outside': 'source names that differ in punctuation only; damaged state files; concurrent processes',
}


def letters(s):
    out = []
    for c in s:
        if c in 'aAbé1':
            out.append(c)
    return out


def name(sx, n, alpha, hi):
    return sx.str(n, alpha, 1, hi)


def differ(a, b):
    x, y = letters(a), letters(b)
    if len(x) != len(y):
        return True
    for p, q in zip(x, y):
        if p != q:
            return True
    return False


def run(sx, sites, nops, times):
    env = sx.env
    shared = sx.flag('shared')
    st = ClientState()
    other = sx.choice('file', ['none', 'other'])
    if other == 'other':
        ClientState().set_state('http://other/2', 1234.5)
    model = {}
    for i in range(nops):
        k = sx.choice('site%d' % i, [0, 1])
        op = sx.choice('op%d' % i, ['store', 'clear', 'read'] if i < nops - 1 else ['store', 'clear'])
        if not shared:
            st = ClientState()
        if op == 'store':
            t = times(i)
            o = sx.attempt(st.set_state, sites[k], t)
            sx.check(o.ok, 'a time is stored')
            model[k] = t
        elif op == 'clear':
            o = sx.attempt(st.set_state, sites[k])
            sx.check(o.ok, 'a time is cleared')
            model[k] = None
        else:
            look(sx, st, sites[k], model.get(k))
    if not shared:
        st = ClientState()
    for k in (0, 1):
        look(sx, st, sites[k], model.get(k))
        if k not in model:
            sx.reach('never stored')
        elif model[k] is None:
            sx.reach('cleared')
        else:
            sx.reach('stored')
    look(sx, st, 'http://other/2', 1234.5 if other == 'other' else None)
    sx.observe('read', [st.get_state(s) for s in sites])


def look(sx, st, site, want):
    o = sx.attempt(st.get_state, site)
    sx.check(o.ok, 'the state is read')
    if want is None:
        sx.check(o.value is None, 'none is reported if none is stored')
    else:
        sx.check(o.value is not None, 'a time is reported if one is stored')
        sx.check(o.value == want, 'it is exactly the time stored')


def p_names(sx):
    """Any names."""
    alpha = 'aAé1/.=:[#%_ ;' if sx.thorough else 'aA1/=[% '
    a = name(sx, 'a', alpha, 2)
    pre = sx.choice('prefix', ['', 'http://h/'])
    b = name(sx, 'b', 'aAbé1/' if sx.thorough else 'aAé/', 2)
    sx.assume(differ(a, b))
    run(sx, [pre + a, pre + b], 2, lambda i: 5 + i)


def p_times(sx):
    """Any times and histories."""
    def times(i):
        kind = sx.choice('kind%d' % i, ['integer', 'fraction', 'fine'])
        if kind == 'integer':
            return sx.int('time%d' % i, -3, 9)
        if kind == 'fine':
            return sx.choice('time%d' % i, [1577836800 + 1.0 / 4096, 1577836800.0 + 3.0 / (1 << 22)])
        return sx.ts('time%d' % i, 1577836800, 1577836802, 3)
    run(sx, ['http://h/s', 'http://h/S'], 5 if sx.thorough else 3, times)


def p_fault(sx):
    """Storing fails part way, or the process ends there."""
    env = sx.env
    sites = ['http://h/s', 'http://h/S', 'http://h/t']
    n = sx.choice('stored', [1, 2])
    model = dict((k, sx.int('t%d' % k, 1, 9)) for k in range(n))
    for k in range(n):
        ClientState().set_state(sites[k], model[k])
    k = sx.choice('site', [0, 1, 2])
    new = sx.int('new', 10, 19) if sx.flag('store') else None
    op = sx.choice('op', ['open', 'write', 'rename'])
    left = [sx.choice('after', [0, 1, 2, 3]) if op == 'write' else 0]
    crash = sx.flag('crash')

    def fault(o, path, mode):
        if o != op or o == 'open' and 'w' not in mode:
            return None
        left[0] -= 1
        if left[0] >= 0:
            return None
        return KeyboardInterrupt() if crash else OSError(28, 'No space left')
    env.fault_fn = fault
    try:
        ClientState().set_state(sites[k], new)
        ok = True
    except (OSError, KeyboardInterrupt):
        ok = False
    env.fault_fn = None
    if ok:
        model[k] = new
    for j in range(3):
        if j == k and not ok:
            o = sx.attempt(ClientState().get_state, sites[j])
            sx.check(o.ok, 'the state is read')
            old = model.get(j)
            v = o.value
            sx.check((old is None if v is None else old is not None and v == old) or (new is None if v is None else new is not None and v == new),
                     'a time that could not be stored leaves the one before')
        else:
            look(sx, ClientState(), sites[j], model.get(j))
    sx.reach('failed' if not ok else 'stored')
    # and storing works again afterwards
    o = sx.attempt(ClientState().set_state, sites[k], 30)
    sx.check(o.ok, 'a time is stored')
    model[k] = 30
    for j in range(3):
        if j == k or j in model:
            look(sx, ClientState(), sites[j], model[j])


HARNESSES = [('fault', p_fault, {'expect': ['failed', 'stored']}),
             ('names', p_names, {'expect': ['stored', 'never stored', 'cleared']}),
             ('times', p_times, {'expect': ['stored', 'never stored', 'cleared']})]
