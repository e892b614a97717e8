"""Evaluation of solver terms in Python: per-value tables of one variable, interval bounds."""
import z3

_K = {}
for _n in ('ANUM', 'UNINTERPRETED', 'ADD', 'SUB', 'MUL', 'UMINUS', 'IDIV', 'MOD', 'ITE', 'LE', 'LT', 'GE', 'GT', 'EQ',
           'DISTINCT', 'AND', 'OR', 'NOT', 'TRUE', 'FALSE', 'IMPLIES'):
    _K[getattr(z3, 'Z3_OP_' + _n)] = _n


class No(Exception):
    pass


TABLES = {}     # id of a term -> (term, name of its variable, {value: result})


def _emit(e, names, out, memo, limit):
    """Straight-line Python for a term (shared subterms once); returns the name or literal of its value."""
    key = e.get_id()
    r = memo.get(key)
    if r is not None:
        return r
    if len(out) > limit:
        raise No()
    t = TABLES.get(key)
    if t is not None and t[1] in names:
        r = memo[key] = 't%d' % len(out)
        out.append('%s=T[%d][2].get(v,0)' % (r, key))
        return r
    k = _K.get(e.decl().kind())
    if k is None:
        raise No()
    if k == 'ANUM':
        r = '(%d)' % e.as_long()
    elif k == 'UNINTERPRETED':
        n = e.decl().name()
        if e.num_args() or n not in names:
            raise No()
        r = names[n]
    elif k == 'TRUE':
        r = 'True'
    elif k == 'FALSE':
        r = 'False'
    else:
        cs = e.children()
        a = [_emit(c, names, out, memo, limit) for c in cs]
        if k in ('ADD', 'SUB', 'MUL'):
            x = {'ADD': '+', 'SUB': '-', 'MUL': '*'}[k].join(a)
        elif k == 'UMINUS':
            x = '-%s' % a[0]
        elif k in ('IDIV', 'MOD'):
            if not z3.is_int_value(cs[1]) or cs[1].as_long() <= 0:
                raise No()
            x = '%s%s%s' % (a[0], '//' if k == 'IDIV' else '%', a[1])
        elif k == 'ITE':
            x = '%s if %s else %s' % (a[1], a[0], a[2])
        elif k in ('LE', 'LT', 'GE', 'GT'):
            x = '%s%s%s' % (a[0], {'LE': '<=', 'LT': '<', 'GE': '>=', 'GT': '>'}[k], a[1])
        elif k == 'EQ' or (k == 'DISTINCT' and len(a) == 2):
            x = '%s%s%s' % (a[0], '==' if k == 'EQ' else '!=', a[1])
        elif k in ('AND', 'OR'):
            x = (' and ' if k == 'AND' else ' or ').join(a) if a else ('True' if k == 'AND' else 'False')
        elif k == 'NOT':
            x = 'not %s' % a[0]
        elif k == 'IMPLIES':
            x = '(not %s) or %s' % (a[0], a[1])
        else:
            raise No()
        r = 't%d' % len(out)
        out.append('%s=%s' % (r, x))
    memo[key] = r
    return r


def function_of(e, var):
    """Python function computing e from the value of var, or None."""
    try:
        out = []
        r = _emit(e, {var.name: 'v'}, out, {}, 400)
        ns = {'T': TABLES}
        exec('def f(v):\n ' + ''.join(x + '\n ' for x in out) + 'return ' + r, ns)
        return ns['f']
    except (No, SyntaxError, RecursionError, MemoryError):
        return None


def table(e, var, dom=None):
    """{value: e(value)} over the (given or full) domain of a finite variable, or None."""
    f = function_of(e, var)
    if f is None:
        return None
    d = var.full if dom is None else dom
    out = {}
    while d:
        low = d & -d
        x = low.bit_length() - 1 + var.lo
        out[x] = f(x)
        d ^= low
    return out


def mask_of(e, var):
    f = function_of(e, var)
    if f is None:
        return None
    d = var.full
    m = 0
    while d:
        low = d & -d
        if f(low.bit_length() - 1 + var.lo):
            m |= low
        d ^= low
    return m


class Budget:
    """Limit on the number of terms looked at."""
    left = 400
    depth = 0


NO = object()


def _cached(fn, e, path, budget):
    """fn(e), remembered (with the term, so that its id stays taken) until a domain changes."""
    memo = path.memo
    key = e.get_id()
    r = memo.get(key)
    if r is not None:
        r = r[1]
        if r is NO:
            raise No()
        return r
    budget.left -= 1
    if budget.left < 0:
        raise No()
    if budget.depth >= 120:
        budget.left = -1
        raise No()
    budget.depth += 1
    try:
        r = fn(e, path, budget)
    except No:
        if budget.left >= 0:
            memo[key] = (e, NO)
        raise
    finally:
        budget.depth -= 1
    memo[key] = (e, r)
    return r


def bounds(e, path, budget=None):
    """(lo, hi) of an integer term under the current domains; raises No."""
    return _cached(_bounds, e, path, budget or Budget())


def _bounds(e, path, budget):
    t = TABLES.get(e.get_id())
    if t is not None:
        return min(t[2].values()), max(t[2].values())
    k = _K.get(e.decl().kind())
    if k == 'ANUM':
        n = e.as_long()
        return n, n
    if k == 'UNINTERPRETED':
        v = path.vars.get(e.decl().name())
        if v is None:
            raise No()
        if v.finite:
            d = path.dom[v]
            return (d & -d).bit_length() - 1 + v.lo, d.bit_length() - 1 + v.lo
        return v.lo, v.hi
    if k in ('ADD', 'SUB', 'MUL', 'UMINUS', 'IDIV', 'MOD'):
        cs = [bounds(c, path, budget) for c in e.children()]
        lo, hi = cs[0]
        if k == 'UMINUS':
            return -hi, -lo
        for a, b in cs[1:]:
            if k == 'ADD':
                lo, hi = lo + a, hi + b
            elif k == 'SUB':
                lo, hi = lo - b, hi - a
            elif k == 'MUL':
                ps = (lo * a, lo * b, hi * a, hi * b)
                lo, hi = min(ps), max(ps)
            else:
                if a != b or a <= 0:
                    raise No()
                if k == 'IDIV':
                    lo, hi = lo // a, hi // a
                elif lo // a == hi // a:
                    lo, hi = lo % a, hi % a
                else:
                    lo, hi = 0, a - 1
        return lo, hi
    if k == 'ITE':
        c, a, b = e.children()
        t = truth(c, path, budget)
        if t is True:
            return bounds(a, path, budget)
        if t is False:
            return bounds(b, path, budget)
        x, y = bounds(a, path, budget), bounds(b, path, budget)
        return min(x[0], y[0]), max(x[1], y[1])
    raise No()


def truth(e, path, budget=None):
    """True / False if the domains decide the formula, else None; raises No."""
    return _cached(_truth, e, path, budget or Budget())


def _truth(e, path, budget):
    k = _K.get(e.decl().kind())
    if k == 'TRUE':
        return True
    if k == 'FALSE':
        return False
    if k == 'NOT':
        t = truth(e.children()[0], path, budget)
        return None if t is None else (not t)
    if k in ('AND', 'OR'):
        unk = False
        for c in e.children():
            t = truth(c, path, budget)
            if t is None:
                unk = True
            elif t is (k == 'OR'):
                return t
        return None if unk else (k == 'AND')
    if k in ('LE', 'LT', 'GE', 'GT', 'EQ', 'DISTINCT'):
        cs = e.children()
        if len(cs) != 2 or not z3.is_int(cs[0]):
            raise No()
        (a, b), (c, d) = bounds(cs[0], path, budget), bounds(cs[1], path, budget)
        if k in ('GE', 'GT'):
            a, b, c, d = c, d, a, b
            k = 'LE' if k == 'GE' else 'LT'
        if k == 'LE':
            return True if b <= c else (False if a > d else None)
        if k == 'LT':
            return True if b < c else (False if a >= d else None)
        r = None
        if a == b == c == d:
            r = True
        elif b < c or d < a:
            r = False
        if k == 'DISTINCT' and r is not None:
            r = not r
        return r
    raise No()
