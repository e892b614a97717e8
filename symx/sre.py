"""Regular expressions over symbolic strings (backtracking in CPython's order).

Patterns are parsed by CPython's own re._parser; each character test on a
symbolic character is a branch.  Patterns may themselves contain symbolic
characters (they are first split into special and ordinary ones).
"""
import re
import re._parser as sre_parse
import re._constants as C
from . import core
from .core import Unsupported, Var, mk_or, mk_and, mk_not
from .values import (SymStr, SymBytes, PatStr, CMap, UNI_MAX, concretize_str, is_sym, it_dom, it_eq, it_mask,
                     items_of, mkbool, mkstr, norm_item)

PLACE = 0xE100      # placeholder code points for symbolic pattern characters
SPECIALS = '.^$*+?{}[]\\|()#-'
SPECIAL_MASK = sum(1 << ord(c) for c in SPECIALS)


class SymPattern:
    """Compiled pattern."""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.place = {}
        text = self._text(pattern)
        if isinstance(flags, re.RegexFlag):
            flags = int(flags)
        self.parsed = sre_parse.parse(text, flags)   # may raise re.error
        st = self.parsed.state
        self.flags = st.flags | flags
        self.groups = st.groups - 1
        self.groupindex = dict(st.groupdict)

    def _text(self, pattern):
        if type(pattern) is str:
            return pattern
        if type(pattern) is PatStr:
            out = []
            for kind, its in pattern.pieces:
                if kind == 'raw':
                    out.append(self._raw(its))
                else:
                    for it in its:
                        out.append(self._placeholder(it) if type(it) is not int else re.escape(chr(it)))
            return ''.join(out)
        return self._raw(pattern.items)

    def _placeholder(self, it):
        it = norm_item(it)
        if type(it) is int:
            return re.escape(chr(it))
        cp = PLACE + len(self.place)
        self.place[cp] = it
        return chr(cp)

    def _raw(self, its):
        out = []
        conc = False     # concretize from here on (inside escapes, classes, ...)
        for it in its:
            it = norm_item(it)
            if type(it) is not int:
                if conc or bool(mkbool(it_mask(it, SPECIAL_MASK))):
                    it = ord(concretize_str(mkstr([it])))
            if type(it) is int:
                c = chr(it)
                out.append(c)
                if c in '\\[{(':
                    conc = True
            else:
                out.append(self._placeholder(it))
        return ''.join(out)

    # -- API
    def match(self, s, pos=0, endpos=None):
        return self._run(s, pos, 'match', endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        return self._run(s, pos, 'full', endpos)

    def search(self, s, pos=0, endpos=None):
        its = self._items(s)
        for i in range(pos, len(its) + 1):
            m = self._run(s, i, 'match', endpos)
            if m is not None:
                return m
        return None

    def _items(self, s):
        its = items_of(s)
        if its is None:
            raise TypeError('expected string or bytes-like object, got %r' % s.__class__.__name__)
        return its

    def _run(self, s, pos, mode, endpos=None):
        if endpos is not None:
            raise Unsupported('regex endpos')
        its = self._items(s)
        mt = Matcher(self, its)
        groups = {}
        r = mt.run(list(self.parsed), pos, groups, mode == 'full')
        if r is None:
            return None
        end, groups = r
        return SymMatch(self, s, its, pos, end, groups)

    def finditer(self, s):
        its = self._items(s)
        pos = 0
        lastempty = -1
        while pos <= len(its):
            m = None
            i = pos
            while i <= len(its):
                m = self._run(s, i, 'match')
                if m is not None and not (m.end() == m.start() and m.start() == lastempty):
                    break
                m = None
                i += 1
            if m is None:
                return
            yield m
            if m.end() == m.start():
                pos = m.end() + 1
            else:
                pos = m.end()
            lastempty = m.end()

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(g if g is not None else '' for g in m.groups()))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        its = self._items(s)
        out = []
        last = 0
        n = 0
        tmpl = None
        if not callable(repl):
            if is_sym(repl):
                if bool(repl.contains('\\')):
                    repl = concretize_str(repl)
            if type(repl) is str and '\\' in repl:
                tmpl = sre_parse.parse_template(repl, _DummyPat(self))
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += its[last:m.start()]
            if callable(repl):
                from .hooks import call
                r = call(repl, m)
            elif tmpl is not None:
                r = m._expand(tmpl)
            else:
                r = repl
            out += items_of(r)
            last = m.end()
            n += 1
        out += its[last:]
        return mkstr(out, SymBytes if isinstance(s, bytes) else None), n

    def split(self, s, maxsplit=0):
        its = self._items(s)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(its[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(mkstr(its[last:]))
        return out


class _DummyPat:
    def __init__(self, p):
        self.groups = p.groups
        self.groupindex = p.groupindex
        self.pattern = ''


class SymMatch:
    def __init__(self, pat, s, its, start, end, groups):
        self.re = pat
        self.string = s
        self._its = its
        self.pos = 0
        self.endpos = len(its)
        self._g = dict(groups)
        self._g[0] = (start, end)

    def __bool__(self):
        return True

    def _idx(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        if g < 0 or g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, default=None):
        sp = self._g.get(self._idx(g))
        if sp is None:
            return default
        return mkstr(self._its[sp[0]:sp[1]], SymBytes if isinstance(self.string, bytes) else None)

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(i, default) for k, i in self.re.groupindex.items()}

    def start(self, g=0):
        sp = self._g.get(self._idx(g))
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._g.get(self._idx(g))
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        return (self.start(g), self.end(g))

    @property
    def lastindex(self):
        best = None
        for i in range(1, self.re.groups + 1):
            if self._g.get(i) is not None:
                if best is None or self._g[i][1] >= self._g[best][1]:
                    best = i if best is None or self._g[i][1] > self._g[best][1] else best
        return best

    def _expand(self, tmpl):
        out = []
        for t in tmpl:
            if isinstance(t, int):
                g = self._one(t)
                out += items_of(g) if g is not None else []
            else:
                out += items_of(t)
        return mkstr(out)

    def expand(self, template):
        return self._expand(sre_parse.parse_template(template, _DummyPat(self.re)))


_catcache = {}


def _cat(cat, flags, ch):
    if flags & re.ASCII:
        rx = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s',
              C.CATEGORY_NOT_SPACE: r'\S', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}[cat]
        return re.match(rx, ch, re.ASCII) is not None
    if cat == C.CATEGORY_DIGIT:
        return ch.isdecimal()
    if cat == C.CATEGORY_NOT_DIGIT:
        return not ch.isdecimal()
    if cat == C.CATEGORY_SPACE:
        return ch.isspace()
    if cat == C.CATEGORY_NOT_SPACE:
        return not ch.isspace()
    if cat == C.CATEGORY_WORD:
        return ch.isalnum() or ch == '_'
    if cat == C.CATEGORY_NOT_WORD:
        return not (ch.isalnum() or ch == '_')
    raise Unsupported('regex category %s' % cat)


def it_eq_fold(a, b):
    """Formula: the characters are the same or differ in case only."""
    da = core.mask_values(it_dom(a)) if type(a) is not int else [a]
    db = core.mask_values(it_dom(b)) if type(b) is not int else [b]
    by = {}
    for v in da:
        by.setdefault(chr(v).lower(), [0, 0])[0] |= 1 << v
    for v in db:
        by.setdefault(chr(v).lower(), [0, 0])[1] |= 1 << v
    return mk_or([mk_and([it_mask(a, x), it_mask(b, y)]) for x, y in by.values() if x and y])


def _in_set(av, flags, cp):
    neg = False
    res = False
    ch = chr(cp)
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            if a == cp or (flags & re.IGNORECASE and chr(a).lower() == ch.lower()):
                res = True
        elif op is C.RANGE:
            if a[0] <= cp <= a[1]:
                res = True
            elif flags & re.IGNORECASE:
                for c2 in (ch.lower(), ch.upper()):
                    if len(c2) == 1 and a[0] <= ord(c2) <= a[1]:
                        res = True
        elif op is C.CATEGORY:
            if _cat(a, flags, ch):
                res = True
        else:
            raise Unsupported('regex set member %s' % op)
    return res != neg


class Matcher:
    def __init__(self, pat, its):
        self.pat = pat
        self.its = its
        self.n = len(its)
        self.flags = pat.flags
        self.place = pat.place
        self.steps = 0

    def run(self, nodes, pos, groups, full):
        def fin(i, g):
            if full and i != self.n:
                return None
            return (i, g)
        return self.seq(nodes, 0, pos, groups, fin)

    def setmask(self, op, av, flags, dom):
        key = (op, repr(av), flags & (re.IGNORECASE | re.ASCII), dom)
        m = _catcache.get(key)
        if m is None:
            m = 0
            for v in core.mask_values(dom):
                if _in_set(av, flags, v):
                    m |= 1 << v
            _catcache[key] = m
        return m

    def charf(self, op, av, i):
        """Formula: character i matches the single-character node."""
        it = self.its[i]
        flags = self.flags
        if op is C.LITERAL or op is C.NOT_LITERAL:
            if av in self.place:
                f = it_eq_fold(it, self.place[av]) if flags & re.IGNORECASE else it_eq(it, self.place[av])
            elif flags & re.IGNORECASE:
                f = it_mask(it, self.setmask(op, [(C.LITERAL, av)], flags, it_dom(it)))
            else:
                f = it_mask(it, 1 << av)
            return mk_not(f) if op is C.NOT_LITERAL else f
        if op is C.ANY:
            if flags & re.DOTALL:
                return True
            return mk_not(it_mask(it, 1 << 10))
        if op is C.IN:
            syms = [a for o, a in av if o is C.LITERAL and a in self.place]
            if syms:
                neg = any(o is C.NEGATE for o, a in av)
                rest = [(o, a) for o, a in av if not (o is C.LITERAL and a in self.place) and o is not C.NEGATE]
                if any(o is C.RANGE and (a[0] in self.place or a[1] in self.place) for o, a in rest):
                    raise Unsupported('symbolic range in pattern')
                eq = it_eq_fold if flags & re.IGNORECASE else it_eq
                f = mk_or([eq(it, self.place[a]) for a in syms]
                          + [it_mask(it, self.setmask(op, rest, flags, it_dom(it)))])
                return mk_not(f) if neg else f
            return it_mask(it, self.setmask(op, av, flags, it_dom(it)))
        raise Unsupported('regex node %s' % op)

    def test(self, op, av, i):
        return bool(mkbool(self.charf(op, av, i)))

    def is_word(self, i):
        if i < 0 or i >= self.n:
            return False
        return self.test(C.IN, [(C.CATEGORY, C.CATEGORY_WORD)], i)

    def at(self, av, i):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and self.flags & re.MULTILINE:
                return i == 0 or self.test(C.LITERAL, 10, i - 1)
            return i == 0
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            if i == self.n:
                return True
            if self.flags & re.MULTILINE:
                return self.test(C.LITERAL, 10, i)
            return i == self.n - 1 and self.test(C.LITERAL, 10, i)
        if av is C.AT_BOUNDARY:
            return self.is_word(i - 1) != self.is_word(i)
        if av is C.AT_NON_BOUNDARY:
            return self.is_word(i - 1) == self.is_word(i)
        raise Unsupported('regex anchor %s' % av)

    def seq(self, nodes, k, i, g, cont):
        """Match nodes[k:] at i, then cont(i, groups); first success wins."""
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('regex step bound')
        if k == len(nodes):
            return cont(i, g)
        op, av = nodes[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= self.n or not self.test(op, av, i):
                return None
            return self.seq(nodes, k + 1, i + 1, g, cont)
        if op is C.AT:
            if not self.at(av, i):
                return None
            return self.seq(nodes, k + 1, i, g, cont)
        if op is C.SUBPATTERN:
            group, addf, delf, p = av
            if addf or delf:
                raise Unsupported('inline regex flags')

            def after(j, g2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (i, j)
                return self.seq(nodes, k + 1, j, g2, cont)
            return self.seq(list(p), 0, i, g, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, lambda j, g2: self.seq(nodes, k + 1, j, g2, cont))
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            nxt = lambda j, g2: self.seq(nodes, k + 1, j, g2, cont)
            if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                return self.single(p[0], lo, hi, op is C.MAX_REPEAT, i, g, nxt)
            return self.rep(p, lo, hi, op is C.MAX_REPEAT, i, g, nxt, 0, -1)
        if op is getattr(C, 'POSSESSIVE_REPEAT', None):
            lo, hi, p = av
            r = self.rep(list(p), lo, hi, True, i, g, lambda j, g2: (j, g2), 0, -1)
            if r is None:
                return None
            return self.seq(nodes, k + 1, r[0], r[1], cont)
        if op is getattr(C, 'ATOMIC_GROUP', None):
            r = self.seq(list(av), 0, i, g, lambda j, g2: (j, g2))
            if r is None:
                return None
            return self.seq(nodes, k + 1, r[0], r[1], cont)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction >= 0:
                r = self.seq(list(p), 0, i, g, lambda j, g2: (j, g2))
            else:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise re.error('look-behind requires fixed-width pattern')
                st = i - w[0]
                r = None if st < 0 else self.seq(list(p), 0, st, g, lambda j, g2: (j, g2) if j == i else None)
            if (r is not None) != (op is C.ASSERT):
                return None
            return self.seq(nodes, k + 1, i, r[1] if (r is not None and op is C.ASSERT) else g, cont)
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return None
            w = sp[1] - sp[0]
            if i + w > self.n:
                return None
            f = mk_and([it_eq(self.its[sp[0] + d], self.its[i + d]) for d in range(w)])
            if not bool(mkbool(f)):
                return None
            return self.seq(nodes, k + 1, i + w, g, cont)
        if op is C.GROUPREF_EXISTS:
            cond, yes, no = av
            br = yes if g.get(cond) is not None else no
            return self.seq(list(br) if br else [], 0, i, g, lambda j, g2: self.seq(nodes, k + 1, j, g2, cont))
        raise Unsupported('regex node %s' % op)

    def single(self, node, lo, hi, greedy, i, g, nxt):
        op, av = node
        if hi is C.MAXREPEAT:
            hi = self.n
        if greedy:
            j = i
            while j < self.n and j - i < hi and self.test(op, av, j):
                j += 1
            while j - i >= lo:
                r = nxt(j, g)
                if r is not None:
                    return r
                j -= 1
            return None
        j = i
        while j - i < lo:
            if j >= self.n or not self.test(op, av, j):
                return None
            j += 1
        while True:
            r = nxt(j, g)
            if r is not None:
                return r
            if j - i >= hi or j >= self.n or not self.test(op, av, j):
                return None
            j += 1

    def rep(self, p, lo, hi, greedy, i, g, nxt, count, last):
        if count < lo:
            return self.seq(p, 0, i, g, lambda j, g2: self.rep(p, lo, hi, greedy, j, g2, nxt, count + 1, i))
        if greedy:
            if (hi is C.MAXREPEAT or count < hi) and i != last:
                r = self.seq(p, 0, i, g, lambda j, g2: self.rep(p, lo, hi, greedy, j, g2, nxt, count + 1, i))
                if r is not None:
                    return r
            return nxt(i, g)
        r = nxt(i, g)
        if r is not None:
            return r
        if (hi is C.MAXREPEAT or count < hi) and i != last:
            return self.seq(p, 0, i, g, lambda j, g2: self.rep(p, lo, hi, greedy, j, g2, nxt, count + 1, i))
        return None
