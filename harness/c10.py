from resync.w3c_datetime import datetime_to_str, str_to_datetime

INFO = {
    'bounds': 'parse: every text of 0-28 characters over digits, a non-ASCII digit, - : . + T t Z z blank and newline, with '
              'years out of 0000-0001, 1900, 1999-2001, 2004, 2010-2019 (quick; all years 0000-9999 thorough for the short forms) '
              'and up to 8 fraction digits; format: every multiple of 1/1024 s (also offset by 2047/2**21 s) within a second at three seconds of each of five '
              'days between 1971 and 2037, every whole second within windows of 3 months between 1971 and 2100',
    'outside': 'longer texts (other numbers of fraction digits); times before 1970-07-14 when formatted or parsed with fractions',
    'assumptions': ['datetime, calendar and dateutil behave as modelled (the models are validated against the real ones on '
                    'sampled paths)'],
}
JUNK = '-:.+TtZz \n\u0663'
DIG = '0123456789'


def digits(sx, s, i, k):
    """ASCII digits at i..i+k-1 (forks)."""
    if i + k > len(s):
        return False
    for c in s[i:i + k]:
        if not sx.and_(c >= '0', c <= '9'):
            return False
    return True


def days(y, m, d):
    """Days from 1970-01-01 in the proleptic Gregorian calendar."""
    if m <= 2:
        y -= 1
        m += 12
    return 365 * y + y // 4 - y // 100 + y // 400 + (153 * (m - 3) + 2) // 5 + d - 719469


def month_length(y, m):
    if m == 2:
        return 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def spec(sx, s):
    """(whole seconds, fraction digits or '', signed offset in seconds) or None."""
    n = len(s)
    if not digits(sx, s, 0, 4):
        return None
    y, mo, d, h, mi, sec, frac, off = int(s[0:4]), 1, 1, 0, 0, 0, '', 0
    i = 4
    timed = False
    if n > 4:
        if s[4] != '-' or not digits(sx, s, 5, 2):
            return None
        mo, i = int(s[5:7]), 7
        if n > 7:
            if s[7] != '-' or not digits(sx, s, 8, 2):
                return None
            d, i = int(s[8:10]), 10
            if n > 10:
                if s[10] != 'T' or not digits(sx, s, 11, 2) or n < 14 or s[13] != ':' or not digits(sx, s, 14, 2):
                    return None
                h, mi, i = int(s[11:13]), int(s[14:16]), 16
                if i < n and s[i] == ':':
                    if not digits(sx, s, 17, 2):
                        return None
                    sec, i = int(s[17:19]), 19
                    if i < n and s[i] == '.':
                        j = i + 1
                        while j < n and sx.and_(s[j] >= '0', s[j] <= '9'):
                            j += 1
                        if j == i + 1:
                            return None
                        frac, i = s[i + 1:j], j
                if i >= n:
                    return None
                if s[i] == 'Z':
                    i += 1
                else:
                    if not sx.or_(s[i] == '+', s[i] == '-'):
                        return None
                    if not digits(sx, s, i + 1, 2) or i + 3 >= n or s[i + 3] != ':' or not digits(sx, s, i + 4, 2):
                        return None
                    oh, om = int(s[i + 1:i + 3]), int(s[i + 4:i + 6])
                    if sx.or_(oh > 23, om > 59):
                        return None
                    off = oh * 3600 + om * 60
                    if s[i] == '-':
                        off = -off
                    i += 6
    if i != n:
        return None
    if sx.or_(y < 1, mo < 1, mo > 12):
        return None
    y = int(sx.concrete(y))
    mo = int(sx.concrete(mo))
    if sx.or_(d < 1, d > month_length(y, mo), h > 23, mi > 59, sec > 59):
        return None
    return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + sec, frac, off


def verify(sx, s):
    o = sx.attempt(str_to_datetime, s)
    want = spec(sx, s)
    if want is None:
        sx.check(not o.ok, 'a text that is no W3C datetime is refused')
        sx.check(o.kind in ('ValueError', 'ParserError'), 'it is refused with a value error')
        sx.check(isinstance(o.exc, ValueError), 'it is refused with a value error')
        sx.reach('refused')
        return
    sx.check(o.ok, 'a W3C datetime is accepted')
    secs, frac, off = want
    nd = len(frac)
    if nd == 0:
        right = sx.eq(o.value, secs - off)
        wrong = sx.eq(o.value, secs + off)
    else:
        f = int(frac)
        tol = 10 ** nd / 2.0 ** 21
        e1 = (o.value - (secs - off)) * 10 ** nd - f
        e2 = (o.value - (secs + off)) * 10 ** nd - f
        right = sx.and_(e1 <= tol, e1 >= -tol)
        wrong = sx.and_(e2 <= tol, e2 >= -tol)
        sx.reach('fraction')
    if right:
        sx.reach('accepted')
    else:
        # KF-C10-offset: offsets are added instead of subtracted (the repository's own tests demand it)
        sx.check(sx.and_(off != 0, wrong), 'the value is the instant denoted')
        sx.known('KF-C10-offset')
        sx.reach('offset')


def text(sx, n, years, rest):
    """A text of n characters: `years` gives the alphabets of the first four."""
    s = ''
    for i in range(min(n, 4)):
        s += sx.strn('y%d' % i, years[i], 1)
    if n > 4:
        s += sx.strn('s', rest, n - 4)
    return s


def p_short(sx):
    """Date only forms, all characters free."""
    n = sx.choice('n', list(range(0, 13)))
    if sx.thorough and n <= 4:
        years = [DIG + JUNK] * 4
    else:
        years = sx.choice('years', [['0', '0', '0', '01'], ['1', '9', '90', '90'], ['2', '0', '0', '0145'], ['2', '0', '1', DIG],
                                    ['2' + JUNK] * 4])
    verify(sx, text(sx, n, years, DIG + JUNK))


TEMPLATES = ['Tdd:ddZ', 'Tdd:dd+dd:dd', 'Tdd:dd:ddZ', 'Tdd:dd:dd-dd:dd', 'Tdd:dd:dd.ddZ', 'Tdd:dd:dd.d+dd:dd']


def p_time(sx):
    """Forms with a time: any three (two) neighbouring characters free, all digits free."""
    t = sx.choice('form', TEMPLATES)
    k = 3 if sx.thorough else 2
    i = sx.choice('at', list(range(len(t))))
    s = '2012-02-29'
    for j, c in enumerate(t):
        if i <= j < i + k:
            s += sx.strn('c%d' % j, DIG + JUNK, 1)
        elif c == 'd':
            s += sx.strn('c%d' % j, DIG, 1)
        else:
            s += c
    cut = sx.choice('cut', ['no', 'drop', 'more'])
    if cut == 'drop':
        s = s[:10 + i] + s[11 + i:]
    elif cut == 'more':
        s = s[:10 + i] + sx.strn('more', DIG + JUNK, 1) + s[10 + i:]
    verify(sx, s)


def p_year(sx):
    """Every year (thorough)."""
    s = sx.strn('y', DIG, 4) + sx.choice('rest', ['', '-02-29', '-12-31T23:59:59Z'])
    verify(sx, s)


def p_zone(sx):
    """Forms with fraction and zone: every digit free, separators free."""
    z = sx.choice('zone', ['Z', '+dd:dd', '-dd:dd'])
    k = sx.choice('frac', [0, 1, 3, 6, 8])
    t = '2012-02-29T' + sx.strn('h', DIG, 2) + ':' + sx.strn('m', DIG, 2) + ':' + sx.strn('sec', DIG, 2)
    if k:
        t += '.' + sx.strn('f', DIG, k)
    for i, c in enumerate(z):
        t += sx.strn('z%d' % i, DIG, 1) if c == 'd' else c
    t += sx.str('tail', '0Z\n', 0, 1)
    verify(sx, t)


def check_text(sx, s, frac):
    n = 20 + (7 if frac else 0)
    sx.check(len(s) == n, 'Z notation has a fixed form')
    sx.check(s.endswith('Z'), 'formatting produces Z notation')
    shape = 'dddd-dd-ddTdd:dd:dd' + ('.dddddd' if frac else '') + 'Z'
    fs = []
    for c, f in zip(s, shape):
        fs.append(sx.and_(c >= '0', c <= '9') if f == 'd' else c == f)
    sx.check(sx.and_(*fs), 'formatting produces Z notation')


WINDOWS = [34560000, 951782400 - 86400, 1078012800, 1577836800, 2 ** 31 - 40000, 2 ** 30 + 10 ** 6, 4107456000]


def p_whole(sx):
    w = sx.choice('window', WINDOWS)
    t = w + sx.int('t', 0, 90 * 86400)
    s = datetime_to_str(t, no_fractions=sx.flag('nofrac'))
    check_text(sx, s, False)
    sx.check(sx.eq(str_to_datetime(s), t), 'formatting and parsing gives the same instant')
    sx.reach('done')


def p_frac(sx):
    w = sx.choice('window', WINDOWS[1:6])
    t = w + sx.choice('sec', [0, 59, 86399]) + sx.ts('t', 0, 1, 10) + \
        sx.choice('low', [0, 1, 3, 1023, 2047] if sx.thorough else [0, 2047]) / 2.0 ** 21
    if sx.flag('nofrac'):
        s = datetime_to_str(t, no_fractions=True)
        check_text(sx, s, False)
        sx.check(sx.eq(str_to_datetime(s), int(t)), 'without fractions the second is kept')
        sx.reach('cut')
        return
    s = datetime_to_str(t)
    check_text(sx, s, len(s) != 20)
    d = str_to_datetime(s) - t
    sx.check(sx.and_(d < 0.000001, d > -0.000001), 'formatting and parsing gives the same instant to the microsecond')
    sx.reach('frac' if len(s) != 20 else 'none')


HARNESSES = [
    ('short', p_short, {'expect': ['refused', 'accepted']}),
    ('time', p_time, {'expect': ['refused', 'accepted', 'fraction', 'offset']}),
    ('zone', p_zone, {'expect': ['refused', 'accepted', 'fraction', 'offset']}),
    ('year', p_year, {'expect': ['refused', 'accepted'], 'thorough_only': True}),
    ('whole', p_whole, {'expect': ['done']}),
    ('frac', p_frac, {'expect': ['frac', 'none', 'cut']}),
]
