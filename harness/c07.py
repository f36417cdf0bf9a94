"""C07 dates and times"""
import datetime
from symx.api import obligation
from harness.util import produce

DIG = [(48, 57)]


def days(S, y, m):
    leap = S.all(y % 4 == 0, S.any(y % 100 != 0, y % 400 == 0))
    feb = S.ite(leap, 29, 28)
    return S.ite(m == 2, feb, S.ite(S.any(m == 4, m == 6, m == 9, m == 11), 30, 31))


def digits(S, name, n):
    return S.str(name, n, n, DIG)


def valid_date(S, y, m, d):
    return S.all(y >= 1, m >= 1, m <= 12, d >= 1, d <= days(S, y, m))


def convert(S, fmt, v, ok):
    """the converted value, or None if it was rejected"""
    try:
        r = produce({'type': 'string', 'format': fmt}, v)
    except (ValueError, TypeError, OverflowError):
        S.check(S.not_(ok), 'a valid text is rejected')
        S.observe('r', 'rejected')
        return None
    S.check(ok, 'an invalid text is accepted')
    return r


@obligation('date', bounds='every dddd-dd-dd text: years 0000..9999, months and days 00..99')
def date(S):
    yt, mt, dt = digits(S, 'y', 4), digits(S, 'm', 2), digits(S, 'd', 2)
    y, m, d = int(yt), int(mt), int(dt)
    t = '-'.join([yt, mt, dt])
    r = convert(S, 'date', t, valid_date(S, y, m, d))
    if r is None:
        return
    S.check(S.same(str(r), t), 'the text of the date is another one')
    S.check(S.same(r.to_json(), t), 'the JSON form of the date is another one')
    S.check(S.all(r.v.year == y, r.v.month == m, r.v.day == d), 'the date is another one')
    S.observe('r', str(r))


def rest(S, n):
    """fraction digits: text, microseconds"""
    if n == 0:
        return '', 0
    f = digits(S, 'f', n)
    u = int((f + '000000')[:6])
    return '.' + f, u


def expected(date, hh, mm, ss, us, tz):
    t = date + 'T' + hh + ':' + mm + ':' + ss
    if us != 0:
        t += '.{0:06d}'.format(us)
    return t + tz


@obligation('time', bounds='every time of day 00:00:00..99:99:99 on a leap day, fraction of 0, 1, 3, 6, 7 or 9 digits, no offset, Z or z',
            cases=[dict(frac=f, tz=z) for f, z in [(0, ''), (0, 'Z'), (1, 'Z'), (3, ''), (6, 'Z'), (7, 'z'), (9, '')]],
            thorough=[dict(frac=f, tz=z) for f in range(10) for z in ('', 'Z', 'z')])
def time(S, frac, tz):
    hh, mm, ss = digits(S, 'H', 2), digits(S, 'M', 2), digits(S, 'S', 2)
    ft, us = rest(S, frac)
    date = '2020-02-29'
    t = date + 'T' + hh + ':' + mm + ':' + ss + ft + tz
    ok = S.all(int(hh) <= 23, int(mm) <= 59, int(ss) <= 59)
    r = convert(S, 'date-time', t, ok)
    if r is None:
        return
    S.check(S.same(str(r), expected(date, hh, mm, ss, us, '+00:00' if tz else '')), 'the text denotes another instant')
    v = r.v
    S.check(S.all(v.hour == int(hh), v.minute == int(mm), v.second == int(ss), v.microsecond == us), 'the value is another instant')
    S.observe('r', str(r))


@obligation('day', bounds='every dddd-dd-dd before a time, T, t or space between them, an hour 00..23')
def day(S):
    yt, mt, dt, hh = digits(S, 'y', 4), digits(S, 'm', 2), digits(S, 'd', 2), digits(S, 'H', 2)
    S.assume(int(hh) <= 23)
    date = '-'.join([yt, mt, dt])
    t = date + S.choice('T', ['T', 't', ' ']) + hh + ':00:59Z'
    r = convert(S, 'date-time', t, valid_date(S, int(yt), int(mt), int(dt)))
    if r is None:
        return
    S.check(S.same(str(r), date + 'T' + hh + ':00:59+00:00'), 'the text denotes another instant')


@obligation('offset', bounds='every offset -99:99..+99:99 on a symbolic time of day, fraction of 0, 2 or 8 digits',
            cases=[dict(frac=f) for f in (0, 2)], thorough=[dict(frac=f) for f in (0, 2, 6, 8)], budget=150)
def offset(S, frac):
    hh, mm = digits(S, 'H', 2), digits(S, 'M', 2)
    oh, om = digits(S, 'oh', 2), digits(S, 'om', 2)
    sign = S.choice('sign', ['+', '-'])
    ft, us = rest(S, frac)
    date = '2020-02-29'
    t = date + 'T' + hh + ':' + mm + ':07' + ft + sign + oh + ':' + om
    S.assume(S.all(int(hh) <= 23, int(mm) <= 59))
    ok = S.all(int(oh) <= 23, int(om) <= 59)
    r = convert(S, 'date-time', t, ok)
    if r is None:
        return
    mins = (int(oh) * 60 + int(om)) * (1 if sign == '+' else -1)
    off = sign + oh + ':' + om
    if mins == 0:
        off = '+00:00'
    S.check(S.same(str(r), expected(date, hh, mm, '07', us, off)), 'the text denotes another instant')
    S.check(r.v.utcoffset() == datetime.timedelta(minutes=mins), 'the offset is another one')
    S.observe('r', str(r))


@obligation('two', bounds='two date-times converted one after the other, each with any valid offset -23:59..+23:59 (the hours of both are the same or any)')
def two(S):
    oh = digits(S, 'oh', 2)
    vals = []
    for k in (1, 2):
        h = oh if k == 1 or S.choice('same', [True, False]) else digits(S, 'oh2', 2)
        om = digits(S, 'om%d' % k, 2)
        sign = S.choice('sign%d' % k, ['+', '-'])
        S.assume(S.all(int(h) <= 23, int(om) <= 59))
        t = '2020-02-29T10:11:12' + sign + h + ':' + om
        vals.append((produce({'type': 'string', 'format': 'date-time'}, t), sign, h, om))
    for r, sign, h, om in vals:
        mins = (int(h) * 60 + int(om)) * (1 if sign == '+' else -1)
        S.check(r.v.utcoffset() == datetime.timedelta(minutes=mins), 'the offset is another one')
        S.check(S.same(str(r), expected('2020-02-29', '10', '11', '12', 0, sign + h + ':' + om if mins != 0 else '+00:00')), 'the text denotes another instant')


@obligation('short-time', bounds='texts without seconds, with one digit of seconds; date-only text given for a date-time and the reverse')
def short(S):
    hh, mm, s = digits(S, 'H', 2), digits(S, 'M', 2), digits(S, 's', 1)
    form = S.choice('form', [0, 1, 2, 3, 4])
    t = '2020-02-29' + ['T' + hh + ':' + mm, 'T' + hh + ':' + mm + 'Z', 'T' + hh + ':' + mm + ':' + s, '', 'T' + hh + ':' + mm][form]
    ok = True if form == 3 else S.all(int(hh) <= 23, int(mm) <= 59)
    r = convert(S, 'date' if form == 4 else 'date-time', t, ok)
    if r is None:
        return
    want = ['2020-02-29T' + hh + ':' + mm + ':00', '2020-02-29T' + hh + ':' + mm + ':00+00:00', '2020-02-29T' + hh + ':' + mm + ':0' + s,
            '2020-02-29T00:00:00', '2020-02-29'][form]
    S.check(S.same(str(r), want), 'the text denotes another instant')


@obligation('date-of-time', bounds='a date-time text of any hour and any valid offset -23:59..+23:59 on one of 5 days, given where a date is declared: the date as written')
def date_of_time(S):
    hh, oh, om = digits(S, 'H', 2), digits(S, 'oh', 2), digits(S, 'om', 2)
    S.assume(int(hh) <= 23)
    S.assume(int(oh) <= 23)
    S.assume(int(om) <= 59)
    day = S.choice('day', ['2020-02-29', '2019-12-31', '2020-01-01', '0001-01-01', '9999-12-31'])
    t = day + 'T' + hh + ':30:00' + S.choice('sign', ['+', '-']) + oh + ':' + om
    S.check(S.same(str(produce({'type': 'string', 'format': 'date'}, t)), day), 'the date is another one')


@obligation('malformed-date', bounds='every text of 9 to 11 characters of any kind', cases=[dict(n=n) for n in (9, 10, 11)])
def malformed(S, n):
    t = S.str('t', n, n)
    shape = False
    if n == 10:
        shape = S.all(*[S.all(t[i] >= '0', t[i] <= '9') if i not in (4, 7) else t[i] == '-' for i in range(10)])
    if shape:
        ok = valid_date(S, int(t[0:4]), int(t[5:7]), int(t[8:10]))
    else:
        ok = False
    r = convert(S, S.choice('fmt', ['date', 'date-time']), t, ok)
    if r is not None:
        S.check(S.same(str(r)[:10], t), 'the text of the date is another one')


@obligation('malformed-time', bounds='a valid date followed by T and any 6 to 8 characters; a valid date-time followed by up to 3 characters of any kind',
            cases=[dict(n=n, tail=False) for n in (5, 7, 8)] + [dict(n=n, tail=True) for n in (1, 2, 3)])
def malformed_time(S, n, tail):
    t = S.str('t', n, n)
    if not tail and n == 8:
        S.assume(S.all(t[7] != 'Z', t[7] != 'z'))
    if tail:
        if t[0] == '.':
            if n == 1:
                ok = False
            else:
                last = S.any(t[n - 1] == 'Z', t[n - 1] == 'z') if n == 3 else False
                ok = S.all(*[S.all(c >= '0', c <= '9') for c in (t[1:] if not last else t[1:-1])])
        else:
            ok = S.all(n == 1, S.any(t[0] == 'Z', t[0] == 'z'))
        given = '2020-02-29T10:20:30' + t
    else:
        def two(i):
            return S.all(t[i] >= '0', t[i] <= '9', t[i + 1] >= '0', t[i + 1] <= '9')
        given = '2020-02-29T' + t
        if n == 5:
            shape = S.all(two(0), t[2] == ':', two(3))
        elif n == 7:
            shape = S.all(two(0), t[2] == ':', two(3), t[5] == ':', t[6] >= '0', t[6] <= '9')
        else:
            shape = S.all(two(0), t[2] == ':', two(3), t[5] == ':', two(6))
        if shape:
            ok = S.all(int(t[0:2]) <= 23, int(t[3:5]) <= 59, int(t[6:8]) <= 59 if n > 5 else True)
        else:
            ok = False
    convert(S, 'date-time', given, ok)


@obligation('objects', bounds='every date object of 1..9999; naive datetimes of every year and second of the day; a datetime given for a date')
def objects(S):
    y, m, d = S.int('y', 1, 9999), S.int('m', 1, 12), S.int('d', 1, 31)
    S.assume(d <= days(S, y, m))
    kind = S.choice('kind', ['date', 'datetime', 'both'])
    dt = '{0:04d}-{1:02d}-{2:02d}'.format(y, m, d)
    if kind == 'date':
        r = produce({'type': 'string', 'format': 'date'}, datetime.date(y, m, d))
        S.check(S.same(str(r), dt), 'the text of the date is another one')
        return
    m, d = 2, 28
    dt = '{0:04d}-02-28'.format(y)
    h, mi, s = S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59)
    v = datetime.datetime(y, m, d, h, mi, s)
    if kind == 'both':
        r = produce({'type': 'string', 'format': 'date'}, v)
        S.check(S.same(str(r), dt), 'the text of the date is another one')
        return
    r = produce({'type': 'string', 'format': 'date-time'}, v)
    S.check(S.same(str(r), '{0}T{1:02d}:{2:02d}:{3:02d}'.format(dt, h, mi, s)), 'the text of the date-time is another one')


@obligation('timestamp', bounds='timestamps of whole seconds 0..2 days, also with 3/4 s, as float, for date and date-time')
def timestamp(S):
    k = S.int('k', 0, 2 * 86400 - 1)
    f = S.choice('f', [0, 0.75])
    r = produce({'type': 'string', 'format': 'date-time'}, float(k) + f)
    day, sec = k // 86400, k % 86400
    want = '1970-01-{0:02d}T{1:02d}:{2:02d}:{3:02d}'.format(day + 1, sec // 3600, sec // 60 % 60, sec % 60)
    want = want + ('.750000' if f else '')
    S.check(S.same(str(r), want), 'the timestamp is converted to another instant')
    S.check(S.same(str(produce({'type': 'string', 'format': 'date'}, float(k) + f)), want[:10]), 'the timestamp is converted to another date')


@obligation('places', bounds='dates as property, item, parameter and header value: sent text of every day of 2020', budget=90)
def places(S):
    m, d = S.int('m', 1, 12), S.int('d', 1, 31)
    S.assume(d <= days(S, 2020, m))
    t = '2020-{0:02d}-{1:02d}'.format(m, d)
    f = {'type': 'string', 'format': 'date'}
    where = S.choice('where', ['prop', 'items', 'param', 'date-time'])
    if where == 'prop':
        got = produce({'type': 'object', 'properties': {'x': f}}, {'x': t})['x']
    elif where == 'items':
        got = produce({'type': 'array', 'items': f}, [t])[0]
    elif where == 'param':
        got = produce(f, t, kind='param')
    else:
        got = produce(dict(f, format='date-time'), t)
        t = t + 'T00:00:00'
    S.check(S.same(got.to_json(), t), 'the JSON form of the date is another one')
    S.check(S.same(str(got), t), 'the text of the date is another one')
