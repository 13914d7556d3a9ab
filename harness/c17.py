from harness.common import num

COVERS = ['14 digits', 'short', 'clamped', 'leap day', 'not a number', 'long', 'tz aware', 'empty', 'round trip seconds', 'spaces or signs']
BOUNDS = ('every text of length 0 to 16 of digits; every complete 14-digit timestamp; every two printable ASCII characters '
          'and every single code point at every position of timestamps of several lengths (thorough: three and two, all lengths, four at length 14); 14 digits followed by arbitrary text of any length up to 1000')
OUTSIDE = 'several non-digit characters in more than one field at once (thorough: two fields)'


def days_in(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def clampi(x, lo, hi):
    return max(lo, min(x, hi))


def fields(dt):
    return [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second]


def valid(S):
    """arbitrary valid moment as 14 digits and fields"""
    ts = S.str('ts', 14, ranges=((48, 57),))
    y, mo, d = dig(ts, 0, 4), dig(ts, 4, 6), dig(ts, 6, 8)
    h, mi, s = dig(ts, 8, 10), dig(ts, 10, 12), dig(ts, 12, 14)
    S.assume(1900 <= y <= 2999)
    S.assume(1 <= mo <= 12)
    S.assume(1 <= d <= 31)
    S.assume(h <= 23)
    S.assume(mi <= 59)
    S.assume(s <= 59)
    S.assume(d <= days_in(y, mo))
    return ts, (y, mo, d, h, mi, s)


def complete(S, tz, tail):
    """a complete valid timestamp denotes its moment"""
    from warcio.timeutils import timestamp_to_datetime
    from datetime import timezone
    ts, f = valid(S)
    if tail:
        ts = ts + S.text_blob('tail', 0, 1000) + S.str('t1', 1, ranges=((0, 0x10ffff),))
        S.cover('long')
    dt = timestamp_to_datetime(ts, tz_aware=bool(tz)) if tz else timestamp_to_datetime(ts)
    S.check_eq(fields(dt), list(f), 'the moment it denotes')
    S.check_eq(dt.microsecond, 0, 'no fraction')
    if tz:
        S.check(dt.tzinfo is timezone.utc, 'in UTC')
        S.cover('tz aware')
    else:
        S.check(dt.tzinfo is None, 'naive')
    if f[1] == 2 and f[2] == 29:
        S.cover('leap day')
    S.cover('14 digits')
    S.observe('dt', fields(dt))


def dig(ts, a, b):
    n = 0
    for i in range(a, b):
        n = n * 10 + (ord(ts[i]) - 48)
    return n


def digits(S, n):
    """any text of n digits: fields clamped, missing ones at their latest value"""
    from warcio.timeutils import timestamp_to_datetime
    ts = S.str('t', n, ranges=((48, 57),))
    dt = timestamp_to_datetime(ts)
    full = ts + '299912'[n:] if n < 6 else ts
    y = clampi(dig(full, 0, 4), 1900, 2999)
    mo = clampi(dig(full, 4, 6), 1, 12)
    d = days_in(y, mo)
    if n >= 8:
        d = clampi(dig(ts, 6, 8), 1, d)
    h = clampi(dig(ts, 8, 10), 0, 23) if n >= 10 else 23
    mi = clampi(dig(ts, 10, 12), 0, 59) if n >= 12 else 59
    s = clampi(dig(ts, 12, 14), 0, 59) if n >= 14 else 59
    S.check_eq(fields(dt), [y, mo, d, h, mi, s], 'clamped fields')
    S.cover('short' if n < 14 else 'clamped')
    if n == 0:
        S.cover('empty')
    S.observe('dt', fields(dt))


def anything(S, pos, k, n, wide):
    """any characters at some positions: never fails, valid result, other fields as they are"""
    from warcio.timeutils import timestamp_to_datetime
    rng = ((0, 0x10ffff),) if wide else ((32, 126),)
    base = '20240229071542'[:n]
    bad = S.str('c', k, ranges=rng)
    ts = base[:pos] + bad + base[pos + k:]
    dt = timestamp_to_datetime(ts)
    got = fields(dt)
    S.check(1900 <= dt.year <= 2999, 'year in range')
    S.check(1 <= dt.month <= 12, 'month in range')
    S.check(1 <= dt.day <= days_in(dt.year, dt.month), 'day in range')
    S.check(0 <= dt.hour <= 23 and 0 <= dt.minute <= 59 and 0 <= dt.second <= 59, 'time in range')
    lim = [(0, 4, 1900, 2999), (4, 6, 1, 12), (6, 8, 1, None), (8, 10, 0, 23), (10, 12, 0, 59), (12, 14, 0, 59)]
    for i, (a, b, lo, hi) in enumerate(lim):
        if b > len(ts):
            continue
        t = ts[a:b]
        if hi is None:
            hi = days_in(dt.year, dt.month)
        plain = True
        for c in t:
            if not ('0' <= c <= '9'):
                plain = False
                break
        if plain:
            S.check_eq(got[i], clampi(dig(ts, a, b), lo, hi), 'field %d' % i)
        elif not wide:
            # not a number (int() also takes a sign, blanks around and single underscores between digits)
            if '+' in t or '-' in t or ' ' in t or '_' in t:
                S.check(lo <= got[i] <= hi, 'field %d in range' % i)
                S.cover('spaces or signs')
            else:
                S.check_eq(got[i], hi, 'field %d that is not numeric is its latest value' % i)
                S.cover('not a number')
    S.observe('dt', got)


def secs(S):
    from warcio.timeutils import timestamp_to_sec, sec_to_timestamp
    ts, f = valid(S)
    n = timestamp_to_sec(ts)
    S.check_eq(sec_to_timestamp(n), ts, 'seconds and back')
    S.cover('round trip seconds')


def jobs(tier):
    q = tier == 'quick'
    out = [('complete', dict(tz=tz, tail=t)) for tz in (0, 1) for t in (0, 1)]
    out += [('digits', dict(n=n)) for n in range(0, 17)]
    for n in (6, 8, 10, 14, 16) if q else range(1, 17):
        for k in (1, 2) if q else (1, 2, 3):
            for pos in range(0, min(n, 14) - k + 1):
                out.append(('anything', dict(pos=pos, k=k, n=n, wide=0)))
                if k == 1 or (not q and k == 2):
                    out.append(('anything', dict(pos=pos, k=k, n=n, wide=1)))
    if q:
        out += [('anything', dict(pos=p, k=3, n=14, wide=0)) for p in (4, 5, 9)]
    else:
        out += [('anything', dict(pos=p, k=4, n=14, wide=0)) for p in range(0, 11)]
    out.append(('secs', {}))
    return out
