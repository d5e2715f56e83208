"""Reference for time.*: proleptic Gregorian arithmetic on day numbers and a TZif reader written here (the time zone
data files are shared with pytz, the code is not)."""
import math
import os
import struct

from vlib.cases import *
from vlib import types as ty
from vlib.types import INT_MIN, INT_MAX

t = Table()
nan, inf = float("nan"), float("inf")
LO, HI = -62135596800, 253402300799


def civil(days):
    """(year, month, day) of a day number counted from 1970-01-01 (Hinnant's algorithm)."""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return y + (1 if m <= 2 else 0), m, d


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def dim(y, m):
    return MD[m - 1] + (1 if m == 2 and leap(y) else 0)


def days_of(y, m, d):
    y1 = y - 1
    n = y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400
    n += sum(dim(y, i) for i in range(1, m)) + d - 1
    return n - 719162


class Zone(object):
    """Offsets of a zone from its TZif file (version 1 block: 32-bit transition times)."""
    def __init__(self, name):
        import pytz
        with open(os.path.join(os.path.dirname(pytz.__file__), "zoneinfo", *name.split("/")), "rb") as f:
            b = f.read()
        assert b[:4] == b"TZif"
        nutc, nstd, nleap, ntime, ntype, nchar = struct.unpack(">6l", b[20:44])
        p = 44
        self.times = struct.unpack(">%dl" % ntime, b[p:p + 4 * ntime])
        p += 4 * ntime
        idx = b[p:p + ntime]
        p += ntime
        self.types = [struct.unpack(">lbb", b[p + 6 * i:p + 6 * i + 6]) for i in range(ntype)]
        self.idx = list(idx)

    def at(self, ts):
        """(offset seconds, is dst); None outside the range in which the file is authoritative"""
        if not self.times:
            return self.types[0][:2] if self.types else None
        if ts < self.times[0] or ts < -2**31 + 86400 or ts >= 2**31 - 86400:
            return None
        i = 0
        for k, x in enumerate(self.times):
            if x <= ts:
                i = k
        return self.types[self.idx[i]][:2]


ZONES = ["UTC", "US/Eastern", "Europe/Paris", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Asia/Kathmandu", "Etc/GMT+5", "Pacific/Auckland", "America/Los_Angeles", "Pacific/Kiritimati"]
BAD = ["Nowhere/City", "xyz", "\u00e9", "../UTC", "US", " "]
CACHE = {}


def zone(name):
    if name not in CACHE:
        CACHE[name] = Zone(name)
    return CACHE[name]


def local(ts, z, code):
    """Broken-down local time or the error: code = unknown zone, code + 1 = out of range."""
    if math.isnan(ts) or ts < LO or ts > HI:
        raise Err(code + 1)
    if z in BAD:
        raise Err(code)
    frac, whole = math.modf(ts)
    us = int(whole) * 1000000 + int(round(frac * 1e6))
    if abs(frac * 1e6 - math.floor(frac * 1e6) - 0.5) < 1e-3:
        raise Loose       # halfway between microseconds
    sec = us // 1000000
    if z != "":
        o = zone(z).at(sec)
        if o is None:
            raise Loose
        off = o[0]
        if off % 60:
            raise Loose
        sec += off
    if sec < LO or sec > HI:
        raise Err(code + 1)
    days, rest = sec // 86400, sec % 86400
    y, m, d = civil(days)
    return y, m, d, rest // 3600, rest % 3600 // 60, rest % 60, days_of(y, m, d) - days_of(y, 1, 1) + 1, (days + 3) % 7


def g_ts(r):
    x = r.random()
    if x < 0.1:
        return r.choice([nan, inf, -inf, float(LO), float(HI), LO - 1.0, HI + 1.0, 0.0, -1.0, -0.5, 1e300, LO + 3600.0, HI - 3600.0])
    if x < 0.25:
        return float(r.randint(LO, HI))
    if x < 0.35:
        y = r.choice([1900, 2000, 1904, 2012, 2100, 1999, 2015, 1970, 1969])
        return float(days_of(y, r.choice([2, 3, 12, 1]), 1) * 86400 + r.choice([-1, 0, -86400, 1, 86399]))
    if x < 0.5:
        return r.uniform(-2e9, 2e9)
    if x < 0.75:
        z = zone(r.choice(ZONES))
        if z.times:
            return float(r.choice(z.times) + r.choice([-1, 0, 1, -3600, 3600, 1800]))
    return float(r.randint(0, 1700000000)) + r.choice([0.0, 0.25, 0.5, 0.999])


def g_zone(r):
    return "" if r.random() < 0.25 else r.choice(BAD) if r.random() < 0.1 else r.choice(ZONES)


G = [g_ts, g_zone]
for i, (name, k) in enumerate([("year", 0), ("monthOfYear", 1), ("dayOfYear", 6), ("dayOfMonth", 2), ("dayOfWeek", 7), ("hourOfDay", 3), ("minuteOfHour", 4), ("secondOfMinute", 5)]):
    t.add("time." + name, ["double", "string"], "int", gens=G, ref=lambda ts, z, k=k, c=40000 + 10 * i: local(ts, z, c)[k], weight=2)


def g_lo(top):
    return lambda r: r.choice([0.0, float(r.randint(0, top)), r.uniform(-1, top), -1.0, nan, inf, -inf, float(top)])


def g_hi(top):
    return lambda r: r.choice([float(top), float(r.randint(0, top)), r.uniform(0, top + 2), nan, inf, 1.0])


for i, (name, k, top) in enumerate([("isSecondOfMinute", 5, 60), ("isMinuteOfHour", 4, 60), ("isHourOfDay", 3, 24), ("isDayOfWeek", 7, 7), ("isDayOfMonth", 2, 32), ("isMonthOfYear", 1, 13), ("isDayOfYear", 6, 367)]):
    @t("time." + name, ["double", "string", "double", "double"], "boolean", gens=G + [g_lo(top), g_hi(top)], weight=2)
    def _(ts, z, lo, hi, k=k, c=40090 + 10 * i):
        if lo >= hi:
            raise Err(c)
        v = local(ts, z, c + 1)[k]
        return lo <= v and v < hi

t.add("time.isWeekend", ["double", "string"], "boolean", gens=G, ref=lambda ts, z: local(ts, z, 40160)[7] >= 5, weight=3)


@t("time.isWorkHours", ["double", "string"], "boolean", gens=G, weight=3)
def _(ts, z):
    x = local(ts, z, 40170)
    return x[7] < 5 and 9 <= x[3] < 17


def g_parts(r):
    y = r.choice([1970, 2015, 2000, 1900, 2016, 1, 9999, 0, -1, 10000, INT_MAX, r.randint(1950, 2036), r.randint(1, 9999)])
    if r.random() < 0.7:
        y = r.randint(1950, 2036)
    m = r.randint(1, 12) if r.random() < 0.95 else r.choice([0, 13, -1])
    d = r.randint(1, 28) if r.random() < 0.7 else r.choice([29, 30, 31, 0, 32])
    h = r.randint(0, 23) if r.random() < 0.96 else r.choice([24, -1])
    mi = r.randint(0, 59) if r.random() < 0.96 else r.choice([60, -1])
    s = r.randint(0, 59) if r.random() < 0.96 else r.choice([60, -1])
    ms = r.randint(0, 999) if r.random() < 0.96 else r.choice([1000, -1])
    return y, m, d, h, mi, s, ms, g_zone(r)


@t("time.makeTimestamp", ["int"] * 7 + ["string"], "double", joint=g_parts, weight=6, absol=1e-6, rel=1e-15)
def _(y, m, d, h, mi, s, ms, z):
    bad = not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= dim(y, m) and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 and 0 <= ms < 1000) if 1 <= m <= 12 else True
    if z in BAD:
        raise Err(40080)
    if bad:
        raise Err(40081)
    sec = days_of(y, m, d) * 86400 + h * 3600 + mi * 60 + s
    if z == "":
        return sec + ms / 1000.0
    zn = zone(z)
    found = []
    for off in sorted(set(x[0] for x in zn.types)):
        o = zn.at(sec - off)
        if o is None:
            raise Loose
        if o[0] == off:
            found.append((o[1], off))
    if not found or any(off % 60 for _, off in found):
        raise Loose      # a local time that does not exist
    if len(found) > 1:
        std = [f for f in found if not f[0]]
        if len(std) != 1:
            raise Loose
        found = std
    return sec - found[0][1] + ms / 1000.0


CASES = t.cases
