"""C06: standard library values round trip exactly."""

import argparse
import array
import collections
import datetime
import decimal
import fractions
import functools
import io
import ipaddress
import itertools
import operator
import pathlib
import random
import re
import statistics
import string
import time
import types
import urllib.parse
import uuid
import zoneinfo

import jsonpickle

from .. import rt, zoo
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap
from ..values import GROUPS, HalfHour, Offset, StampDateTime, V

DT, TD, TZ = datetime.datetime, datetime.timedelta, datetime.timezone

EXTRA = {
    "zoneinfo": (lambda: zoneinfo.ZoneInfo("Europe/Berlin"), str),
    "winpath": (lambda: pathlib.PureWindowsPath("C:/a/b"), str),
    "abspath": (lambda: pathlib.PosixPath("/a/b c/é"), str),
    "dotpath": (lambda: pathlib.PurePosixPath("."), str),
    "parse": (lambda: urllib.parse.urlparse("http://a/b?c#d"), tuple),
    "split": (lambda: urllib.parse.urlsplit("http://a:1/b"), tuple),
    "argns": (lambda: argparse.Namespace(a=1, b=[2]), vars),
    "normal": (lambda: statistics.NormalDist(1.5, 2), repr),
    "template": (lambda: string.Template("$a b"), lambda t: t.template),
    "ip4i": (lambda: ipaddress.IPv4Interface("1.2.3.4/24"), str),
    "ip6i": (lambda: ipaddress.IPv6Interface("::1/64"), str),
    "ip6n": (lambda: ipaddress.IPv6Network("2001:db8::/32"), str),
    "ip6s": (lambda: ipaddress.IPv6Address("fe80::1%eth0"), str),
    "ip4max": (lambda: ipaddress.IPv4Address("255.255.255.255"), str),
    "ip4net0": (lambda: ipaddress.IPv4Network("0.0.0.0/0"), str),
    "gmt": (lambda: time.gmtime(86399), tuple),
    "random": (lambda: random.Random(7), lambda r: r.getstate()),
    "stringio": (lambda: io.StringIO("ab\nc"), lambda s: (s.getvalue(), s.tell())),
    "bytesio": (lambda: io.BytesIO(b"ab\xff"), lambda s: (s.getvalue(), s.tell())),
    "context": (lambda: decimal.Context(prec=3), repr),
    "cells": (lambda: types.SimpleNamespace(a={"b": (1,)}, _p=None), vars),
    "excgroup": (lambda: ExceptionGroup("g", [ValueError(1), KeyError("k")]), repr),
    "userlist_obj": (lambda: collections.UserList([[1], {"a": 2}]), list),
    "userdict_obj": (lambda: collections.UserDict({"a": [1], "b": {}}), dict),
    "chain3": (lambda: collections.ChainMap({}, {"a": [1]}, {"b": 2, "a": 3}), lambda c: c.maps),
    "counter_neg": (lambda: collections.Counter(a=-1, b=0), dict),
    "td_min": (lambda: TD.min, repr),
    "td_res": (lambda: TD.resolution, repr),
}

ZONES = {
    "naive": lambda: None,
    "utc": lambda: TZ.utc,
    "p1": lambda: TZ(TD(hours=1)),
    "m1159": lambda: TZ(TD(hours=-11, minutes=-59)),
    "sec": lambda: TZ(TD(seconds=1)),
    "micro": lambda: TZ(TD(microseconds=1)),
    "max": lambda: TZ(TD(hours=23, minutes=59, seconds=59, microseconds=999999)),
    "min": lambda: TZ(-TD(hours=23, minutes=59, seconds=59, microseconds=999999)),
    "named": lambda: TZ(TD(hours=2), "N é"),
    "zero_named": lambda: TZ(TD(0), "Z"),
    "cls": HalfHour,
    "state": lambda: Offset(90),
    "zi": lambda: zoneinfo.ZoneInfo("America/New_York"),
}
FLAGS = [re.I, re.M, re.S, re.X]
PATTERNS = ["", "a", "a|b", "(?P<n>x)(?P=n)", "\\d+\\s", "[^\\]]", "é+", "\n", "(?i:a)b", "^$", "\x00", "\\Z", '"', "a{2,3}?", "(?<=a)b"]
BPATTERNS = [b"", b"a", b"\xff\x00", b"(?P<n>x)", b"[\x80-\xff]+", b"\\d"]
FACTORIES = {
    "none": None, "list": list, "int": int, "dict": dict, "set": set, "str": str, "float": float, "tuple": tuple,
    "bool": bool, "plain": zoo.Plain, "inner": zoo.Outer.Inner, "ddict": collections.defaultdict,
    "odict": collections.OrderedDict, "deque": collections.deque, "frozenset": frozenset, "bytes": bytes,
    "object": object, "counter": collections.Counter,
}
MADE = {
    "lambda_list": lambda: [],
    "lambda_shared": lambda: [1, 2],
    "lambda_int": lambda: 5,
    "lambda_none": lambda: None,
    "lambda_dict": lambda: {"a": 1},
    "lambda_nested": lambda: collections.defaultdict(list),
    "lambda_tuple": lambda: (1, 2),
    "lambda_str": lambda: "x",
    "partial": functools.partial(list, (1, 2)),
    "function": zoo.make_plain,
}


class C06(Check):
    id = "C06"
    technique = "exhaustive enumeration of standard library values over field boundaries on the real code"
    rule = "every value of the bounded field grids, every type in every context and pair; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {
            "datetime": "9 years x 3 months x 3 days x 4 times x 7 microseconds x 2 folds x 13 zones",
            "dates": "every day of 1999-2000, two days of every month of every year",
            "timezones": "every minute offset",
            "contexts": len(rt.CONTEXTS),
            "pairs": "all ordered pairs" + (" and triples" if self.thorough else "") + " of standard library values",
        }

    NAMES = GROUPS["number"] + GROUPS["builtin"] + GROUPS["datetime"] + GROUPS["stdlib"]

    def cases(self):
        for c in rt.CONTEXTS:
            for n in self.NAMES:
                yield ("ctx", c, n)
            for n in EXTRA:
                yield ("extra", c, n)
        for a, b in itertools.product(self.NAMES, repeat=2):
            yield ("pair", a, b)
        if self.thorough:
            for c in itertools.product(self.NAMES, repeat=3):
                yield ("triple", *c)
        for z in ZONES:
            for y in (1, 2, 1899, 1970, 1999, 2000, 2024, 2038, 9999):
                for mo in (1, 2, 12):
                    yield ("dt", z, y, mo)
            for h in range(24):
                yield ("clock", z, h)
        for b in range(256):
            yield ("micro", b)
        for y in range(1, 10000):
            yield ("year", y)
        for m in range(1, 13):
            yield ("days", m)
        for d in (-999999999, -1000000, -2, -1, 0, 1, 2, 255, 999998, 999999999):
            for s in (0, 1, 59, 60, 3599, 43200, 86399):
                yield ("td", d, s)
        for h in range(-24, 24):
            yield ("tz", h)
        for e in range(-60, 61):
            yield ("dec", e)
        for a in range(-12, 13):
            yield ("frac", a)
        for a, b in itertools.product(range(12), repeat=2):
            yield ("complex", a, b)
        for i in range(0, 128):
            yield ("uuid", i)
        for i, p in enumerate(PATTERNS):
            for f in range(32):
                yield ("re", i, f)
        for i, p in enumerate(BPATTERNS):
            for f in range(32):
                yield ("reb", i, f)
        for t in "bBhHiIlLqQfdu":
            for n in range(0, 12):
                yield ("array", t, n)
        for n in range(5):
            for m in (None, 0, 1, 2, 3, 4, 5, 100):
                yield ("deque", n, m)
        for f in FACTORIES:
            for n in range(4):
                yield ("ddict", f, n)
        for f in MADE:
            for n in range(3):
                for k in (False, True):
                    yield ("made", f, n, k)
        for cls in ("OrderedDict", "Counter", "UserDict", "ChainMap", "UserList", "UserString"):
            for n in range(12):
                yield ("coll", cls, n)
        for a, b, c in itertools.product((None, -3, 0, 1, 10), repeat=3):
            yield ("slice", a, b, c)
        for n in range(0, 128, 1):
            yield ("ip", n)
        for i in range(9):
            yield ("struct", i)
        for n in range(0, 40):
            yield ("path", n)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def same(self, x):
        rt.same(self, x)

    def run_ctx(self, c, n):
        self.same(rt.CONTEXTS[c](V[n]))

    def run_pair(self, a, b):
        a, b = V[a](), V[b]()
        self.same([a, b, (b, a), {"a": a, "b": b}])

    def run_triple(self, *names):
        a, b, c = [V[n]() for n in names]
        self.same([a, {"k": (b, c)}, c])

    def run_extra(self, c, n):
        make, view = EXTRA[n]
        x = make()
        data = rt.CONTEXTS[c](lambda: x)
        text, back = rt.roundtrip(self, data)
        self.state(text)
        want, got = find(data, type(x)), find(back, type(x))
        if len(want) != len(got) or not got:
            raise Violation(f"{len(want)} values became {len(got)}: {text[:300]}")
        for w, g in zip(want, got):
            a, b = snap(view(w)), snap(view(g))
            if a != b:
                raise Violation(f"{first_difference(a, b)}: {text[:300]}")

    def run_dt(self, z, y, mo):
        micros = (0, 1, 255, 256, 65535, 65536, 999999)
        for d in (1, 15, 28):
            for h, mi, s in ((0, 0, 0), (1, 59, 59), (12, 30, 1), (23, 59, 59)):
                values = []
                for us, fold in itertools.product(micros, (0, 1)):
                    tz = ZONES[z]()
                    values.append(DT(y, mo, d, h, mi, s, us, tz, fold=fold))
                self.same(values)
                for v in values:
                    self.same(v)
            self.same(datetime.date(y, mo, d))
            self.same(StampDateTime(y, mo, d, 1, 2, 3, 4, ZONES[z]()))

    def run_clock(self, z, h):
        for mi in range(60):
            values = [
                datetime.time(h, mi, s, us, ZONES[z](), fold=fold)
                for s in (0, 1, 59)
                for us in (0, 1, 256, 65536, 999999)
                for fold in (0, 1)
            ]
            self.same(values)
            self.same(values[-1])
            self.same({"k": values[0]})

    def run_micro(self, b):
        values = []
        for shift in (0, 8, 16):
            us = b << shift
            if us <= 999999:
                values += [DT(2000, 1, 1, 0, 0, 0, us), datetime.time(0, 0, 0, us), DT(2000, 1, 1, 0, 0, 0, us, TZ.utc)]
        self.same(values)

    def run_year(self, y):
        ds = []
        for m in range(1, 13):
            ds.append(datetime.date(y, m, 1))
            ds.append(DT(y, m, 28, y % 24, y % 60))
        self.same(ds)

    def run_days(self, m):
        for y in (1999, 2000):
            d = datetime.date(y, m, 1)
            while d.month == m:
                self.same([d, DT(d.year, d.month, d.day)])
                d += TD(1)

    def run_td(self, d, s):
        for us in (0, 1, 999999):
            x = TD(d, s, us)
            self.same(x)
            self.same([x, {"x": (x,)}])

    def run_tz(self, h):
        for mi in range(60):
            off = TD(hours=h, minutes=mi)
            if abs(off) >= TD(hours=24):
                continue
            self.same([TZ(off), TZ(off, "n"), DT(2020, 1, 1, tzinfo=TZ(off))])

    def run_dec(self, e):
        for sign in ("", "-"):
            for digits in ("0", "1", "10", "123456789", "9" * 40):
                x = decimal.Decimal(f"{sign}{digits}E{e}")
                self.same(x)
                self.same([x, {"k": x}])
        for s in ("NaN123", "-NaN", "sNaN", "sNaN7", "Infinity", "-Infinity", "NaN"):
            self.same([decimal.Decimal(s)])

    def run_frac(self, a):
        for b in range(1, 13):
            self.same([fractions.Fraction(a, b), fractions.Fraction(a * 10**30 + 1, b)])

    def run_complex(self, a, b):
        inf = float("inf")
        fs = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, inf, -inf, float("nan"), 3.0, 1e22]
        x = complex(fs[a], fs[b])
        self.same(x)
        self.same({"k": [x]})

    def run_uuid(self, i):
        self.same([uuid.UUID(int=1 << i), uuid.UUID(int=(1 << 128) - 1 - (1 << i))])
        self.same(uuid.UUID(int=(1 << i) - 1))

    def flags(self, bits):
        out = 0
        for i, f in enumerate(FLAGS):
            if bits >> i & 1:
                out |= f
        return out

    def run_re(self, i, f):
        flags = self.flags(f) | (re.A if f & 16 else 0)
        self.same(rt.CONTEXTS["shared"](lambda: re.compile(PATTERNS[i], flags)))
        self.same(re.compile(PATTERNS[i], flags))

    def run_reb(self, i, f):
        flags = self.flags(f) | (re.L if f & 16 else 0)
        self.same([re.compile(BPATTERNS[i], flags), re.compile(BPATTERNS[i], flags & ~re.L | re.A)])

    def run_array(self, t, n):
        if t == "u":
            vals = list("a\x00é中\U0001f600\uffff")
        elif t in "fd":
            vals = [0.0, -0.0, 0.5, 1e30, float("inf"), float("nan"), -1.5]
        else:
            size = array.array(t).itemsize * 8
            lo, hi = (-(1 << size - 1), (1 << size - 1) - 1) if t.islower() else (0, (1 << size) - 1)
            vals = [lo, hi, 0, 1, hi // 2]
        x = array.array(t, [vals[(n + j) % len(vals)] for j in range(n)])
        self.same(x)
        self.same(rt.CONTEXTS["shared"](lambda: x))

    def run_deque(self, n, m):
        x = collections.deque([i if i % 2 else [i] for i in range(n)], m)
        self.same(x)
        _, back = rt.same(self, rt.CONTEXTS["shared"](lambda: x))
        y = back[0]
        y.append("new")
        x.append("new")
        if snap(x) != snap(y):
            raise Violation(f"deque behaves differently after append: {x!r} {y!r}")

    def run_ddict(self, f, n):
        make = FACTORIES[f]
        x = collections.defaultdict(make, {k: [1] for k in ("a", "default_factory", "z")[:n]})
        self.same(x)
        _, back = rt.same(self, rt.CONTEXTS["shared"](lambda: x))
        y = back[0]
        if make is None:
            try:
                y["missing"]
            except KeyError:
                return
            raise Violation("an entry was created without a factory")
        if make is object:
            if type(y["missing"]) is not object:
                raise Violation("wrong entry created")
            return
        x["missing"], y["missing"]
        if snap(x) != snap(y):
            raise Violation(f"{snap(x)} became {snap(y)}")
        rt.same(self, {"in": {"list": [collections.defaultdict(make, {"k": collections.defaultdict(make)})]}})

    def run_made(self, f, n, keys):
        make = MADE[f]
        items = {k: [1] for k in ("a", "b")[:n]}
        x = collections.defaultdict(make, items)
        s = [9]
        text, back = rt.roundtrip(self, [x, s, s, x], {"keys": keys})
        self.state(text)
        y = back[0]
        if type(y) is not collections.defaultdict or snap(dict(y)) != snap(items):
            raise Violation(f"contents changed: {y!r}")
        if back[1] is not back[2] or back[1] != [9] or back[3] is not y:
            raise Violation(f"references changed: {text}")
        a, b = y["m1"], y["m2"]
        want = make()
        if snap(a) != snap(want) or snap(b) != snap(want):
            raise Violation(f"created {a!r}, should be {want!r}")
        if isinstance(want, (list, dict)):
            if a is b:
                raise Violation("two missing entries share one object")

    def run_coll(self, cls, n):
        keys = ["k%d" % (i * 7 % 12) for i in range(n)]
        C = getattr(collections, cls)
        if cls == "UserList":
            x = C([i if i % 2 else [i] for i in range(n)])
        elif cls == "UserString":
            x = C("é\x00a" * n)
        elif cls == "Counter":
            x = C({k: i - 3 for i, k in enumerate(keys)})
        elif cls == "ChainMap":
            x = C(*[{k: i} for i, k in enumerate(keys)])
        else:
            x = C((k, [i]) for i, k in enumerate(keys))
        self.same(x)
        self.same(rt.CONTEXTS["shared"](lambda: x))
        self.same(rt.CONTEXTS["attr"](lambda: x))

    def run_slice(self, a, b, c):
        self.same([slice(a, b, c), slice("x", (1,), None)])
        if None not in (a, b, c) and c:
            self.same([range(a, b, c), {"r": range(a, b, c)}])

    def run_ip(self, n):
        self.same([ipaddress.IPv6Address(1 << n), ipaddress.IPv6Network((0, n))])
        if n < 32:
            self.same([ipaddress.IPv4Address(1 << n), ipaddress.IPv4Network((0, n)), ipaddress.IPv4Interface((1 << n, n))])

    def run_struct(self, i):
        base = [2020, 1, 2, 3, 4, 5, 6, 7, 0]
        for v in (-1, 0, 1, 12, 59, 366):
            f = list(base)
            f[i] = v
            self.same(rt.CONTEXTS["shared"](lambda: time.struct_time(f)))
            self.same(time.struct_time(f))

    def run_path(self, n):
        parts = ["a", "..", "b.txt", "é", " ", "c d", "-", "x" * 50]
        chosen = [parts[(n * 3 + j) % 8] for j in range(n % 5)]
        for root in ("", "/", "//"):
            p = root + "/".join(chosen)
            self.same([pathlib.PurePosixPath(p), pathlib.PosixPath(p), {"p": pathlib.Path(p)}])
        self.same(functools.partial(operator.add, n))
        self.same([operator.itemgetter(n), functools.partial(int, base=2)])


def find(x, cls):
    """All values of a class inside a context, in order."""
    out, seen = [], set()

    def walk(v):
        if type(v) is cls:
            out.append(v)
            return
        if id(v) in seen and not isinstance(v, (int, str)):
            return
        seen.add(id(v))
        if isinstance(v, dict):
            for u in v.values():
                walk(u)
        if isinstance(v, (list, tuple)):
            for u in v:
                walk(u)
        for n in ("__dict__",):
            d = getattr(v, n, None)
            if isinstance(d, dict):
                for u in d.values():
                    walk(u)
        for n in getattr(type(v), "__slots__", ()):
            if hasattr(v, n):
                walk(getattr(v, n))

    walk(x)
    return out


CHECK = C06
