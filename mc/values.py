"""The value alphabet: named factories, each building one fresh value.

A factory, not a value, because a case must not be able to influence the next.
"""

import array
import collections
import datetime
import decimal
import fractions
import functools
import ipaddress
import operator
import os
import pathlib
import queue
import re
import threading
import time
import types
import uuid

from . import zoo

V = {}
GROUPS = collections.defaultdict(list)


def add(group, name, factory):
    assert name not in V, name
    V[name] = factory
    GROUPS[group].append(name)


def const(group, **values):
    for name, value in values.items():
        add(group, name, lambda value=value: value)


# --- JSON scalars ---------------------------------------------------------
const("null", none=None)
const("bool", true=True, false=False)
const(
    "int",
    i0=0,
    i1=1,
    im1=-1,
    i7=7,
    i2_31=2**31,
    i2_53=2**53 + 1,
    i2_63=2**63,
    im2_63=-(2**63),
    i2_64=2**64 + 1,
    ibig=10**40 + 7,
    imbig=-(10**40) - 7,
)
const(
    "float",
    f0=0.0,
    fm0=-0.0,
    f1=1.0,
    f01=0.1,
    f13=1.0 / 3.0,
    fmax=1.7976931348623157e308,
    fmin=5e-324,
    fbig=1e22,
    f2_53=float(2**53),
    fm=-2.5,
)
const("nonfinite", nan=float("nan"), inf=float("inf"), minf=float("-inf"))
const(
    "str",
    s_empty="",
    s_a="a",
    s_space=" a  b ",
    s_num="123",
    s_null="null",
    s_true="true",
    s_quote="\"'\\/\b\f\n\r\t",
    s_ctrl="\x00\x01\x1f\x7f\x80\x9f",
    s_latin="é\xff\xa0",
    s_bmp="  ﻿￿中",
    s_astral="\U0001f600\U0010ffff",
    s_lone="\ud800x\udfff",
    s_json="json://",
    s_jsonx='json://"x"',
    s_tag="py/object",
    s_tag2="py/id",
    s_b64="eA==",
    s_dunder="__dict__",
    s_nul="a\x00b",
    s_slash="</script>",
    s_long="xyz" * 400,
)
const(
    "bytes",
    b_empty=b"",
    b_nul=b"\x00",
    b_1=b"a",
    b_2=b"ab",
    b_3=b"abc",
    b_4=b"abcd",
    b_5=b"abcde",
    b_all=bytes(range(256)),
    b_ff=b"\xff" * 9,
    b_text=b"eA==",
    b_zeros=b"\x00" * 8,
)
add("bytearray", "ba_empty", bytearray)
add("bytearray", "ba_all", lambda: bytearray(range(256)))
add("bytearray", "ba_1", lambda: bytearray(b"a"))

# --- plain containers -------------------------------------------------------
add("container", "l_empty", list)
add("container", "l_1", lambda: [1])
add("container", "l_nest", lambda: [[], [[]], [1, [2, [3]]]])
add("container", "l_long", lambda: list(range(300)))
add("container", "d_empty", dict)
add("container", "d_1", lambda: {"a": 1})
add("container", "d_order", lambda: {"z": 1, "a": 2, "m": 3, "": 4, "A": 5})
add("container", "d_nest", lambda: {"a": {"b": {"c": {}}}, "l": [{}]})
add("container", "d_strange", lambda: {k: 1 for k in ("\x00", "é", "/", "a/b", "~", "-1", "null", "True")})
add("container", "t_empty", tuple)
add("container", "t_1", lambda: (1,))
add("container", "t_nest", lambda: ((), ((),), (1, (2, ("x",)))))
add("container", "t_mixed", lambda: ([1], {"a": (2,)}, "s", None))
add("container", "set_empty", set)
add("container", "set_1", lambda: {1})
add("container", "set_mixed", lambda: {1, "a", (2, 3), None, 2.5, b"x"})
add("container", "fset_empty", frozenset)
add("container", "fset_1", lambda: frozenset([1, "a"]))
add("container", "set_fset", lambda: {frozenset([1]), frozenset()})

# --- numbers and other immutable builtins -----------------------------------
const("number", c_0=0j, c_1=1 + 2j, c_m=complex(-0.0, float("inf")))
const("builtin", rng=range(1, 10, 2), rng0=range(0), slc=slice(1, None, 2))
const("builtin", ellipsis=Ellipsis, notimpl=NotImplemented)
for _n, _v in {
    "dec_0": "0",
    "dec_1": "1.10",
    "dec_exp": "1E+50",
    "dec_neg": "-0.00",
    "dec_inf": "-Infinity",
    "dec_nan": "NaN",
    "dec_long": "3.14159265358979323846264338327950288419716939937510",
}.items():
    add("number", _n, functools.partial(decimal.Decimal, _v))
add("number", "frac", lambda: fractions.Fraction(-7, 3))
add("number", "frac_int", lambda: fractions.Fraction(4))

# --- standard library values -------------------------------------------------
UTC = datetime.timezone.utc


class HalfHour(datetime.tzinfo):
    """A custom time zone without state."""

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=30)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return "HH"

    def __repr__(self):
        return "HalfHour()"


class Offset(datetime.tzinfo):
    """A custom time zone with state."""

    def __init__(self, minutes=0):
        self.minutes = minutes

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return f"O{self.minutes}"

    def __repr__(self):
        return f"Offset({self.minutes})"


class StampDateTime(datetime.datetime):
    pass


dt = datetime.datetime
add("datetime", "dt_min", lambda: dt.min)
add("datetime", "dt_max", lambda: dt.max)
add("datetime", "dt_naive", lambda: dt(2020, 2, 29, 12, 34, 56, 789))
add("datetime", "dt_fold", lambda: dt(2020, 10, 25, 2, 30, fold=1))
add("datetime", "dt_utc", lambda: dt(1999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC))
add("datetime", "dt_off", lambda: dt(2021, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=-5, minutes=-30))))
add("datetime", "dt_named", lambda: dt(2021, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(seconds=1), "ONE")))
add("datetime", "dt_tzcls", lambda: dt(2021, 1, 1, tzinfo=HalfHour()))
add("datetime", "dt_tzstate", lambda: dt(2021, 1, 1, tzinfo=Offset(90)))
add("datetime", "date_min", lambda: datetime.date.min)
add("datetime", "date_1", lambda: datetime.date(2024, 2, 29))
add("datetime", "time_0", lambda: datetime.time())
add("datetime", "time_1", lambda: datetime.time(23, 59, 59, 999999))
add("datetime", "time_utc", lambda: datetime.time(1, 2, 3, tzinfo=UTC))
add("datetime", "time_fold", lambda: datetime.time(1, 2, 3, fold=1))
add("datetime", "td_0", lambda: datetime.timedelta())
add("datetime", "td_neg", lambda: datetime.timedelta(-1, 2, 3))
add("datetime", "td_max", lambda: datetime.timedelta.max)
add("datetime", "tz_utc", lambda: UTC)
add("datetime", "tz_off", lambda: datetime.timezone(datetime.timedelta(hours=2)))
add("datetime", "tz_named", lambda: datetime.timezone(datetime.timedelta(hours=2), "N"))
add("stdlib", "struct_time", lambda: time.struct_time((2020, 1, 2, 3, 4, 5, 6, 7, 0)))
add("stdlib", "uuid_0", lambda: uuid.UUID(int=0))
add("stdlib", "uuid_1", lambda: uuid.UUID("12345678-1234-5678-1234-567812345678"))
add("stdlib", "re_1", lambda: re.compile("a(b)*[c-d]\\d$"))
add("stdlib", "re_flags", lambda: re.compile("x y", re.I | re.M | re.S | re.X))
add("stdlib", "re_ascii", lambda: re.compile("é", re.A))
add("stdlib", "re_bytes", lambda: re.compile(b"\xff.*"))
for _t in "bBhHiIlLqQ":
    add("stdlib", f"arr_{_t}", lambda t=_t: array.array(t, [0, 1, 100]))
add("stdlib", "arr_empty", lambda: array.array("i"))
add("stdlib", "arr_signed", lambda: array.array("q", [-(2**63), -1, 2**63 - 1]))
add("stdlib", "arr_f", lambda: array.array("f", [0.5, -1.0]))
add("stdlib", "arr_d", lambda: array.array("d", [0.1, 1e300]))
add("stdlib", "arr_u", lambda: array.array("u", "aé中"))
add("stdlib", "deque_0", collections.deque)
add("stdlib", "deque_1", lambda: collections.deque([1, "a", None]))
add("stdlib", "deque_max", lambda: collections.deque([1, 2, 3], maxlen=3))
add("stdlib", "deque_max0", lambda: collections.deque([], maxlen=5))
add("stdlib", "odict_0", collections.OrderedDict)
add("stdlib", "odict_1", lambda: collections.OrderedDict([("z", 1), ("a", 2)]))
add("stdlib", "counter_0", collections.Counter)
add("stdlib", "counter_1", lambda: collections.Counter("abbccc"))
add("stdlib", "ddict_none", lambda: collections.defaultdict(None, {"a": 1}))
add("stdlib", "ddict_list", lambda: collections.defaultdict(list, {"a": [1]}))
add("stdlib", "ddict_int", lambda: collections.defaultdict(int, {"a": 1}))
add("stdlib", "ddict_nest", lambda: collections.defaultdict(dict, {"a": collections.defaultdict(set)}))
add("stdlib", "chainmap", lambda: collections.ChainMap({"a": 1}, {"b": 2}))
add("stdlib", "userdict", lambda: collections.UserDict({"a": 1}))
add("stdlib", "userlist", lambda: collections.UserList([1, 2]))
add("stdlib", "userstring", lambda: collections.UserString("abc"))
add("stdlib", "path_pure", lambda: pathlib.PurePosixPath("/a/b.txt"))
add("stdlib", "path", lambda: pathlib.PosixPath("x/../y"))
add("stdlib", "ip4", lambda: ipaddress.IPv4Address("127.0.0.1"))
add("stdlib", "ip6", lambda: ipaddress.IPv6Address("::1"))
add("stdlib", "ipnet", lambda: ipaddress.IPv4Network("10.0.0.0/8"))
add("stdlib", "namespace", lambda: types.SimpleNamespace(a=1, b=[2]))
add("stdlib", "partial", lambda: functools.partial(operator.add, 1))
add("stdlib", "partial_kw", lambda: functools.partial(int, base=2))
add("stdlib", "itemgetter", lambda: operator.itemgetter(1, "a"))
add("stdlib", "attrgetter", lambda: operator.attrgetter("a.b"))
add("stdlib", "methodcaller", lambda: operator.methodcaller("f", 1, k=2))

# --- instances -----------------------------------------------------------------


def _with(cls, **kw):
    def make():
        o = cls.__new__(cls)
        for k, v in kw.items():
            object.__setattr__(o, k, v() if callable(v) and not isinstance(v, type) else v)
        return o

    return make


add("instance", "plain_0", zoo.Plain)
add("instance", "plain_1", _with(zoo.Plain, a=1, b=lambda: [2]))
add("instance", "plain_order", _with(zoo.Plain, z=1, a=2, m=3))
add("instance", "plain_under", _with(zoo.Plain, _a=1, b_=2, c__=3, _d_=4))
add("instance", "plain_child", _with(zoo.PlainChild, a=1))
add("instance", "inner", _with(zoo.Outer.Inner, a=1))
add("instance", "deep", _with(zoo.Outer.Mid.Deep, a=1))
add("instance", "init", lambda: zoo.WithInit(1, [2]))
add("instance", "class_defaults", _with(zoo.ClassDefaults, a="mine"))
add("instance", "class_defaults0", zoo.ClassDefaults)
add("instance", "slots_0", zoo.Slots)
add("instance", "slots_1", _with(zoo.Slots, a=1))
add("instance", "slots_2", _with(zoo.Slots, a=1, b=lambda: [2]))
add("instance", "slots_3", _with(zoo.SlotsChild, a=1, b=2, c=lambda: {}))
add("instance", "slots_str", _with(zoo.SlotsStr, a=1))
add("instance", "slots_list", _with(zoo.SlotsList, a=1, b=2))
add("instance", "slots_none", _with(zoo.Slots, a=None, b=None))
add("instance", "data_1", lambda: zoo.Data(1, [2]))
add("instance", "frozen_1", lambda: zoo.Frozen(1, (2,)))
add("instance", "data_slots", lambda: zoo.DataSlots(1, [2]))
add("instance", "listsub", lambda: _attr(zoo.ListSub([1, [2]]), x=1))
add("instance", "listsub_0", zoo.ListSub)
add("instance", "dictsub", lambda: _attr(zoo.DictSub(a=1, b=[2]), x=1))
add("instance", "dictsub_0", zoo.DictSub)
add("instance", "dictsub_eq", lambda: _attr(zoo.DictSub(x=1), x=1))
add("instance", "setsub", lambda: _attr(zoo.SetSub([1, "a"]), x=1))
add("instance", "tuplesub", lambda: zoo.TupleSub((1, [2])))
add("instance", "strsub", lambda: zoo.StrSub("abc"))
add("instance", "point", lambda: zoo.Point(1, [2]))
add("instance", "typed_point", lambda: zoo.TypedPoint(1))
add("enum", "enum_red", lambda: zoo.Color.RED)
add("enum", "enum_blue", lambda: zoo.Color.BLUE)
add("enum", "enum_int", lambda: zoo.Level.HIGH)
add("enum", "enum_flag", lambda: zoo.Perm.R)
add("enum", "enum_flags", lambda: zoo.Perm.R | zoo.Perm.W)
add("enum", "enum_intflag", lambda: zoo.IntPerm.R | zoo.IntPerm.W)
add("enum", "enum_str", lambda: zoo.StrEn.A)
add("error", "err_0", lambda: zoo.Err())
add("error", "err_1", lambda: zoo.Err("a", [1]))
add("error", "err_attr", lambda: _attr(zoo.Err("a"), x=[1]))
add("error", "err_own", lambda: zoo.ErrAttrs(1, [2]))
add("error", "err_kw", lambda: zoo.ErrKw("m", code=3))
add("error", "err_value", lambda: ValueError("x", 1))
add("error", "err_key", lambda: KeyError("k"))
add("error", "err_os", lambda: OSError(2, "msg", "file"))
add("error", "err_unicode", lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"))
add("error", "err_stop", lambda: StopIteration(5))
add("hook", "getset", _with(zoo.GetSet, a=1, b=lambda: [2]))
add("hook", "getset_tuple", _with(zoo.GetSetTuple, a=1, b=lambda: [2]))
add("hook", "getonly", _with(zoo.GetOnly, a=1, b=lambda: [2]))
add("hook", "reduced", lambda: zoo.rebuild(1, [2]))
add("hook", "reduce_state", _with(zoo.ReduceState, a=1, b=lambda: [2]))
add("hook", "reduce_state0", zoo.ReduceState)
add("hook", "reduce_setstate", _with(zoo.ReduceSetState, a=1, b=lambda: [2]))
add("hook", "newargs", lambda: zoo.NewArgs(1, [2]))
add("hook", "newargs_ex", lambda: zoo.NewArgsEx(1, b=[2]))
add("hook", "handled", lambda: _attr(zoo.Handled(), a=1, b=[2]))
add("hook", "tagged", lambda: zoo.Tagged("t"))
add("ref", "type_plain", lambda: zoo.Plain)
add("ref", "type_inner", lambda: zoo.Outer.Inner)
add("ref", "type_int", lambda: int)
add("ref", "type_nonetype", lambda: type(None))
add("ref", "type_dt", lambda: datetime.datetime)
add("ref", "type_fn", lambda: types.FunctionType)
add("ref", "type_err", lambda: ValueError)
add("ref", "fn_py", lambda: zoo.rebuild)
add("ref", "fn_builtin", lambda: len)
add("ref", "fn_c", lambda: operator.add)
add("ref", "fn_os", lambda: os.path.join)
add("ref", "mod_re", lambda: re)
add("ref", "mod_path", lambda: os.path)
add("ref", "method", lambda: zoo.Counter0(5).value)
# values that are not stored at all (they become null)
add("null_stored", "stream", lambda: open(os.devnull))
add("null_stored", "lambda", lambda: lambda: None)
add("opaque", "queue", queue.Queue)
add("opaque", "lock", threading.Lock)


def _attr(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def make(name):
    return V[name]()
