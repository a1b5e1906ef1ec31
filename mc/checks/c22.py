"""C22: pandas objects round trip."""

import datetime
import decimal
import itertools
import subprocess
import sys
import warnings

import numpy as np
import pandas as pd
from pandas.testing import assert_frame_equal, assert_index_equal, assert_series_equal

import jsonpickle
import jsonpickle.ext.pandas

from .. import zoo
from ..core import Check, Violation

DAYS = ["2020-01-01", "2021-02-03", "2020-07-01", "1969-12-31"]
STAMPS = ["2020-01-01 00:00:00", "2021-02-03 04:05:06.789", "1960-07-01 23:59:59.999999", "2020-02-29 12:00:00"]


def cycle(values, n):
    return [values[i % len(values)] for i in range(n)]


def typed(dtype, values):
    return lambda n: np.array(cycle(values, n), dtype=dtype)


def objects(values):
    def make(n):
        a = np.empty(n, dtype=object)
        for i, v in enumerate(cycle(values, n)):
            a[i] = v
        return a

    return make


def extension(dtype, values):
    return lambda n: pd.array(cycle(values, n), dtype=dtype)


COLUMNS = {
    **{f"i{b}": typed(f"i{b}", [0, -1, 2 ** (8 * b - 1) - 1, -(2 ** (8 * b - 1))]) for b in (1, 2, 4, 8)},
    **{f"u{b}": typed(f"u{b}", [0, 1, 2 ** (8 * b) - 1]) for b in (1, 2, 4, 8)},
    "f2": typed("f2", [0.5, np.nan, np.inf]),
    "f4": typed("f4", [0.1, np.nan, -0.0]),
    "f8": typed("f8", [0.1, np.nan, -np.inf, 1e300, -0.0]),
    "c8": typed("c8", [1j, 0.5]),
    "c16": typed("c16", [1j, 0.1 - 2j]),
    "bool": typed("?", [True, False, False]),
    "str": lambda n: pd.array(cycle(["a", "", "é", "json://1", "a,b\n\"c'"], n), dtype="str"),
    "strna": lambda n: pd.array(cycle(["a", None, "b"], n), dtype="str"),
    "obj": objects(["a", 1, None, 2.5, True]),
    "objnum": objects([1, 2.5, 3]),
    "objbytes": objects([b"a", b""]),
    "lists": objects([[1], [], [[2], None]]),
    "dicts": objects([{"a": 1}, {}, {"b": [1, (2,)]}]),
    "tuples": objects([(1, 2), (), ("a",)]),
    "sets": objects([{1}, set(), {"a"}]),
    "mixed": objects([[1], "a", None, 3, {"k": 1}]),
    "date": objects([datetime.date(2020, 1, 2), datetime.date(1, 1, 1)]),
    "decimal": objects([decimal.Decimal("1.50"), decimal.Decimal(0)]),
    "instances": objects([zoo.Point(1, 2), zoo.Point(3, "a")]),
    "dt": lambda n: pd.to_datetime(cycle(STAMPS, n), format="mixed"),
    "dtnat": lambda n: pd.to_datetime(cycle([*STAMPS, "NaT"], n), format="mixed"),
    "dt_ns": lambda n: pd.to_datetime(cycle(DAYS, n)).astype("M8[ns]"),
    "dt_s": lambda n: pd.to_datetime(cycle(DAYS, n)).astype("M8[s]"),
    "dt_tz": lambda n: pd.to_datetime(cycle(DAYS, n)).tz_localize("Europe/Paris"),
    "dt_utc": lambda n: pd.to_datetime(cycle(DAYS, n)).tz_localize("UTC"),
    "td": lambda n: pd.to_timedelta(cycle(["1s", "2D", "-3us"], n)),
    "tdnat": lambda n: pd.to_timedelta(cycle(["1s", "NaT"], n)),
    "cat": lambda n: pd.Categorical(cycle(["a", "b"], n)),
    "catint": lambda n: pd.Categorical(cycle([1, 2, 1], n)),
    "Int64": extension("Int64", [1, None, -3]),
    "Int8": extension("Int8", [1, None, 100]),
    "UInt16": extension("UInt16", [1, None, 65535]),
    "Float64": extension("Float64", [1.5, None, 0.1]),
    "boolean": extension("boolean", [True, None, False]),
    "string": extension("string", ["a", None, "é"]),
    "period": lambda n: pd.PeriodIndex(cycle(["2020-01", "2021-05"], n), freq="M"),
    "interval": lambda n: pd.arrays.IntervalArray.from_tuples(cycle([(0, 1), (1, 3)], n)),
}
# larger object arrays may only hold plain JSON values
NOT_JSON = ("string", "objbytes", "dicts", "tuples", "sets", "date", "decimal", "instances", "period", "interval")
PAIRS = [c for c in COLUMNS if c not in ("i2", "u2", "u4", "f2", "c8", "objnum", "Int8")]
CORE = ["i8", "u1", "f8", "bool", "str", "obj", "lists", "dt", "td"]


def labels(kind, n):
    """A row or column index with n distinct labels."""
    return {
        "range": lambda: pd.RangeIndex(n),
        "range2": lambda: pd.RangeIndex(5, 5 + 2 * n, 2),
        "str": lambda: pd.Index([f"r{i}" for i in range(n)]),
        "oddstr": lambda: pd.Index((["", "0", "py/id", "json://1", "é", "py/object", "None"] + [f"x{i}" for i in range(n)])[:n]),
        "int": lambda: pd.Index([5 - 3 * i for i in range(n)]),
        "float": lambda: pd.Index([0.5 * i + 0.1 for i in range(n)]),
        "mixed": lambda: pd.Index(([0, "0", 1.5] + [f"m{i}" for i in range(n)])[:n], dtype=object),
        "dt": lambda: pd.DatetimeIndex(pd.date_range("2020-01-01 03:04:05", periods=n, freq="36h"), freq=None),
        "dt_tz": lambda: pd.DatetimeIndex(pd.date_range("2020-03-28", periods=n, freq="D", tz="Europe/Paris"), freq=None),
        "td": lambda: pd.TimedeltaIndex(pd.to_timedelta([i * 7 for i in range(n)], unit="s")),
        "period": lambda: pd.period_range("2020-01", periods=n, freq="M"),
        "interval": lambda: pd.interval_range(0, n),
        "mi": lambda: pd.MultiIndex.from_tuples([("a", i) for i in range(n)]),
        "mi_str": lambda: pd.MultiIndex.from_tuples([("a" if i % 2 else "b", f"x{i}") for i in range(n)]),
        "mi3": lambda: pd.MultiIndex.from_tuples([(i % 2, f"x{i}", 0.5 * i) for i in range(n)]),
        "mi_dt": lambda: pd.MultiIndex.from_tuples([(pd.Timestamp("2020-01-01"), i) for i in range(n)]),
    }[kind]()


ROWS = ["range", "range2", "str", "oddstr", "int", "float", "mixed", "dt", "dt_tz", "td", "period", "interval", "mi", "mi_str", "mi3", "mi_dt"]
COLS = ["range", "str", "oddstr", "int", "float", "mixed", "dt", "td", "period", "mi", "mi_str", "mi3", "mi_dt"]
NAMES = [None, "n", "name", "", 7]


def named(index, name):
    if name is None:
        return index
    if isinstance(index, pd.MultiIndex):
        return index.set_names([name] + [f"{name}{i}" for i in range(1, index.nlevels)])
    return index.rename(name)


def scalars():
    out = []
    for t in ("2020-01-01", "2020-01-01 01:02:03.123456789", "1677-10-01", "2262-01-01", "1960-02-29 12:00:00.5", "0001-01-01", "9999-12-31 23:59:59"):
        out.append(("ts", t, None))
        if t[0] in "12" and t[:4] not in ("1677", "2262"):
            for tz in ("UTC", "Europe/Paris", "America/New_York", "Asia/Kolkata"):
                out.append(("ts", t, tz))
    for f in ("Y", "Q", "M", "W", "D", "h", "min", "s", "ms", "us", "Q-NOV", "W-WED", "2D", "3M", "B"):
        for t in ("2020-03-04 05:06:07", "1969-12-31 23:59:59", "2020-02-29"):
            out.append(("period", t, f))
    for closed in ("left", "right", "both", "neither"):
        for k in range(6):
            out.append(("interval", k, closed))
    for t in ("0s", "1D", "-1us", "5ns", "3h 2min"):
        out.append(("td", t, None))
    out.append(("nat", 0, None))
    out.append(("na", 0, None))
    return out


def scalar(kind, v, w):
    if kind == "ts":
        return pd.Timestamp(v, tz=w)
    if kind == "period":
        return pd.Period(v, w)
    if kind == "interval":
        a, b = [(0, 1), (0.5, 2.5), (pd.Timestamp("2020-01-01"), pd.Timestamp("2021-01-01 01:00")),
                (pd.Timedelta("1s"), pd.Timedelta("1D")), (-3, -1), (pd.Timestamp("2020-07-01", tz="UTC"), pd.Timestamp("2020-07-02", tz="UTC"))][v]
        return pd.Interval(a, b, closed=w)
    return {"td": lambda: pd.Timedelta(v), "nat": lambda: pd.NaT, "na": lambda: pd.NA}[kind]()


def equal(a, b, empty=False):
    if type(a) is not type(b) and not (isinstance(a, pd.RangeIndex) and type(b) is pd.Index):
        raise Violation(f"{type(a)} became {type(b)}: {b!r}")
    try:
        if isinstance(a, pd.DataFrame):
            assert_frame_equal(a, b, check_exact=True, check_freq=False, **({"check_index_type": False, "check_column_type": False} if empty else {}))
        elif isinstance(a, pd.Series):
            assert_series_equal(a, b, check_exact=True, check_freq=False, **({"check_index_type": False} if empty else {}))
        elif isinstance(a, pd.Index):
            assert_index_equal(a, b, check_exact=True)
        elif a is pd.NaT or a is pd.NA:
            if b is not a:
                raise Violation(f"{a!r} became {b!r}")
        elif a != b or repr(a) != repr(b):
            raise Violation(f"{a!r} became {b!r}")
    except AssertionError as exc:
        raise Violation(f"{exc}\n{a!r}\nbecame\n{b!r}") from None


CHILD = """
import sys
{prelude}
import jsonpickle, jsonpickle.ext.pandas, pandas as pd, numpy as np
jsonpickle.ext.pandas.register_handlers()
frame = pd.DataFrame({{k: np.array([1, 2], dtype=k) for k in {kinds!r}}})
frame["b"] = pd.array([True, None], dtype="boolean")
frame["s"] = pd.array(["x", None], dtype="string")
frame["c"] = pd.Categorical(["u", "v"])
if len(sys.argv) > 1:
    back = jsonpickle.decode(sys.argv[1])
    pd.testing.assert_frame_equal(frame, back)
    print("same")
else:
    print(jsonpickle.encode(frame))
"""
KINDS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "bool", "complex64", "complex128"]
PRELUDES = ["", "import decimal, sqlite3, asyncio", "x = [type('C%d' % i, (), {}) for i in range(3000)]",
            "import numpy", "x = [bytearray(97 * i) for i in range(1000)]; del x[::3]", "import pandas, xml.dom, unittest"]


class C22(Check):
    id = "C22"
    technique = "exhaustive enumeration of column types, labels, names and sizes"
    rule = "every combination within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"column types": len(COLUMNS), "row labels": len(ROWS), "column labels": len(COLS), "names": len(NAMES),
                "columns": 3, "rows": [1, 3, 60] + ([200] if self.thorough else [])}

    def setup(self):
        warnings.simplefilter("ignore")
        jsonpickle.ext.pandas.register_handlers()

    def cases(self):
        sizes = (1, 3, 60) + ((200,) if self.thorough else ())
        for c, n in itertools.product(COLUMNS, sizes):
            yield ("frame", (c,), n, "range", "str", None, None)
            if n <= 16 or c not in NOT_JSON:
                yield ("series", c, n, "range", None)
        for cs in itertools.product(PAIRS, repeat=2):
            yield ("frame", cs, 3, "range", "str", None, None)
        for cs in itertools.product(CORE, repeat=3):
            yield ("frame", cs, 2, "range", "str", None, None)
        for cs in itertools.product(("i8", "f8", "str"), repeat=5 if self.thorough else 4):
            yield ("frame", cs, 2, "range", "str", None, None)
        for r, c in itertools.product(ROWS, COLS):
            for n in (2 if r == "mixed" else 1, 3, 60):
                yield ("frame", ("i8", "str", "lists"), n, r, c, None, None)
            for rn, cn in itertools.product(NAMES, repeat=2):
                yield ("frame", ("f8", "obj"), 2, r, c, rn, cn)
        for c, r in itertools.product(COLUMNS, ROWS):
            for name in NAMES:
                yield ("series", c, 3, r, name)
        for r, name, n in itertools.product(ROWS, NAMES, (1, 2, 60, 200)):
            yield ("index", r, name, n)
        for c in CORE:
            for r in ("range", "str", "mi"):
                yield ("empty", c, r)
        for s in scalars():
            yield ("scalar", *s)
        for a, b in itertools.product(("frame", "series", "index", "ts", "array"), repeat=2):
            yield ("mixed", a, b)
        for n in range(1, 160):
            yield ("size", n)
        for k in range(len(PRELUDES)):
            yield ("process", k)
        yield ("unregister",)

    def trip(self, x, **opts):
        text = jsonpickle.encode(x, **opts)
        self.step(2)
        self.state(text)
        return jsonpickle.decode(text, **{k: v for k, v in opts.items() if k == "keys"})

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def everywhere(self, x, empty=False):
        n = [9]
        p = zoo.Plain()
        p.x, p.n = x, n
        first, n1, bp, n2, again = self.trip([x, n, p, n, x])
        equal(x, first, empty)
        if n1 is not n2 or bp.n is not n1 or n1 != [9]:
            raise Violation("references differ")
        if isinstance(x, (pd.DataFrame, pd.Series, pd.Index)) and not (again is first and bp.x is first):
            raise Violation("the object was decoded more than once")
        equal(x, again, empty)
        equal(x, self.trip(x), empty)
        equal(x, self.trip({"k": (x,)}, keys=True)["k"][0], empty)

    def run_frame(self, cs, n, r, c, rn, cn):
        cols = named(labels(c, len(cs)), cn)
        rows = named(labels(r, n), rn)
        df = pd.concat([pd.Series(COLUMNS[k](n), index=rows) for k in cs], axis=1)
        df.columns = cols
        self.everywhere(df)

    def run_series(self, c, n, r, name):
        s = pd.Series(COLUMNS[c](n), index=named(labels(r, n), name), name=name)
        self.everywhere(s)

    def run_index(self, r, name, n):
        self.everywhere(named(labels(r, n), name))

    def run_empty(self, c, r):
        rows = labels(r, 3)[:0]
        df = pd.DataFrame({"x": COLUMNS[c](3)})[:0]
        self.everywhere(df, empty=True)
        if r != "mi":
            self.everywhere(pd.Series(COLUMNS[c](3))[:0].set_axis(rows), empty=True)

    def run_scalar(self, *s):
        x = scalar(*s)
        self.everywhere(x)
        equal(x, self.trip([x, x], make_refs=False)[1])

    def part(self, kind, k):
        return {"frame": lambda: pd.DataFrame({"a": [k, 2], "b": [[1], None]}), "series": lambda: pd.Series([k, 0.5], name="s"),
                "index": lambda: pd.Index(["a", f"b{k}"], name="i"), "ts": lambda: pd.Timestamp(2020, 1, 1 + k), "array": lambda: np.arange(k + 30)}[kind]()

    def run_mixed(self, a, b):
        n = [9]
        x, y = self.part(a, 1), self.part(b, 2)
        bx, n1, by, n2, z = self.trip([x, n, {"y": y}, n, y])
        for u, v in ((x, bx), (y, by["y"]), (y, z)):
            if isinstance(u, np.ndarray):
                if not np.array_equal(u, v):
                    raise Violation(f"{u!r} became {v!r}")
            else:
                equal(u, v)
        if n1 is not n2:
            raise Violation("references differ")

    def run_size(self, n):
        """Texts of every length around the size where compression starts."""
        self.everywhere(pd.DataFrame({"a": ["x" * (3 * n)], "b": ["é"]}))
        self.everywhere(pd.Index(["y" * (4 * n), "z"], name="i"))

    def run_process(self, k):
        """Other processes write and read the same documents."""
        code = CHILD.format(prelude=PRELUDES[k], kinds=KINDS)
        frame = pd.DataFrame({k: np.array([1, 2], dtype=k) for k in KINDS})
        frame["b"] = pd.array([True, None], dtype="boolean")
        frame["s"] = pd.array(["x", None], dtype="string")
        frame["c"] = pd.Categorical(["u", "v"])
        self.step(2)
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=100)
        if p.returncode:
            raise Violation(p.stderr[-500:])
        equal(frame, jsonpickle.decode(p.stdout))
        p = subprocess.run([sys.executable, "-c", code, jsonpickle.encode(frame)], capture_output=True, text=True, timeout=100)
        if p.stdout.strip() != "same":
            raise Violation(f"another process reads something else: {p.stderr[-800:]}")

    def run_unregister(self):
        from jsonpickle import handlers

        classes = (pd.DataFrame, pd.Series, pd.Index, pd.PeriodIndex, pd.MultiIndex, pd.Timestamp, pd.Period, pd.Interval, pd.RangeIndex)
        try:
            if None in [handlers.get(c) for c in classes]:
                raise Violation("not registered")
            jsonpickle.ext.pandas.unregister_handlers()
            self.step(2)
            left = [c for c in classes if handlers.get(c) is not None]
            if left:
                raise Violation(f"still registered: {left}")
        finally:
            jsonpickle.ext.pandas.register_handlers()


CHECK = C22
