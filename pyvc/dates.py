"""The datetime module over symbolic instants.

A datetime is its wall clock reading in microseconds (as if it were UTC) and its offset from UTC, None if it has no
time zone. The local time zone is an unknown function of the instant. Seconds are real numbers: the rounding of a
double (0.12 microseconds for present dates) is not modelled. Years are between 1000 and 9999.
"""
import datetime as _dt
import math
import re as _re
from .terms import *
from .values import *

MEGA = 1000000
rounded = Function("round_microseconds", REAL, INT)
offset_at = Function("local_offset_at_instant", INT, INT)
offset_for = Function("local_offset_at_wall_time", INT, INT)
SYN = {"%T": "%H:%M:%S", "%F": "%Y-%m-%d", "%R": "%H:%M", "%D": "%m/%d/%y"}


def dt(wall, off=None):
    return ObjV(None, {"wall": wall, "off": off}, "datetime")


def delta(us):
    return ObjV(None, {"us": us}, "timedelta")


def micros(I, v, scale=MEGA):
    """Seconds (or a multiple) as rounded microseconds."""
    if isinstance(v, (int, float)):
        return IntVal(round(v * scale))
    if isinstance(v, Sym) and v.sort == INT:
        return v.e * scale
    if isinstance(v, Sym) and v.sort == REAL:
        x = v.e * scale
        n = rounded(x)
        r = z3.ToReal(n)
        I.assume(conj([r - x <= z3.Q(1, 2), x - r <= z3.Q(1, 2)]))
        return n
    raise Unsupported("time value")


def seconds(us):
    return Sym(z3.ToReal(us) / MEGA)


def instant(o):
    w, off = o.attrs["wall"], o.attrs["off"]
    return w - (offset_for(w) if off is None else off)


def zone(I, v):
    """The offset of a time zone at an instant."""
    if v is None:
        return lambda us: offset_at(us)
    if isinstance(v, ObjV) and v.tag == "timezone":
        return lambda us: v.attrs["off"]
    raise Unsupported("time zone")


def expand(fmt):
    for a, b in SYN.items():
        fmt = fmt.replace(a, b)
    return fmt


def codes(fmt):
    return _re.findall(r"%(.)", fmt)


def text(I, fmt, o):
    """strftime."""
    if not isinstance(fmt, str):
        raise Unsupported("time format")
    fmt = expand(fmt)
    off = o.attrs["off"]
    if set(codes(fmt)) & {"z", "Z"}:
        if off is None:
            fmt = fmt.replace("%z", "").replace("%Z", "")
        elif z3.is_int_value(off) and off.as_long() == 0:
            fmt = fmt.replace("%z", "+0000").replace("%Z", "UTC")
        else:
            raise Unsupported("offset in a formatted time")
    if not set(codes(fmt)) <= set("YmdHMSf%jyBbAapIc xX".replace(" ", "")):
        raise Unsupported("time format")
    r = formatted(fmt)(o.attrs["wall"])
    I.assume(neg(conj([r == (lit("") if I.strsort == P else z3.StringVal(""))])))
    return r


def formatted(fmt):
    return Function("strftime:" + fmt, INT, P)


def iso(I, o, sep="T", timespec="auto"):
    off = o.attrs["off"]
    if off is None:
        z = ""
    elif z3.is_int_value(off) and off.as_long() == 0:
        z = "+00:00"
    else:
        raise Unsupported("offset in a formatted time")
    base = "%Y-%m-%d" + sep + "%H:%M:%S"
    w = o.attrs["wall"]
    if timespec == "microseconds":
        return formatted(base + ".%f" + z)(w)
    if timespec == "seconds":
        return formatted(base + z)(w)
    if timespec == "auto":
        if I.branch(w % MEGA == 0):
            return formatted(base + z)(w)
        return formatted(base + ".%f" + z)(w)
    raise Unsupported("timespec")


def reading(fmt, w):
    """The time that the formatted time stands for; None if that is not known."""
    c = codes(fmt)
    if any(c.count(x) != 1 for x in "YmdHMS") or not set(c) <= set("YmdHMSf"):
        return None
    if "f" in c:
        return w
    return w - w % MEGA


def parse(I, v, fmt):
    """strptime."""
    if not isinstance(fmt, str):
        raise Unsupported("time format")
    fmt = expand(fmt)
    t = term(v, P)
    own = t.decl().name() if z3.is_app(t) else ""
    if own.startswith("strftime:"):
        got = own[len("strftime:"):]
        for z, off in (("", None), ("+0000", IntVal(0)), ("+00:00", IntVal(0))):
            if got == (fmt.replace("%z", z) if z else fmt) and ("%z" in fmt) == bool(z):
                w = reading(got.replace("+0000", "").replace("+00:00", ""), t.arg(0))
                if w is not None:
                    return dt(w, off)
                return dt(Function("strptime:" + fmt, P, INT)(t), off)
        if got.startswith("%Y-%m-%dT%H:%M:%S") and fmt.startswith("%Y-%m-%dT%H:%M:%S") or got.replace("%f", "") == fmt.replace("%f", ""):
            I.raise_(ValueError)
    if I.branch(Function("valid:" + fmt, P, B)(t)):
        return dt(Function("strptime:" + fmt, P, INT)(t), IntVal(0) if "%z" in fmt else None)
    I.raise_(ValueError)


def from_iso(I, v):
    t = term(v, P)
    own = t.decl().name() if z3.is_app(t) else ""
    m = _re.fullmatch(r"strftime:(%Y-%m-%d.%H:%M:%S(\.%f)?)(\+00:00)?", own)
    if m:
        return dt(reading(m.group(1), t.arg(0)), IntVal(0) if m.group(3) else None)
    if I.branch(Function("valid:iso", P, B)(t)):
        return dt(Function("fromisoformat", P, INT)(t), None)
    I.raise_(ValueError)


def method(I, o, name):
    from .lib import nat
    arg = lambda a, k, i, n, d=None: a[i] if len(a) > i else k.get(n, d)
    if o.tag == "timedelta":
        if name == "total_seconds":
            return nat(lambda I, a, k: seconds(o.attrs["us"]), name)
        if name == "__truediv__":
            return nat(lambda I, a, k: Sym(z3.ToReal(o.attrs["us"]) / z3.ToReal(a[0].attrs["us"])), name)
        us = o.attrs["us"]
        if name == "days":
            return Sym(us / (86400 * MEGA))
        if name == "seconds":
            return Sym((us / MEGA) % 86400)
        if name == "microseconds":
            return Sym(us % MEGA)
        return None
    w, off = o.attrs["wall"], o.attrs["off"]

    def replace(I, a, k):
        if a or not set(k) <= {"tzinfo", "microsecond"}:
            raise Unsupported("datetime.replace")
        w2, o2 = w, off
        if "microsecond" in k:
            w2 = w - w % MEGA + term(k["microsecond"], INT)
        if "tzinfo" in k:
            z = k["tzinfo"]
            if z is not None and not (isinstance(z, ObjV) and z.tag == "timezone"):
                raise Unsupported("time zone")
            o2 = None if z is None else z.attrs["off"]
        return dt(w2, o2)

    def astimezone(I, a, k):
        us = instant(o)
        f = zone(I, arg(a, k, 0, "tz"))(us)
        return dt(us + f, f)
    table = {"replace": replace, "astimezone": astimezone, "timestamp": lambda I, a, k: seconds(instant(o)),
             "strftime": lambda I, a, k: Sym(text(I, a[0], o)),
             "isoformat": lambda I, a, k: Sym(iso(I, o, arg(a, k, 0, "sep", "T"), arg(a, k, 1, "timespec", "auto"))),
             "timetuple": lambda I, a, k: ObjV(None, {"wall": w}, "struct_time"),
             "utctimetuple": lambda I, a, k: ObjV(None, {"wall": w if off is None else w - off}, "struct_time"),
             "utcoffset": lambda I, a, k: None if off is None else delta(off)}
    if name in table:
        return nat(table[name], "datetime." + name)
    if name == "microsecond":
        return Sym(w % MEGA)
    if name == "tzinfo":
        return None if off is None else ObjV(None, {"off": off}, "timezone")
    return None


def binop(I, op, a, b):
    """Arithmetic with datetimes and timedeltas; None if it is something else."""
    tag = lambda v: v.tag if isinstance(v, ObjV) else None
    x, y = tag(a), tag(b)
    if x == "datetime" and y == "datetime" and op == "-":
        p, q = a.attrs["off"], b.attrs["off"]
        if (p is None) != (q is None):
            I.raise_(TypeError)
        if p is None:
            return delta(a.attrs["wall"] - b.attrs["wall"])
        return delta(instant(a) - instant(b))
    if x == "datetime" and y == "timedelta" and op in "+-":
        us = b.attrs["us"]
        return dt(a.attrs["wall"] + us if op == "+" else a.attrs["wall"] - us, a.attrs["off"])
    if x == "timedelta" and y == "datetime" and op == "+":
        return binop(I, op, b, a)
    if x == "timedelta" and y == "timedelta":
        if op == "/":
            return Sym(z3.ToReal(a.attrs["us"]) / z3.ToReal(b.attrs["us"]))
        if op == "//":
            return Sym(a.attrs["us"] / b.attrs["us"])
        if op in "+-":
            return delta(a.attrs["us"] + b.attrs["us"] if op == "+" else a.attrs["us"] - b.attrs["us"])
    return None


def modules():
    from .lib import nat

    def now(utc):
        def f(I, a, k):
            us = I.fresh("now", INT)
            if utc:
                return dt(us, None)
            z = a[0] if a else k.get("tz")
            off = zone(I, z)(us)
            return dt(us + off, off if z is not None else None)
        return f

    def from_stamp(I, a, k):
        us = micros(I, a[0])
        z = a[1] if len(a) > 1 else k.get("tz")
        off = zone(I, z)(us)
        return dt(us + off, off if z is not None else None)

    def make(I, a, k):
        z = k.pop("tzinfo", None) if k else None
        if not all(isinstance(x, int) for x in list(a) + list(k.values())):
            raise Unsupported("symbolic datetime")
        d = _dt.datetime(*a, **k) - _dt.datetime(1970, 1, 1)
        us = d // _dt.timedelta(microseconds=1)
        return dt(IntVal(us), None if z is None else z.attrs["off"])

    def make_delta(I, a, k):
        scale = {"days": 86400 * MEGA, "seconds": MEGA, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * MEGA, "hours": 3600 * MEGA}
        k = dict(k)
        for n, v in zip(("days", "seconds", "microseconds"), a):
            k[n] = v
        if not set(k) <= set(scale):
            raise Unsupported("timedelta")
        us = IntVal(0)
        for n, v in k.items():
            us = us + micros(I, v, scale[n])
        return delta(us)
    utc = ObjV(None, {"off": IntVal(0)}, "timezone")

    def tz(I, a, k):
        return ObjV(None, {"off": a[0].attrs["us"]}, "timezone")
    cls = ModV("datetime.datetime", {"__call__": nat(make, "datetime"), "now": nat(now(False), "now"), "utcnow": nat(now(True), "utcnow"), "today": nat(now(False), "today"),
                                     "fromtimestamp": nat(from_stamp, "fromtimestamp"), "utcfromtimestamp": nat(lambda I, a, k: dt(micros(I, a[0]), None), "utcfromtimestamp"),
                                     "strptime": nat(lambda I, a, k: parse(I, a[0], a[1]), "strptime"), "fromisoformat": nat(lambda I, a, k: from_iso(I, a[0]), "fromisoformat")})
    return ModV("datetime", {"datetime": cls, "timedelta": nat(make_delta, "timedelta"), "UTC": utc,
                             "timezone": ModV("datetime.timezone", {"utc": utc, "__call__": nat(tz, "timezone")})})


def timegm(I, a, k):
    o = a[0]
    if isinstance(o, ObjV) and o.tag == "struct_time":
        return Sym(o.attrs["wall"] / MEGA)
    raise Unsupported("timegm")


def mktime(I, a, k):
    o = a[0]
    if isinstance(o, ObjV) and o.tag == "struct_time":
        w = o.attrs["wall"]
        s = w - w % MEGA
        return seconds(s - offset_for(s))
    raise Unsupported("mktime")
