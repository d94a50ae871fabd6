"""datetime/timedelta over the (symbolic) virtual clock: exact rational seconds."""
from . import sym


class Clock:
    now = staticmethod(lambda: 0.0)


class VTimeDelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.s = seconds
        for v, k in ((days, 86400), (milliseconds, 0.001), (microseconds, 0.000001), (minutes, 60), (hours, 3600),
                     (weeks, 604800)):
            if not (isinstance(v, int) and v == 0):
                self.s = self.s + v * k

    def total_seconds(self):
        return self.s

    @property
    def seconds(self):
        raise sym.Cur.path.stop(sym.Unsupported("timedelta.seconds"))

    def __add__(self, o):
        if isinstance(o, VDateTime):
            return VDateTime(o.t + self.s)
        return VTimeDelta(seconds=self.s + o.s)

    __radd__ = __add__

    def __sub__(self, o):
        return VTimeDelta(seconds=self.s - o.s)

    def __neg__(self):
        return VTimeDelta(seconds=-self.s)

    def __mul__(self, k):
        return VTimeDelta(seconds=self.s * k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.s / o.s if isinstance(o, VTimeDelta) else VTimeDelta(seconds=self.s / o)

    def __lt__(self, o):
        return self.s < o.s

    def __le__(self, o):
        return self.s <= o.s

    def __gt__(self, o):
        return self.s > o.s

    def __ge__(self, o):
        return self.s >= o.s

    def __eq__(self, o):
        return isinstance(o, VTimeDelta) and self.s == o.s

    __hash__ = None

    def __bool__(self):
        return bool(self.s != 0)


class VDateTime:
    def __init__(self, t):
        self.t = t

    @classmethod
    def now(cls, tz=None):
        return cls(Clock.now())

    utcnow = now

    def timestamp(self):
        return self.t

    def __add__(self, d):
        return VDateTime(self.t + d.s)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, VDateTime):
            return VTimeDelta(seconds=self.t - o.t)
        return VDateTime(self.t - o.s)

    def __lt__(self, o):
        return self.t < o.t

    def __le__(self, o):
        return self.t <= o.t

    def __gt__(self, o):
        return self.t > o.t

    def __ge__(self, o):
        return self.t >= o.t

    def __eq__(self, o):
        return isinstance(o, VDateTime) and self.t == o.t

    __hash__ = None
