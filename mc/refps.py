"""
Reference model of a parameter set (documented semantics, plain Python).

* a parameter has one storage (unit, time points of the first view on it)
* a scalar or timeseries view converts from/to that storage
* a timeseries view which wrote last returns exactly what it wrote until somebody else
  writes; while locked it keeps what it wrote to itself, unlocking publishes it
* a parameter with children is read only and reads as sum over its leaves
"""

from . import ref_time

# dimension, scale to base, offset to base: base = scale * x + offset
UNITS = {
    "kg": ("mass", 1.0, 0.0),
    "g": ("mass", 1e-3, 0.0),
    "t": ("mass", 1e3, 0.0),
    "K": ("temperature", 1.0, 0.0),
    "degC": ("temperature", 1.0, 273.15),
    "degF": ("temperature", 5.0 / 9.0, 459.67 * 5.0 / 9.0),
    "m": ("length", 1.0, 0.0),
    "km": ("length", 1e3, 0.0),
    "W/m^2": ("forcing", 1.0, 0.0),
    "mW/m^2": ("forcing", 1e-3, 0.0),
}


class RefError(Exception):
    """The real code has to raise one of these."""

    def __init__(self, *names):
        super().__init__(names)
        self.names = names


def uconv(x, source, target):
    _, s1, o1 = UNITS[source]
    _, s2, o2 = UNITS[target]
    if source == target:
        return float(x)
    return (float(x) * s1 + o1 - o2) / s2


def tconv(values, source, target, kind, extrapolation):
    if len(values) >= 3 and list(source) == list(target):
        return [float(v) for v in values]
    try:
        return [
            float(v)
            for v in ref_time.convert(values, source, target, kind, extrapolation)
        ]
    except ref_time.Insufficient:
        raise RefError("InsufficientDataError")


class RefParameter:
    def __init__(self, name, region, parent):
        self.name, self.region, self.parent = name, region, parent
        self.children = {}
        self.type = self.unit = self.grid = self.data = None
        self.written = self.read = False
        self.version = 0

    def leaves(self):
        if not self.children:
            return [self]
        return [leaf for c in self.children.values() for leaf in c.leaves()]

    def key(self):
        d = self.data
        return (
            self.name,
            self.region,
            self.type,
            self.unit,
            self.grid,
            self.written,
            self.read,
            tuple(round(x, 9) for x in d)
            if isinstance(d, list) and d and isinstance(d[0], float)
            else repr(d),
        )


class RefView:
    def __init__(self, param, kind, unit=None, grid=None, extrapolation=None):
        self.param, self.kind, self.unit, self.grid = param, kind, unit, grid
        self.extrapolation = extrapolation
        self.data = None
        self.seen = None
        self.locked = self.modified = False

    # -- scalar / generic -----------------------------------------------------------
    def get(self):
        p = self.param
        if self.kind == "generic":
            if not p.written:
                raise RefError("ParameterEmptyError")
            return p.data
        if p.children:
            if any(not c.written for c in p.leaves()):
                raise RefError("ParameterEmptyError")
            return sum(uconv(c.data, c.unit, self.unit) for c in p.leaves())
        if not p.written:
            raise RefError("ParameterEmptyError")
        return uconv(p.data, p.unit, self.unit)

    def set(self, value):
        p = self.param
        if p.children:
            raise RefError("ParameterReadonlyError")
        p.data = value if self.kind == "generic" else uconv(value, self.unit, p.unit)
        p.written = True
        p.version += 1

    # -- timeseries -----------------------------------------------------------------
    def n(self):
        return ref_time.length(self.grid, self.kind)

    def _from(self, c):
        if not c.written:
            raise RefError("ParameterEmptyError")
        return tconv(
            [uconv(x, c.unit, self.unit) for x in c.data],
            c.grid,
            self.grid,
            self.kind,
            self.extrapolation,
        )

    def values(self):
        """What this view has to show."""
        p = self.param
        if p.children:
            parts = [self._from(c) for c in p.leaves()]
            return [sum(x) for x in zip(*parts)]
        if self.modified:
            return list(self.data)
        if self.data is not None and self.seen == p.version:
            return list(self.data)
        self.data = self._from(p)
        self.seen = p.version
        return list(self.data)

    def write(self, values):
        p = self.param
        if p.children:
            raise RefError("ParameterReadonlyError")
        if len(values) != self.n():
            raise RefError("TimeseriesPointsValuesMismatchError")
        values = [float(v) for v in values]
        if self.locked:
            self.data, self.modified = values, True
            return
        data = self._to(values)
        self.data = values
        self._publish(data)

    def _to(self, values):
        p = self.param
        return tconv(
            [uconv(x, self.unit, p.unit) for x in values],
            self.grid,
            p.grid,
            self.kind,
            self.extrapolation,
        )

    def _publish(self, data):
        p = self.param
        p.data = data
        p.written = True
        p.version += 1
        self.seen = p.version
        self.modified = False

    def update(self, fun):
        """Element-wise write: read, change, write."""
        if self.param.children:
            raise RefError("ParameterReadonlyError")
        cur = self.values()
        fun(cur)
        self.write(cur)

    def lock(self):
        self.locked = True

    def unlock(self):
        self.locked = False
        if self.modified:
            try:
                data = self._to(self.data)
            except RefError:
                # rejected: as if not written
                self.modified = False
                self.data = None
                raise
            self._publish(data)

    def key(self):
        return (
            self.param.name,
            self.param.region,
            self.kind,
            self.unit,
            self.grid,
            self.locked,
            self.modified,
            None if self.data is None else tuple(round(x, 9) for x in self.data),
            self.seen == self.param.version,
        )


class RefSet:
    def __init__(self, root="World"):
        self.root = root
        self.params = {}  # (region tuple, name tuple) -> RefParameter

    def find(self, name, region):
        return self.params.get((region, name))

    def request(
        self, kind, name, region=("World",), unit=None, grid=None, extrapolation="none"
    ):
        """kind: scalar, generic, point, average"""
        name, region = tuple(name), tuple(region)
        if unit is not None and unit not in UNITS:
            raise RefError("UndefinedUnitError")
        if not name:
            raise RefError("ValueError")
        if region[:1] != (self.root,):
            raise RefError("ValueError")
        grid = None if grid is None else tuple(grid)
        # may it be created?
        existing = None
        depth = 0
        for i in range(1, len(name) + 1):
            p = self.find(name[:i], region)
            if p is None:
                break
            existing, depth = p, i
        if depth < len(name) and existing is not None:
            if existing.written:
                raise RefError("ParameterWrittenError")
            q = existing
            while q is not None:
                if q.read:
                    raise RefError("ParameterReadError")
                q = q.parent
        if depth == len(name):
            p = existing
            if p.type is not None and p.type != kind:
                raise RefError("ParameterTypeError")
            if p.type is None and p.children:
                if kind == "generic":
                    raise RefError("ParameterAggregationError")
                bad = set()
                for c in p.leaves():
                    if c.type != kind:
                        bad.add("ParameterAggregationError")
                    elif UNITS[c.unit][0] != UNITS[unit][0]:
                        bad.add("DimensionalityError")
                if bad:
                    raise RefError(*bad)
            if p.type is not None and unit is not None:
                if UNITS[p.unit][0] != UNITS[unit][0]:
                    raise RefError("DimensionalityError")
        else:
            p = existing
            for i in range(depth + 1, len(name) + 1):
                c = RefParameter(name[:i], region, p)
                self.params[(region, name[:i])] = c
                if p is not None:
                    p.children[name[i - 1]] = c
                p = c
        if grid is not None:
            # (refused regardless of the extrapolation, a TODO of the code)
            for c in p.leaves() if p.children else [p]:
                if c.grid is not None and c.grid[0] > grid[1]:
                    raise RefError("InsufficientDataError")
        if p.type is None:
            p.type, p.unit, p.grid = kind, unit, grid
        p.read = True
        return RefView(p, kind, unit, grid, extrapolation)

    def info(self, name, region=("World",)):
        p = self.find(tuple(name), tuple(region))
        if p is None:
            return None
        return (p.name, p.region, p.type, p.unit, not p.written)

    def key(self):
        return tuple(sorted((str(p.key()) for p in self.params.values())))
