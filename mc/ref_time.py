"""
Reference for timeseries conversion.

The arithmetic is plain Python floats; times (seconds, half seconds) are exact in it.

Written from the documented definition (docs / notebook "timeseries"), not from the code:

* point timeseries: the piecewise linear curve through the points
* average timeseries: the piecewise linear curve which has, at the edge between two
  periods, the mean of the two periods' averages; at the middle of each inner period the
  value that preserves the period's integral; the first (last) period is one straight
  line through its average at the middle.  The outcome is the exact mean of that curve.
* outside of the source: error (none), edge value (constant), straight continuation of
  the outermost segment (linear)

For averages the constant extrapolation continues with the first/last *average*.
"""

from bisect import bisect_left, bisect_right

F = float


class Insufficient(Exception):
    pass


def _segments_point(ts, vs):
    return [F(int(t)) for t in ts], [F(v) for v in vs]


def _segments_average(ts, vs):
    ts = [F(int(t)) for t in ts]
    vs = [F(v) for v in vs]
    n = len(vs)
    edges = [(vs[i] + vs[i + 1]) / 2 for i in range(n - 1)]
    edges = [2 * vs[0] - edges[0]] + edges + [2 * vs[-1] - edges[-1]]
    xs, ys = [], []
    for i in range(n):
        xs.append(ts[i])
        ys.append(edges[i])
        xs.append((ts[i] + ts[i + 1]) / 2)
        # mean of the two halves: ((e0+m)/2 + (m+e1)/2)/2 == v
        ys.append((4 * vs[i] - edges[i] - edges[i + 1]) / 2)
    xs.append(ts[n])
    ys.append(edges[n])
    return xs, ys


class Curve:
    def __init__(self, ts, vs, kind, extrapolation):
        self.kind = kind
        self.extrapolation = extrapolation
        if kind == "point":
            self.xs, self.ys = _segments_point(ts, vs)
        else:
            self.xs, self.ys = _segments_average(ts, vs)
        self.left = F(vs[0])
        self.right = F(vs[-1])

    def _line(self, i, x):
        x0, x1 = self.xs[i], self.xs[i + 1]
        y0, y1 = self.ys[i], self.ys[i + 1]
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)

    def at(self, x):
        xs = self.xs
        if x < xs[0]:
            return self.left if self.extrapolation == "constant" else self._line(0, x)
        if x > xs[-1]:
            return (
                self.right
                if self.extrapolation == "constant"
                else self._line(len(xs) - 2, x)
            )
        return self._line(max(bisect_left(xs, x) - 1, 0), x)

    def mean(self, a, b):
        """Exact mean over [a, b]."""
        total = F(0)
        # outside on the left
        if a < self.xs[0]:
            e = min(b, self.xs[0])
            if self.extrapolation == "constant":
                total += self.left * (e - a)
            else:
                total += (self._line(0, a) + self._line(0, e)) / 2 * (e - a)
        if b > self.xs[-1]:
            s = max(a, self.xs[-1])
            n = len(self.xs) - 2
            if self.extrapolation == "constant":
                total += self.right * (b - s)
            else:
                total += (self._line(n, s) + self._line(n, b)) / 2 * (b - s)
        first = max(bisect_right(self.xs, a) - 1, 0)
        for i in range(first, len(self.xs) - 1):
            if self.xs[i] >= b:
                break
            s, e = max(a, self.xs[i]), min(b, self.xs[i + 1])
            if s < e:
                total += (self._line(i, s) + self._line(i, e)) / 2 * (e - s)
        return total / (b - a)


def length(grid, kind):
    return len(grid) - (1 if kind == "average" else 0)


def convert(values, source, target, kind, extrapolation):
    """Values on grid ``source`` to grid ``target`` (grids are seconds)."""
    if len(values) < 3:
        raise Insufficient
    if extrapolation == "none" and (
        min(target) < min(source) or max(target) > max(source)
    ):
        raise Insufficient
    c = Curve(source, values, kind, extrapolation)
    if kind == "point":
        return [c.at(F(int(t))) for t in target]
    return [c.mean(F(int(a)), F(int(b))) for a, b in zip(target[:-1], target[1:])]
