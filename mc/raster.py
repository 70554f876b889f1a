# -*- coding: utf-8 -*-
"""Point membership of graphics objects, and pictures as rows of bits.

Objects are the canonical tuples of mc.gmodel after mc.gdocs.transform (floats).
A picture is sampled at pixel centres; a pixel is 'sure' with respect to an object
when the object covers all or none of the 5x5 pixels around it, and 'near sure' when
this is so for the 3x3 pixels around it (the tips of acute corners may pass it unseen).
Lists of sure rows hold the rows of sure pixels and after them those of near sure ones."""
import math

from . import gdocs as D

MARGIN = 2


# ------------------------------------------------------------------ membership
def in_polygon(pts, x, y):
    inside = False
    ax, ay = pts[-1]
    for bx, by in pts:
        if (ay > y) != (by > y) and x < (bx - ax) * (y - ay) / (by - ay) + ax:
            inside = not inside
        ax, ay = bx, by
    return inside


def ngon(d, n, deg):
    return [(d / 2.0 * math.cos(math.radians(deg + 360.0 * i / n)), d / 2.0 * math.sin(math.radians(deg + 360.0 * i / n)))
            for i in range(int(n))]


def unrot(x, y, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return c * x + s * y, c * y - s * x


def with_hole(f, hole):
    d, w, h = hole
    if d > 0:
        return lambda x, y: f(x, y) and x * x + y * y > d * d / 4.0
    if w > 0 and h > 0:
        return lambda x, y: f(x, y) and (abs(x) > w / 2.0 or abs(y) > h / 2.0)
    return f


def seg_dist2(ax, ay, bx, by, x, y):
    dx, dy = bx - ax, by - ay
    n = dx * dx + dy * dy
    t = 0.0 if n == 0 else max(0.0, min(1.0, ((x - ax) * dx + (y - ay) * dy) / n))
    return (x - ax - t * dx) ** 2 + (y - ay - t * dy) ** 2


def macro_part(p):
    """(exposure, membership) of one macro primitive around the origin"""
    k = p[0]
    if k == '1':
        r2, cx, cy = p[2] ** 2 / 4.0, p[3], p[4]
        return p[1], lambda x, y: (x - cx) ** 2 + (y - cy) ** 2 <= r2
    if k == '20':
        pts = D.M.reference(p, (0, 0))[0][1]
        return p[1], lambda x, y: in_polygon(pts, x, y)
    if k in ('21', '4'):
        pts = D.M.reference(p, (0, 0))[0][1]
        return p[1], lambda x, y: in_polygon(pts, x, y)
    if k == '5':
        pts = [(a + p[3], b + p[4]) for a, b in ngon(p[5], p[2], p[6])]
        return p[1], lambda x, y: in_polygon(pts, x, y)
    if k == '7':
        cx, cy, ro, ri, g, rot = p[1], p[2], p[3] / 2.0, p[4] / 2.0, p[5] / 2.0, p[6]

        def f(x, y):
            x, y = unrot(x - cx, y - cy, rot)
            return ri * ri <= x * x + y * y <= ro * ro and abs(x) > g and abs(y) > g
        return 1, f
    raise KeyError(k)


def aperture(a):
    """membership of an aperture centred on the origin"""
    k = a[0]
    if k == 'C':
        r2 = a[1] ** 2 / 4.0
        return with_hole(lambda x, y: x * x + y * y <= r2, a[2])
    if k == 'R':
        w, h = a[1] / 2.0, a[2] / 2.0
        return with_hole(lambda x, y: abs(x) <= w and abs(y) <= h, a[3])
    if k == 'O':
        w, h = a[1] / 2.0, a[2] / 2.0
        r = min(w, h)
        return with_hole(lambda x, y: seg_dist2(-w + r, -h + r, w - r, h - r, x, y) <= r * r, a[3])
    if k == 'P':
        pts = ngon(a[1], a[2], a[3])
        return with_hole(lambda x, y: in_polygon(pts, x, y), a[4])
    if k in ('macro', 'prims'):
        parts = [macro_part(p) for p in (D.macro_prims(a[1], a[2]) if k == 'macro' else a[1])]
        s = a[3] if len(a) > 3 else 1.0

        def f(x, y):
            on = False
            for exposure, inside in parts:
                if inside(x / s, y / s):
                    on = bool(exposure)
            return on
        return f
    raise KeyError(k)


def sweep(o):
    """(centre, radius, start angle, counterclockwise sweep in radians) of an arc"""
    s, e, c, direction, quad = o[1:6]
    if direction == 'clockwise':
        s, e = e, s
    a0 = math.atan2(s[1] - c[1], s[0] - c[0])
    a1 = math.atan2(e[1] - c[1], e[0] - c[0])
    d = (a1 - a0) % (2 * math.pi)
    if d < 1e-9 or 2 * math.pi - d < 1e-9:
        d = 2 * math.pi if quad == 'multi-quadrant' else 0.0
    return c, math.hypot(s[0] - c[0], s[1] - c[1]), a0, d


def membership(o):
    k = o[0]
    if k == 'flash':
        f, (px, py) = aperture(o[1]), o[2]
        return lambda x, y: f(x - px, y - py)
    if k == 'line':
        (ax, ay), (bx, by), a = o[1], o[2], o[3]
        if a[0] == 'C':
            r2 = a[1] ** 2 / 4.0
            return lambda x, y: seg_dist2(ax, ay, bx, by, x, y) <= r2
        w, h = a[1] / 2.0, a[2] / 2.0
        nx, ny = ay - by, bx - ax
        lim = abs(nx) * w + abs(ny) * h
        x0, x1, y0, y1 = min(ax, bx) - w, max(ax, bx) + w, min(ay, by) - h, max(ay, by) + h
        return lambda x, y: x0 <= x <= x1 and y0 <= y <= y1 and abs((x - ax) * nx + (y - ay) * ny) <= lim
    if k == 'arc':
        c, r, a0, d = sweep(o)
        w = o[6][1] / 2.0
        (sx, sy), (ex, ey) = o[1], o[2]

        def f(x, y):
            if (x - sx) ** 2 + (y - sy) ** 2 <= w * w or (x - ex) ** 2 + (y - ey) ** 2 <= w * w:
                return True
            return (math.atan2(y - c[1], x - c[0]) - a0) % (2 * math.pi) <= d and \
                abs(math.hypot(x - c[0], y - c[1]) - r) <= w
        return f
    if k == 'region':
        pts = []
        for s in o[1]:
            pts.append(s[1])
            if s[0] == 'arc':
                c, r, a0, d = sweep(s)
                n = 96
                arc = [(c[0] + r * math.cos(a0 + d * i / n), c[1] + r * math.sin(a0 + d * i / n)) for i in range(n + 1)]
                pts += arc if s[4] == 'counterclockwise' else arc[::-1]
        return lambda x, y: in_polygon(pts, x, y)
    if k == 'drill':
        (px, py), r2 = o[1], o[2] ** 2 / 4.0
        return lambda x, y: (x - px) ** 2 + (y - py) ** 2 <= r2
    if k == 'slot':
        (ax, ay), (bx, by), r2 = o[1], o[2], o[3] ** 2 / 4.0
        return lambda x, y: seg_dist2(ax, ay, bx, by, x, y) <= r2
    raise KeyError(k)


# --------------------------------------------------------------------- pictures
class Frame(object):
    """W x H pixels; the lower left corner of the picture is at `origin`"""

    def __init__(self, bounds, scale, mirror=False):
        (x0, x1), (y0, y1) = bounds
        self.scale, self.origin = scale, (x0, y0)
        self.px = (x1 - x0) * scale, (y1 - y0) * scale
        self.W, self.H = int(math.ceil(self.px[0] - 1e-9)), int(math.ceil(self.px[1] - 1e-9))
        self.mirror = mirror
        self.key = (bounds, scale, mirror)
        xs = [i + 0.5 for i in range(-MARGIN, self.W + MARGIN)]
        if mirror:
            xs = [self.px[0] - v for v in xs]
        self.xs = [x0 + v / scale for v in xs]
        self.ys = [y0 + (self.px[1] - i - 0.5) / scale for i in range(-MARGIN, self.H + MARGIN)]
        # a picture of fractional size ends within its last row and column
        self.whole = [(1 << int(self.px[0] + 1e-9)) - 1 if i + 1 <= self.px[1] + 1e-9 else 0 for i in range(self.H)]
        self.full = (1 << len(self.xs)) - 1

    def rows(self, f):
        out = []
        for y in self.ys:
            r = 0
            for n, x in enumerate(self.xs):
                if f(x, y):
                    r |= 1 << n
            out.append(r)
        return out

    def sure(self, rows):
        """rows of sure and near sure pixels (without the margin)"""
        def erode(rows):
            h = [r & (r >> 1) & (r >> 2) for r in rows]
            near = [h[i] & h[i + 1] & h[i + 2] for i in range(self.H + 2)]
            h = [r & (r >> 1) & (r >> 2) for r in near]
            return [h[i] & h[i + 1] & h[i + 2] for i in range(self.H)] + [r >> 1 for r in near[1:-1]]
        on = erode(rows)
        off = erode([~r & self.full for r in rows])
        return [a | b for a, b in zip(on, off)], [r >> MARGIN for r in rows[MARGIN:-MARGIN]]


_cache = {}


def picture(objs, frame, invert=False):
    """(sure, on): rows of certain pixels and of covered pixels, the objects painted in order"""
    mask = (1 << frame.W) - 1
    sure = frame.whole * 2
    on = [mask if invert else 0] * frame.H
    for o in objs:
        key = (frame.key, o)
        if key not in _cache:
            if len(_cache) > 3000:
                _cache.clear()
            s, m = frame.sure(frame.rows(membership(o)))
            if o[0] == 'flash' and o[1][0] == 'prims':
                # what remains between the edges of two parts may be thinner than a pixel
                for q in o[1][1]:
                    one = ('flash', ('prims', ((q[0], 1) + q[2:] if q[0] != '7' else q,)), o[2], 'dark')
                    s = [a & b for a, b in zip(s, frame.sure(frame.rows(membership(one)))[0])]
            _cache[key] = s, m
        s, m = _cache[key]
        dark = (o[-1] == 'dark') != invert
        sure = [a & b for a, b in zip(sure, s)]
        for i in range(frame.H):
            on[i] = (on[i] | m[i]) & mask if dark else on[i] & ~m[i]
    return sure, on


def read_png(data):
    """(width, height, rows of (r, g, b, a))"""
    import io
    try:
        import cairo
    except ImportError:
        import cairocffi as cairo
    im = cairo.ImageSurface.create_from_png(io.BytesIO(data))
    w, h, st = im.get_width(), im.get_height(), im.get_stride()
    d = bytes(im.get_data())
    return w, h, [[(d[y * st + x * 4 + 2], d[y * st + x * 4 + 1], d[y * st + x * 4]) for x in range(w)] for y in range(h)]
