# -*- coding: utf-8 -*-
"""Drawable shapes described by plain data, and their exact extents and corners."""
import math


def cis(deg, r=1.0):
    """exact at multiples of 90 degrees"""
    q, rest = divmod(deg, 90)
    c, s = (1.0, 0.0) if rest == 0 else (math.cos(math.radians(rest)), math.sin(math.radians(rest)))
    for _ in range(int(q) % 4):
        c, s = -s, c
    return (c * r, s * r)


def rot(p, deg, about=(0, 0)):
    c, s = cis(deg)
    x, y = p[0] - about[0], p[1] - about[1]
    return (c * x - s * y + about[0], s * x + c * y + about[1])


def add(p, q):
    return (p[0] + q[0], p[1] + q[1])


def make(spec, units='metric'):
    """the library's object for a specification"""
    from gerber import primitives as P
    k, a = spec[0], dict(spec[1])
    for n in ('position', 'start', 'end', 'center'):
        if n in a:
            a[n] = tuple(a[n])
    if 'aperture' in a:
        a['aperture'] = make(a['aperture'], units)
    if 'rotation' in a and not a['rotation']:
        del a['rotation']
    if k == 'Arc':
        centre, r = a.pop('center'), a.pop('r')
        a0, sweep = a.pop('a0'), a.pop('sweep')
        a['center'] = centre
        a['start'] = add(centre, cis(a0, r))
        a['end'] = a['start'] if abs(sweep) in (0, 360) else add(centre, cis(a0 + sweep, r))
        a['direction'] = 'counterclockwise' if sweep > 0 else 'clockwise'
        if sweep == 0:
            a['direction'] = a.pop('dir0')
        a.pop('dir0', None)
    if k in ('Outline', 'Region'):
        pts = [tuple(p) for p in a.pop('points')]
        ap = make(a.pop('pen', ['Circle', {'position': (0, 0), 'diameter': 0}]), units)
        a['primitives'] = [P.Line(p, q, ap, level_polarity='dark', units=units)
                           for p, q in zip(pts, pts[1:] + pts[:1])]
    return getattr(P, k)(units=units, **a)


def corners(spec):
    """corner points, or None for shapes without corners"""
    k, a = spec
    r = a.get('rotation', 0)
    if k in ('Rectangle', 'Diamond', 'ChamferRectangle'):
        p, w, h = a['position'], a['width'] / 2.0, a['height'] / 2.0
        if k == 'Rectangle':
            pts = [(-w, -h), (-w, h), (w, h), (w, -h)]
        elif k == 'Diamond':
            pts = [(0, h), (w, 0), (0, -h), (-w, 0)]
        else:
            c = a['chamfer']
            pts = []
            for (sx, sy), cut in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), a.get('corners') or [True] * 4):
                if cut:
                    pts += [(sx * (w - c), sy * h), (sx * w, sy * (h - c))]
                else:
                    pts.append((sx * w, sy * h))
        return [add(rot(q, r), p) for q in pts]
    if k == 'Polygon':
        return [add(cis(r + 360.0 * i / a['sides'], a['radius']), a['position']) for i in range(a['sides'])]
    if k == 'Outline':
        return [tuple(p) for p in a['points']]
    return None


def box_of(points):
    x, y = zip(*points)
    return ((min(x), max(x)), (min(y), max(y)))


def grow(box, w, h):
    return ((box[0][0] - w, box[0][1] + w), (box[1][0] - h, box[1][1] + h))


def pen(ap):
    """half extents of a pen"""
    k, a = ap
    if k == 'Circle':
        return a['diameter'] / 2.0, a['diameter'] / 2.0
    if k == 'Polygon':
        x, y = box_of(corners(['Polygon', dict(a, position=(0, 0))]))
        return max(-x[0], x[1]), max(-y[0], y[1])
    return a['width'] / 2.0, a['height'] / 2.0


def spine(spec):
    """extent of the centre line of a stroke"""
    k, a = spec
    if k == 'Line' or k == 'Slot':
        return box_of([a['start'], a['end']])
    r, a0, s = a['r'], a['a0'], a['sweep']
    pts = [cis(a0, r), cis(a0 + s, r)]
    lo, hi = min(a0, a0 + s), max(a0, a0 + s)
    for q in range(-8, 9):
        if lo <= 90 * q <= hi:
            pts.append(cis(90 * q, r))
    return box_of([add(p, a['center']) for p in pts])


def extent(spec):
    """(inner, outer): the shape's exact extent, and the loosest acceptable box.
    They differ only where the library documents nothing better than an enclosing box."""
    k, a = spec
    if k in ('Line', 'Arc'):
        w, h = pen(a['aperture'])
        inner = grow(spine(spec), w, h)
        if a['aperture'][0] == 'Polygon':
            r = a['aperture'][1]['radius']
            return inner, grow(spine(spec), r, r)
        return inner, inner
    if k == 'Slot':
        b = grow(spine(spec), a['diameter'] / 2.0, a['diameter'] / 2.0)
        return b, b
    if k == 'Region':
        b = box_of([tuple(p) for p in a['points']])
        return b, b
    if k == 'Outline':
        w, h = pen(a.get('pen', ['Circle', {'diameter': 0}]))
        b = box_of([tuple(p) for p in a['points']])
        return b, grow(b, w, h)
    p = a['position']
    r = a.get('rotation', 0)

    def sym(w, h):
        return ((p[0] - w, p[0] + w), (p[1] - h, p[1] + h))
    if k in ('Circle', 'Drill', 'RoundButterfly'):
        return (sym(a['diameter'] / 2.0, a['diameter'] / 2.0),) * 2
    if k == 'SquareButterfly':
        return (sym(a['side'] / 2.0, a['side'] / 2.0),) * 2
    if k == 'SquareRoundDonut':
        return (sym(a['outer_diameter'] / 2.0, a['outer_diameter'] / 2.0),) * 2
    if k == 'Donut':
        d = a['outer_diameter'] / 2.0
        return (sym(d * math.sqrt(3) / 2 if a['shape'] == 'hexagon' else d, d),) * 2
    if k == 'Ellipse':
        c, s = cis(r)
        w, h = a['width'] / 2.0, a['height'] / 2.0
        return (sym(math.hypot(w * c, h * s), math.hypot(w * s, h * c)),) * 2
    if k == 'Polygon':
        return box_of(corners(spec)), sym(a['radius'], a['radius'])
    # rectangles and relatives
    w, h = a['width'] / 2.0, a['height'] / 2.0
    outer = box_of([add(rot(q, r), p) for q in ((w, h), (-w, h), (w, -h), (-w, -h))])
    if k == 'Rectangle':
        return outer, outer
    if k in ('Diamond', 'ChamferRectangle'):
        return box_of(corners(spec)), outer
    if k == 'Obround':
        rad = min(w, h)
        ends = [(w - rad, 0), (rad - w, 0)] if w > h else [(0, h - rad), (0, rad - h)]
        return grow(box_of([add(rot(q, r), p) for q in ends]), rad, rad), outer
    if k == 'RoundRectangle':
        rad = a['radius']
        pts = []
        inner = None
        for (sx, sy), rounded in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), a['corners']):
            if rounded:
                b = grow(box_of([add(rot((sx * (w - rad), sy * (h - rad)), r), p)]), rad, rad)
            else:
                b = box_of([add(rot((sx * w, sy * h), r), p)])
            inner = b if inner is None else join(inner, b)
        return inner, outer
    raise KeyError(k)


def join(a, b):
    return tuple((min(p[0], q[0]), max(p[1], q[1])) for p, q in zip(a, b))


def inside(a, b, tol=1e-9):
    """box a lies within box b"""
    return all(q[0] <= p[0] + tol and p[1] <= q[1] + tol for p, q in zip(a, b))
