# -*- coding: utf-8 -*-
"""Alphabet of RS-274X commands and its reachable model states."""
from collections import deque
from fractions import Fraction

from . import gmodel as G

APS = {10: ['C', [0.5]], 11: ['R', [1, 0.5]], 12: ['O', [0.5, 1, 0.25]], 13: ['P', [1, 6, 15]]}


def header(units='IN', fmt=(2, 4), zero='L', aps=(10, 11)):
    return ([['FS', zero, list(fmt)], ['MO', units]] + [['AD', d] + APS[d] for d in aps])


def rot(v, q):
    for _ in range(q % 4):
        v = (-v[1], v[0])
    return v


class Menu(object):
    """box: coordinates 0..box in both axes (quarters of the unit, times step)."""

    def __init__(self, box=1, step=2, aps=(10, 11), extra=False):
        self.box, self.step, self.aps, self.extra = box, step, aps, extra

    def inside(self, p):
        return all(0 <= v <= self.box * self.step for v in p)

    def events(self, g):
        """Commands the domain of the properties allows in model state g."""
        S, B = self.step, self.box * self.step
        ev = []
        ctrl = ev.append
        have_ap = g.ap is not None
        pos = (int(g.pos[0] / G.Q), int(g.pos[1] / G.Q))
        pts = [(0, 0), (B, 0), (B, B)] + ([(S, B)] if self.extra else [])
        # moves
        for x, y in pts:
            ctrl(['c', None, x, y, None, None, 'D02'])
        ctrl(['c', None, 0, None, None, None, 'D02'])
        ctrl(['c', None, None, B, None, None, 'D02'])
        ctrl(['c', None, None, None, None, None, 'D02'])
        for f in ('G01', 'G02'):
            ctrl(['c', f, B, 0, None, None, 'D02'])
        # straight draws
        can_draw = have_ap or g.region
        if can_draw:
            lin = [(0, B), (B, 0), (0, 0), (B, None), (None, B)]
            if g.interp == 'G01':
                for x, y in lin:
                    ctrl(['c', None, x, y, None, None, 'D01'])
                ctrl(['c', None, None, None, None, None, 'D01'])
            ctrl(['c', 'G01', 0, B, None, None, 'D01'])
            if g.op == 'D01':
                ctrl(['c', 'G01', B, None, None, None, None])
            # arcs
            for func in ((None, 'G02', 'G03') if g.interp != 'G01' else ('G02', 'G03')):
                eff = func or g.interp
                for off, end in self.arcs(pos, eff, g.quad):
                    i, j = off
                    ctrl(['c', func, end[0], end[1], i, j, 'D01'])
                    if g.op == 'D01' and func is None:
                        ctrl(['c', func, end[0], end[1], i if i else None, j if j else None, None])
                if g.quad == 'multi-quadrant':
                    # full circle: end = start, given or omitted
                    ctrl(['c', func, None, None, S, 0, 'D01'])
        # flashes
        if have_ap and not g.region:
            ctrl(['c', None, B, B, None, None, 'D03'])
            ctrl(['c', None, 0, None, None, None, 'D03'])
            ctrl(['c', None, None, None, None, None, 'D03'])
            ctrl(['c', 'G01', 0, B, None, None, 'D03'])
        # modal operation code
        if (g.op == 'D02' or (g.op == 'D01' and g.interp == 'G01' and can_draw)
                or (g.op == 'D03' and have_ap and not g.region)):
            ctrl(['c', None, B, 0, None, None, None])
            ctrl(['c', None, None, B, None, None, None])
        for f in ('G01', 'G02', 'G03'):
            ctrl(['c', f, None, None, None, None, None])
        for d in self.aps:
            ctrl(['D', d])
        ctrl(['G54', self.aps[-1]])
        ctrl(['G37'] if g.region else ['G36'])
        ctrl(['G74'])
        ctrl(['G75'])
        if not g.region:
            ctrl(['LP', 'C'])
            ctrl(['LP', 'D'])
        ctrl(['G04', ' D01 text X1Y1'])
        ctrl(['raw', 'G99*'])
        return ev

    def arcs(self, pos, func, quad):
        """(offset as written, end) of quarter (and longer) arcs inside the box."""
        S = self.step
        sense = 1 if func == 'G03' else 3
        for vec in ((S, 0), (-S, 0), (0, S), (0, -S)):
            cen = (pos[0] + vec[0], pos[1] + vec[1])
            r = (-vec[0], -vec[1])
            for quarters in ((1,) if quad == 'single-quadrant' else (1, 2, 3)):
                e = r
                for _ in range(quarters):
                    e = rot(e, sense)
                end = (cen[0] + e[0], cen[1] + e[1])
                if not self.inside(end):
                    continue
                off = vec if quad == 'multi-quadrant' else (abs(vec[0]), abs(vec[1]))
                yield off, end

    def probe(self, g):
        """Commands that make the hidden modal state of g visible."""
        cmds = []
        h = g.clone()

        def do(c):
            cmds.append(c)
            h.apply(c)
        S, B = self.step, self.box * self.step
        pos = (int(h.pos[0] / G.Q), int(h.pos[1] / G.Q))
        if h.op == 'D02':                       # modal D02
            do(['c', None, S, None, None, None, None])
        elif h.op == 'D03' and not h.region:    # modal flash
            do(['c', None, None, S, None, None, None])
        if h.ap is None and not h.region:
            do(['D', self.aps[0]])

        def draw():
            pos = (int(h.pos[0] / G.Q), int(h.pos[1] / G.Q))
            if h.interp == 'G01':
                if h.op == 'D01':
                    do(['c', None, pos[0] + S, None, None, None, None])
                else:
                    do(['c', None, pos[0] + S, None, None, None, 'D01'])
            else:
                r = (-S, 0)
                e = rot(r, 1 if h.interp == 'G03' else 3)
                do(['c', None, pos[0] + S + e[0], pos[1] + e[1], S, None, 'D01'])
        draw()
        draw()
        if h.region:
            do(['c', None, pos[0], pos[1], None, None, 'D02'])
            draw()
            draw()
            do(['G37'])
            do(['D', self.aps[0]] if h.ap is None else ['G04', 'x'])
            draw()
        do(['c', None, None, None, None, None, 'D03'])
        return cmds


_closures = {}


def closure(menu, head, start=()):
    """BFS over model states.  Returns [(state_canon, trace, model)], breadth first,
    each trace being a shortest command list that reaches the state."""
    key = (menu.box, menu.step, tuple(menu.aps), menu.extra, repr(head), repr(start))
    if key in _closures:
        return _closures[key]
    g0 = G.interpret(head + list(start))
    g0.out = []
    seen = {g0.canon()}
    order = [(g0.canon(), list(start), g0)]
    todo = deque(order)
    while todo:
        canon, trace, g = todo.popleft()
        for c in menu.events(g):
            h = g.clone()
            h.apply(c)
            k = h.canon()
            if k not in seen:
                seen.add(k)
                item = (k, trace + [c], h)
                order.append(item)
                todo.append(item)
    _closures[key] = order
    return order


def sequences(menu, g, depth):
    """every command sequence of exactly `depth` events from model state g"""
    if depth == 0:
        yield []
        return
    for c in menu.events(g):
        h = g.clone()
        h.apply(c)
        for rest in sequences(menu, h, depth - 1):
            yield [c] + rest
