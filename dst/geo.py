"""Seeded workload geometry: literals built from small triangulated meshes.

Everything here is a pure function of the random generator passed in; nothing
of the code under test is used.  Two geometries cut from one mesh share
vertices and edges exactly (touching, overlapping, containing, equal); two
geometries from shifted meshes cross.

A literal is a JSON value:
  {"t": "point", "v": [x, y]}
  {"t": "segment", "v": [[x, y], [x, y]]}
  {"t": "multisegment", "v": [segment values]}
  {"t": "contour" | "region", "v": [[x, y], ...]}
  {"t": "multiregion", "v": [contour values]}
  {"t": "polygon", "v": [border value, [hole values]]}
  {"t": "multipolygon", "v": [polygon values]}
with integer coordinates.
"""
import math
from random import Random

UNIT = 12

KINDS = ('point', 'segment', 'multisegment', 'contour', 'region',
         'multiregion', 'polygon', 'multipolygon')


def orient(a, b, c):
    value = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (value > 0) - (value < 0)


class Mesh:
    def __init__(self, rng, width, height, jitter, shift=(0, 0)):
        spacing = 4
        self.points = {}
        for i in range(width + 1):
            for j in range(height + 1):
                dx = dy = 0
                if jitter:
                    dx, dy = rng.randint(-1, 1), rng.randint(-1, 1)
                self.points[i, j] = ((i * spacing + dx) * UNIT + shift[0],
                                     (j * spacing + dy) * UNIT + shift[1])
        self.triangles = []
        for i in range(width):
            for j in range(height):
                a, b, c, d = ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))
                halves = (((a, b, c), (a, c, d))
                          if rng.random() < .5
                          else ((a, b, d), (b, c, d)))
                self.triangles += halves
        p = self.points
        if any(orient(p[a], p[b], p[c]) <= 0 for a, b, c in self.triangles):
            for (i, j) in list(p):
                p[i, j] = (i * spacing * UNIT + shift[0],
                           j * spacing * UNIT + shift[1])
        self.edge_triangles = {}
        for index, triangle in enumerate(self.triangles):
            for k in range(3):
                edge = frozenset((triangle[k - 1], triangle[k]))
                self.edge_triangles.setdefault(edge, []).append(index)
        self.neighbours = {index: set()
                           for index in range(len(self.triangles))}
        for indices in self.edge_triangles.values():
            if len(indices) == 2:
                a, b = indices
                self.neighbours[a].add(b)
                self.neighbours[b].add(a)
        self.edges = sorted(tuple(sorted(edge))
                            for edge in self.edge_triangles)

    def grow(self, rng, size, allowed=None):
        allowed = set(range(len(self.triangles))
                      if allowed is None
                      else allowed)
        if not allowed:
            return set()
        result = {rng.choice(sorted(allowed))}
        while len(result) < size:
            frontier = sorted({n for t in result for n in self.neighbours[t]
                               if n in allowed} - result)
            if not frontier:
                break
            result.add(rng.choice(frontier))
        return result

    def components(self, triangles):
        rest, result = set(triangles), []
        while rest:
            seed = min(rest)
            stack, component = [seed], {seed}
            while stack:
                for n in sorted(self.neighbours[stack.pop()]):
                    if n in rest and n not in component:
                        component.add(n)
                        stack.append(n)
            rest -= component
            result.append(component)
        return result

    def cycles(self, triangles):
        """Simple boundary cycles, interior on the left."""
        outgoing = {}
        boundary = set()
        for index in triangles:
            triangle = self.triangles[index]
            for k in range(3):
                a, b = triangle[k - 1], triangle[k]
                others = self.edge_triangles[frozenset((a, b))]
                if sum(other in triangles for other in others) == 1:
                    boundary.add((a, b))
        for a, b in sorted(boundary):
            outgoing.setdefault(a, []).append(b)
        result = []
        while outgoing:
            start = min(outgoing)
            path, positions = [start], {start: 0}
            while True:
                current = path[-1]
                if current not in outgoing:
                    break
                targets = outgoing[current]
                nxt = targets.pop(0)
                if not targets:
                    del outgoing[current]
                if nxt in positions:
                    position = positions[nxt]
                    cycle = path[position:]
                    result.append(cycle)
                    for vertex in path[position + 1:]:
                        del positions[vertex]
                    path = path[:position + 1]
                    if position == 0 and nxt not in outgoing:
                        break
                else:
                    positions[nxt] = len(path)
                    path.append(nxt)
        return result

    def to_contour(self, cycle):
        points = [self.points[vertex] for vertex in cycle]
        return simplify(points)

    def polygons(self, triangles):
        """List of (border, holes) of the edge-connected components."""
        result = []
        for component in self.components(triangles):
            borders, holes = [], []
            for cycle in self.cycles(component):
                contour = self.to_contour(cycle)
                (borders if area2(contour) > 0 else holes).append(contour)
            if len(borders) != 1:
                continue
            result.append((borders[0], holes))
        return result


def area2(points):
    return sum(points[k - 1][0] * points[k][1] - points[k - 1][1] * points[k][0]
               for k in range(len(points)))


def simplify(points):
    result = list(points)
    k = 0
    while k < len(result) and len(result) > 3:
        if not orient(result[k - 1], result[k], result[(k + 1) % len(result)]):
            del result[k]
            k = max(k - 1, 0)
        else:
            k += 1
    k = 0
    while k < len(result) and len(result) > 3:
        if not orient(result[k - 1], result[k], result[(k + 1) % len(result)]):
            del result[k]
        else:
            k += 1
    return result


def respell_contour(rng, contour):
    contour = list(contour)
    k = rng.randrange(len(contour))
    contour = contour[k:] + contour[:k]
    if rng.random() < .5:
        contour.reverse()
    return contour


def _lists(value):
    return [_lists(item) for item in value] if isinstance(value,
                                                          (list, tuple)) else value


class Source:
    """Produces literals of any kind out of one mesh."""

    def __init__(self, rng, small=False, shift=(0, 0)):
        self.rng = rng
        self.blocks = rng.random() < .4
        if self.blocks:
            width, height = rng.choice([(3, 3), (5, 3), (4, 4), (5, 5), (6, 5),
                                        (7, 4), (7, 7)][:4 if small else 7])
        elif small:
            width, height = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        else:
            width, height = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 3),
                                        (4, 4)])
        self.width, self.height = width, height
        self.mesh = Mesh(rng, width, height,
                         not self.blocks and rng.random() < .6, shift)
        self.total = len(self.mesh.triangles)
        self.history = []

    def make(self, kind):
        literal = {"t": kind, "v": _lists(getattr(self, 'make_' + kind)())}
        return literal

    # areal

    def block(self, left=0, bottom=0, right=None, top=None):
        """Random rectangle of cells: (set of triangles, its extent)."""
        rng = self.rng
        right = self.width if right is None else right
        top = self.height if top is None else top
        x0, x1 = sorted(rng.sample(range(left, right + 1), 2))
        y0, y1 = sorted(rng.sample(range(bottom, top + 1), 2))
        return {(i * self.height + j) * 2 + half
                for i in range(x0, x1) for j in range(y0, y1)
                for half in (0, 1)}, (x0, y0, x1, y1)

    def around(self, triangles):
        """Triangles having a common vertex with the given ones."""
        mesh = self.mesh
        vertices = {vertex for index in triangles
                    for vertex in mesh.triangles[index]}
        return {index for index, triangle in enumerate(mesh.triangles)
                if not vertices.isdisjoint(triangle)}

    def eroded(self, triangles):
        rest = set(range(self.total)) - set(triangles)
        result = set(triangles) - self.around(rest)
        return {index for index in result
                if all(0 < i < self.width and 0 < j < self.height
                       for i, j in self.mesh.triangles[index])}

    def hollows(self, triangles):
        """Components of the complement which are not on the rim."""
        mesh = self.mesh
        return [component
                for component in mesh.components(set(range(self.total))
                                                 - set(triangles))
                if all(len(mesh.neighbours[index]) == 3
                       for index in component)]

    def block_subset(self):
        rng = self.rng
        roll = rng.random()
        if self.history and roll < .75:
            base = set(rng.choice(self.history[-4:]))
            how = rng.choice(['same', 'eroded', 'around', 'filled', 'hollows',
                              'hollow', 'hollows eroded', 'hollow around',
                              'rest', 'less', 'more', 'border and less',
                              'eroded less', 'part'])
            hollows = self.hollows(base)
            inside = set().union(*hollows) if hollows else set()
            result = base
            if how == 'eroded':
                result = self.eroded(base | inside if rng.random() < .5
                                     else base)
            elif how == 'around':
                result = self.around(base | inside if rng.random() < .5
                                     else base)
            elif how == 'filled':
                result = base | inside
            elif how == 'hollows':
                result = inside
            elif how == 'hollow':
                result = rng.choice(hollows) if hollows else base
            elif how == 'hollows eroded':
                result = self.eroded(inside)
            elif how == 'hollow around':
                result = (self.around(rng.choice(hollows)) if hollows
                          else self.around(base))
            elif how == 'rest':
                result = set(range(self.total)) - base
            elif how == 'less':
                result = base - self.block()[0]
            elif how == 'more':
                result = base | self.block()[0]
            elif how == 'border and less':
                result = base - self.eroded(base | inside) | (
                        base & self.block()[0])
            elif how == 'eroded less':
                result = self.eroded(base | inside)
                result -= self.eroded(result)
            elif how == 'part':
                result = base & self.block()[0]
            if result:
                return result
        result, (x0, y0, x1, y1) = self.block()
        roll = rng.random()
        if roll < .25:
            result = set(range(self.total))
            x0, y0, x1, y1 = 0, 0, self.width, self.height
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                if x1 - x0 > 2 and y1 - y0 > 2:
                    result -= self.block(x0 + 1, y0 + 1, x1 - 1, y1 - 1)[0]
        if rng.random() < .35:
            # other parts
            for _ in range(rng.choice([1, 2])):
                extra = self.block()[0]
                if rng.random() < .6:
                    extra -= self.around(result)
                result |= extra
        return result

    def subset(self):
        rng, mesh = self.rng, self.mesh
        if self.blocks:
            result = self.block_subset() or {rng.randrange(self.total)}
            self.history.append(frozenset(result))
            return result
        roll = rng.random()
        if self.history and roll < .45:
            base = set(rng.choice(self.history))
            how = rng.random()
            if how < .3:
                result = base
            elif how < .5:
                extra = sorted(set(range(self.total)) - base)
                result = base | set(rng.sample(extra, min(len(extra),
                                                          rng.randint(1, 3))))
            elif how < .75 and len(base) > 1:
                result = base - set(rng.sample(sorted(base),
                                               rng.randint(1, min(3, len(base)
                                                                  - 1))))
            else:
                result = set(range(self.total)) - base
        elif roll < .6:
            result = set(range(self.total))
            inner = [index for index in range(self.total)
                     if len(mesh.neighbours[index]) == 3]
            if inner:
                result -= set(rng.sample(inner, rng.randint(1, min(4,
                                                                   len(inner)))))
        elif roll < .8:
            result = mesh.grow(rng, rng.randint(1, max(1, self.total - 1)))
        else:
            result = {index for index in range(self.total)
                      if rng.random() < rng.choice((.3, .5, .7))}
        if not result:
            result = {rng.randrange(self.total)}
        self.history.append(frozenset(result))
        return result

    def some_polygons(self):
        while True:
            result = self.mesh.polygons(self.subset())
            if result:
                return result

    def some_polygon(self):
        polygons = self.some_polygons()
        if self.rng.random() < .6:
            return max(polygons, key=lambda polygon: (len(polygon[1]),
                                                      len(polygon[0])))
        return self.rng.choice(polygons)

    def make_polygon(self):
        border, holes = self.some_polygon()
        rng = self.rng
        holes = list(holes)
        rng.shuffle(holes)
        return (respell_contour(rng, border),
                [respell_contour(rng, hole) for hole in holes])

    def make_multipolygon(self):
        rng = self.rng
        polygons = self.some_polygons()
        rng.shuffle(polygons)
        return [(respell_contour(rng, border),
                 [respell_contour(rng, hole) for hole in holes])
                for border, holes in polygons]

    def make_region(self):
        border, holes = self.some_polygon()
        if holes and self.rng.random() < .4:
            return respell_contour(self.rng, self.rng.choice(holes))
        return respell_contour(self.rng, border)

    make_contour = make_region

    def make_multiregion(self):
        rng = self.rng
        roll = rng.random()
        if roll < .3:
            # holes of a polygon are a multiregion
            _, holes = self.some_polygon()
            if holes:
                return [respell_contour(rng, hole) for hole in holes]
        for _ in range(8):
            regions = [border
                       for border, holes in self.some_polygons()
                       if not holes]
            if regions:
                rng.shuffle(regions)
                return [respell_contour(rng, region) for region in regions]
        return [self.make_region()]

    # linear

    def contour_edges(self):
        polygons = self.some_polygons()
        result = []
        for border, holes in polygons:
            for contour in [border, *holes]:
                result += [[contour[k - 1], contour[k]]
                           for k in range(len(contour))]
        return result

    def mesh_edges(self):
        points = self.mesh.points
        return [[points[a], points[b]] for a, b in self.mesh.edges]

    def make_segment(self):
        rng = self.rng
        roll = rng.random()
        if roll < .35:
            result = rng.choice(self.contour_edges())
        elif roll < .6:
            result = rng.choice(self.mesh_edges())
        else:
            while True:
                result = [self.make_point(), self.make_point()]
                if tuple(result[0]) != tuple(result[1]):
                    break
        result = [tuple(end) for end in result]
        if rng.random() < .25:
            (x0, y0), (x1, y1) = result
            if (x0 + x1) % 2 == 0 and (y0 + y1) % 2 == 0:
                result = [result[0], ((x0 + x1) // 2, (y0 + y1) // 2)]
        elif rng.random() < .15:
            (x0, y0), (x1, y1) = result
            result = [(x0, y0), (2 * x1 - x0, 2 * y1 - y0)]
        if rng.random() < .5:
            result.reverse()
        return result

    def make_multisegment(self):
        rng = self.rng
        roll = rng.random()
        edges = (self.contour_edges()
                 if roll < .4
                 else self.mesh_edges())
        if roll > .85:
            edges = merge_collinear(rng, edges)
        share = rng.choice((.25, .5, .8, 1.))
        picked = [edge for edge in edges if rng.random() < share]
        if not picked:
            picked = [rng.choice(edges)]
        unique, seen = [], set()
        for edge in picked:
            key = frozenset(map(tuple, edge))
            if key not in seen:
                seen.add(key)
                unique.append(list(edge))
        if len(unique) > 14:
            unique = rng.sample(unique, 14)
        rng.shuffle(unique)
        for edge in unique:
            if rng.random() < .5:
                edge.reverse()
        return unique

    def make_point(self):
        rng, points = self.rng, self.mesh.points
        roll = rng.random()
        if roll < .4:
            return rng.choice(sorted(points.values()))
        elif roll < .65:
            a, b = rng.choice(self.mesh.edges)
            (x0, y0), (x1, y1) = points[a], points[b]
            return (x0 + x1) // 2, (y0 + y1) // 2
        elif roll < .9:
            a, b, c = (points[vertex]
                       for vertex in rng.choice(self.mesh.triangles))
            return (a[0] + b[0] + c[0]) // 3, (a[1] + b[1] + c[1]) // 3
        x, y = rng.choice(sorted(points.values()))
        return (x + rng.randint(-3, 3) * UNIT // 2,
                y + rng.randint(-3, 3) * UNIT // 2)


def merge_collinear(rng, edges):
    edges = [tuple(sorted(map(tuple, edge))) for edge in edges]
    rng.shuffle(edges)
    result = []
    for edge in edges:
        for k, other in enumerate(result):
            if other[1] == edge[0] and not orient(*other, edge[1]):
                result[k] = (other[0], edge[1])
                break
            if edge[1] == other[0] and not orient(*edge, other[1]):
                result[k] = (edge[0], other[1])
                break
        else:
            result.append(edge)
    return [list(edge) for edge in result]


class Pool:
    """Sources for one scenario: usually one mesh, sometimes two or three."""

    def __init__(self, rng, small=None):
        if small is None:
            small = rng.random() < .4
        self.rng = rng
        self.sources = [Source(rng, small)]
        if rng.random() < .5:
            shift = rng.choice([(2 * UNIT, 0), (0, 2 * UNIT),
                                (UNIT, UNIT), (2 * UNIT, 3 * UNIT),
                                (-UNIT, 2 * UNIT), (60 * UNIT, 0),
                                (4 * UNIT, 4 * UNIT)])
            self.sources.append(Source(rng, small, shift))

    def make(self, kind):
        source = (self.sources[0]
                  if len(self.sources) == 1 or self.rng.random() < .6
                  else self.rng.choice(self.sources))
        return source.make(kind)

    def pair(self, left_kind, right_kind):
        """Operands of one query, related on purpose."""
        rng = self.rng
        if left_kind in LINEAR and right_kind in LINEAR:
            if rng.random() < .4:
                left, right = linear_pair(rng, left_kind, right_kind)
                if left_kind == 'multisegment' and rng.random() < .3:
                    left = corners(rng, left_kind, right) or left
                return left, right
        if left_kind == 'point' and right_kind in AREAL and (rng.random()
                                                             < .4):
            # inside of some border or hole
            roll = rng.random()
            right = (Tree(rng).make(right_kind) if roll < .5
                     else (Grid(rng).make(right_kind) if roll < .7
                           else self.make(right_kind)))
            contour = some_contour(rng, right)
            k = rng.randrange(len(contour))
            corner = [contour[k - 2], contour[k - 1], contour[k]]
            return {"t": 'point', "v": [sum(point[axis]
                                            for point in corner) // 3
                                        for axis in range(2)]}, right
        if (left_kind not in ('point', *LINEAR) and right_kind in AREAL
                and rng.random() < .08):
            # the same but for one vertex
            right = (rng.choice([Skyline, Star, Grid])(rng)
                     if rng.random() < .7 else self).make(right_kind)
            left = convert(rng, right, left_kind)
            left = left and nudged(rng, left)
            if left is not None:
                if rng.random() < .5:
                    # seen the other way
                    other = convert(rng, left, right_kind)
                    left, right = ((convert(rng, right, left_kind), other)
                                   if other is not None else (left, right))
                return left or self.make(left_kind), right
        if right_kind in AREAL and rng.random() < .2:
            skyline = rng.choice([Skyline, Star, Grid, Grid])(rng)
            right = skyline.make(right_kind)
            if left_kind in AREAL:
                return (convert(rng, right, left_kind)
                        if rng.random() < .2
                        else None) or skyline.make(left_kind), right
            other = (right if rng.random() < .4
                     else skyline.make('multiregion'))
            literal = (convert(rng, other, left_kind)
                       if rng.random() < .4 else None)
            if literal is None:
                literal = ({"t": 'point',
                            "v": _lists(rng.choice(marks(rng, other)))}
                           if left_kind == 'point'
                           else chords(rng, left_kind, other))
            return literal, right
        if right_kind in AREAL and rng.random() < .35:
            tree = Tree(rng)
            if left_kind in AREAL and rng.random() < .5:
                result = tree.chain_pair(left_kind, right_kind)
                if result is not None:
                    return result
            right = tree.make(right_kind)
            if left_kind in AREAL:
                return tree.make(left_kind), right
            other = tree.make('multiregion')
            literal = (convert(rng, other, left_kind)
                       if rng.random() < .4 else None)
            if literal is None:
                both = {"t": 'multiregion',
                        "v": [some_contour(rng, right), *other['v']]}
                literal = ({"t": 'point', "v": _lists(rng.choice(marks(rng,
                                                                       both)))}
                           if left_kind == 'point'
                           else chords(rng, left_kind, both))
            return literal, right
        right = self.make(right_kind)
        if left_kind not in ('point', 'segment') and rng.random() < .25:
            left = corners(rng, left_kind, right)
            if left is not None:
                return left, right
        if left_kind in LINEAR and rng.random() < .3:
            return chords(rng, left_kind, right), right
        if rng.random() < .12:
            related = convert(rng, right, left_kind)
            if related is not None:
                return related, right
        return self.make(left_kind), right


LINEAR = ('segment', 'multisegment')
DIRECTIONS = [(4, 0), (4, 2), (4, 4), (2, 4), (0, 4), (-2, 4), (-4, 4),
              (-4, 2), (-4, 0), (-4, -2), (-4, -4), (-2, -4), (0, -4),
              (2, -4), (4, -4), (4, -2)]
ODD_DIRECTIONS = [(sx * x, sy * y) for x, y in [(4, 1), (3, 2), (1, 4), (4, 3)]
                  for sx in (1, -1) for sy in (1, -1)]


def corners(rng, kind, literal):
    """Small angles with apexes at vertices of a geometry."""
    edges = geometry_edges(literal)
    apexes = sorted({tuple(end) for edge in edges for end in edge})
    apexes = rng.sample(apexes, min(len(apexes),
                                    rng.choice([1, 1, 1, 2, 3])))
    kept, scale = [], UNIT // 12
    directions = DIRECTIONS if rng.random() < .3 else ODD_DIRECTIONS
    for apex in apexes:
        if all(max(abs(apex[axis] - other[axis]) for axis in range(2))
               > 16 * scale for other in kept):
            kept.append(apex)
    groups = []
    for apex in kept:
        ends = [(apex[0] + scale * x, apex[1] + scale * y)
                for x, y in rng.sample(directions,
                                       rng.choice([2, 2, 2, 3]))]
        if rng.random() < .2:
            # along an edge
            start, end = rng.choice([
                edge for edge in edges if apex in map(tuple, edge)])
            other = end if tuple(start) == apex else start
            ends[0] = ((3 * apex[0] + other[0]) // 4,
                       (3 * apex[1] + other[1]) // 4)
            if (ends[0] == apex
                    or orient(apex, ends[0], other)
                    or any(not orient(apex, ends[0], end)
                           for end in ends[1:])):
                ends[0] = tuple(other)
                if any(not orient(apex, ends[0], end) for end in ends[1:]):
                    continue
        groups.append((apex, ends))
    if kind == 'multisegment':
        segments = [[apex, end] if rng.random() < .5 else [end, apex]
                    for apex, ends in groups for end in ends]
        rng.shuffle(segments)
        segments = non_overlapping(rng, segments)
        return {"t": kind, "v": _lists(segments)} if segments else None
    triangles = [[apex, *ends[:2]] for apex, ends in groups
                 if orient(apex, ends[0], ends[1])]
    if not triangles:
        return None
    triangles = [respell_contour(rng, triangle) for triangle in triangles]
    if kind in ('contour', 'region'):
        value = triangles[0]
    elif kind == 'multiregion':
        value = triangles
    elif kind == 'polygon':
        value = [triangles[0], []]
    elif kind == 'multipolygon':
        value = [[triangle, []] for triangle in triangles]
    else:
        return None
    return {"t": kind, "v": _lists(value)}


def geometry_edges(literal):
    t, v = literal['t'], literal['v']
    if t == 'segment':
        return [v]
    elif t == 'multisegment':
        return v
    elif t in ('contour', 'region'):
        return [[v[k - 1], v[k]] for k in range(len(v))]
    elif t == 'multiregion':
        return [edge for part in v
                for edge in geometry_edges({"t": 'region', "v": part})]
    elif t == 'polygon':
        return geometry_edges({"t": 'multiregion', "v": [v[0], *v[1]]})
    return [edge for part in v
            for edge in geometry_edges({"t": 'polygon', "v": part})]


def nudged(rng, literal):
    """The literal with one vertex of its contours moved a little."""
    import copy
    fresh = copy.deepcopy(literal)
    contours = []

    def collect(value, t):
        if t in ('contour', 'region'):
            contours.append(value)
        else:
            kinds = {'multiregion': ['region'] * len(value),
                     'polygon': ['region', 'multiregion'],
                     'multipolygon': ['polygon'] * len(value)}[t]
            for item, kind in zip(value, kinds):
                collect(item, kind)

    collect(fresh['v'], fresh['t'])
    contour = rng.choice(contours)
    edges = [[list(p), list(q)] for p, q in geometry_edges(fresh)]
    for _ in range(4):
        k = rng.randrange(len(contour))
        old, before = contour[k], contour[k - 1]
        after = contour[(k + 1) % len(contour)]
        fresh_vertex = [old[0] + rng.choice([-2, -1, 0, 1, 2]),
                        old[1] + rng.choice([-2, -1, 1, 2])]
        if not orient(before, fresh_vertex, after):
            continue
        if all(fresh_vertex not in edge
               and not meets([neighbour, fresh_vertex], edge, neighbour)
               for edge in edges
               if edge not in ([before, old], [old, after],
                               [old, before], [after, old])
               for neighbour in (before, after)):
            contour[k] = fresh_vertex
            return fresh
    return None


def meets(first, second, except_at):
    """Do segments have common points besides the given one."""
    (p, q), (r, s) = first, second
    a, b = orient(p, q, r), orient(p, q, s)
    c, d = orient(r, s, p), orient(r, s, q)
    if not (a or b):
        axis = 0 if p[0] != q[0] else 1
        low, high = sorted((p[axis], q[axis]))
        other_low, other_high = sorted((r[axis], s[axis]))
        low, high = max(low, other_low), min(high, other_high)
        return low < high or low == high and low != except_at[axis]
    if a * b > 0 or c * d > 0:
        return False
    if except_at in second:
        return False
    # touching the exceptional point with an inner point counts for nothing
    return not (except_at == p and c == 0 or except_at == q and d == 0)


def marks(rng, literal):
    """Points of interest of a geometry: vertices and points of edges."""
    edges = []

    def collect(value, t):
        if t in ('contour', 'region'):
            edges.extend([value[k - 1], value[k]] for k in range(len(value)))
        elif t == 'segment':
            edges.append(value)
        elif t in ('multisegment', 'multiregion', 'multipolygon'):
            for item in value:
                collect(item, {'multisegment': 'segment',
                               'multiregion': 'region',
                               'multipolygon': 'polygon'}[t])
        elif t == 'polygon':
            collect(value[0], 'region')
            for item in value[1]:
                collect(item, 'region')

    if literal['t'] == 'point':
        return [literal['v']]
    collect(literal['v'], literal['t'])
    rng.shuffle(edges)
    result = []
    for (x0, y0), (x1, y1) in edges[:8]:
        result.append((x0, y0))
        result.append((x0 + (x1 - x0) // 4 * 2, y0 + (y1 - y0) // 4 * 2))
        if rng.random() < .2:
            result.append((x0 + (x1 - x0) // 4, y0 + (y1 - y0) // 4))
    return result


def chords(rng, kind, literal):
    """Segments between points of interest of a geometry."""
    points = sorted(set(map(tuple, marks(rng, literal))))
    contour = some_contour(rng, literal)
    if kind == 'segment' and contour and rng.random() < .4:
        # from the last or the first vertex along a turn of the contour
        start = rng.choice([-1, -1, -1, 0, -2])
        end = start + rng.choice([-2, 2, 2, -3, 3, 1, -1])
        chord = [tuple(contour[start % len(contour)]),
                 tuple(contour[end % len(contour)])]
        if rng.random() < .3:
            (x0, y0), (x1, y1) = chord
            x2, y2 = contour[(end + 1) % len(contour)]
            chord[1] = ((x1 + x2) // 2, (y1 + y2) // 2)
        if rng.random() < .5:
            chord.reverse()
        if chord[0] != chord[1]:
            return {"t": kind, "v": _lists(chord)}
    if len(points) < 2:
        points += [(points[0][0] + UNIT, points[0][1]),
                   (points[0][0], points[0][1] + UNIT)]

    def chord():
        start, end = rng.sample(points, 2)
        roll = rng.random()
        if roll < .15:
            end = (2 * end[0] - start[0], 2 * end[1] - start[1])
        elif roll < .3:
            start = (start[0] + (end[0] - start[0]) // 2,
                     start[1] + (end[1] - start[1]) // 2)
        elif roll < .4:
            start = (start[0] + (end[0] - start[0]) // 4,
                     start[1] + (end[1] - start[1]) // 4)
            end = (end[0] - (end[0] - start[0]) // 4,
                   end[1] - (end[1] - start[1]) // 4)
        return [start, end] if start != end else chord()

    if kind == 'segment':
        return {"t": kind, "v": _lists(chord())}
    if rng.random() < .3:
        # a fan
        centre = rng.choice(points)
        segments = [[centre, end] for end in points if end != centre]
        segments = rng.sample(segments, min(len(segments), 5))
    else:
        segments = [chord() for _ in range(rng.choice([1, 2, 3, 5]))]
    return {"t": kind, "v": _lists(non_overlapping(rng, segments))}


def some_contour(rng, literal):
    t, v = literal['t'], literal['v']
    if t in ('contour', 'region'):
        return v
    elif t == 'multiregion':
        return rng.choice(v)
    elif t == 'polygon':
        return rng.choice([v[0], *v[1]])
    elif t == 'multipolygon':
        border, holes = rng.choice(v)
        return rng.choice([border, *holes])
    return None


def overlap(a, b):
    (p, q), (r, s) = a, b
    if orient(p, q, r) or orient(p, q, s):
        return False
    axis = 0 if p[0] != q[0] else 1
    low, high = sorted((p[axis], q[axis]))
    other_low, other_high = sorted((r[axis], s[axis]))
    return max(low, other_low) < min(high, other_high)


def non_overlapping(rng, segments):
    """Valid multisegment; once in a while an invalid one."""
    if rng.random() < .04:
        return segments
    result = []
    for segment in segments:
        if not any(overlap(segment, other) for other in result):
            result.append(segment)
    return result


def linear_pair(rng, left_kind, right_kind):
    """Two operands about one line: chains, stars and crossings on it."""
    dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 3)])
    dx, dy = dx * UNIT, dy * UNIT
    length = rng.randint(2, 6)
    line = [(k * dx, k * dy) for k in range(-1, length + 2)]

    def piece(start, end):
        return [line[start], line[end]]

    def chain():
        start, end = sorted(rng.sample(range(len(line)), 2))
        result = []
        while start < end:
            stop = rng.randint(start + 1, end)
            if rng.random() < .85:
                result.append(piece(start, stop))
            start = stop
        return result

    def star(centre=None):
        centre = centre or rng.choice(line)
        sides = rng.choice([[-1], [1], [-1, 1]])
        result = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            side = rng.choice(sides)
            along, across = rng.randint(-2, 2), rng.randint(1, 2)
            result.append([centre,
                           (centre[0] + along * dx - side * across * dy,
                            centre[1] + along * dy + side * across * dx)])
        return result

    def crossing():
        (start, end), = star()[:1]
        return [[(2 * start[0] - end[0], 2 * start[1] - end[1]), end]]

    def side():
        offset = rng.choice([-1, 1]) * rng.randint(1, 2)
        return [[(x - offset * dy, y + offset * dx)
                 for x, y in piece(*sorted(rng.sample(range(len(line)), 2)))]]

    comb = rng.random() < .25

    def teeth():
        # ends on the line, mostly from one side at each place
        centres = rng.sample(line[1:-1], min(len(line) - 2,
                                             rng.choice([2, 2, 3, 4])))
        result = [segment for centre in centres
                  for segment in star(centre)[:rng.choice([1, 1, 2])]]
        if rng.random() < .15:
            result += rng.choice([chain, crossing, side])()
        return non_overlapping(rng, result)

    def several():
        if comb:
            result = teeth()
            if result:
                return result
        if rng.random() < .15:
            parts = [piece(k, k + 1) for k in range(len(line) - 1)]
            start, end = sorted(rng.sample(range(len(line)), 2))
            return parts[start:end]
        result = []
        for _ in range(rng.choice([1, 2, 3])):
            result += rng.choice([chain, chain, star, star, crossing,
                                  side])()
        result = non_overlapping(rng, result)
        return result or [piece(0, 1)]

    def one():
        roll = rng.random()
        if comb and roll < .8:
            return piece(0, -1)
        if roll < .75:
            return piece(*sorted(rng.sample(range(len(line)), 2)))
        elif roll < .85:
            return star()[0]
        return crossing()[0]

    def make(kind):
        if kind == 'segment':
            value = list(one())
            if rng.random() < .5:
                value.reverse()
        else:
            value = [segment if rng.random() < .5 else segment[::-1]
                     for segment in several()]
            rng.shuffle(value)
            value = value[:12]
        return {"t": kind, "v": _lists(value)}

    left, right = make(left_kind), make(right_kind)
    if (left_kind == right_kind == 'multisegment' and rng.random() < .3):
        # same segments divided in another way
        left = {"t": 'multisegment', "v": _lists(divided(rng, right['v']))}
    return left, right


def divided(rng, segments):
    result = []
    for (x0, y0), (x1, y1) in segments:
        roll = rng.random()
        if roll < .1:
            continue
        mid = ((x0 + x1) // 2, (y0 + y1) // 2)
        if (roll < .5 and not orient((x0, y0), (x1, y1), mid)
                and mid not in ((x0, y0), (x1, y1))):
            result += [[(x0, y0), mid], [mid, (x1, y1)]]
        else:
            result.append([(x0, y0), (x1, y1)])
    return result or [segments[0]]


class Tree:
    """Disjoint boxes nested in boxes, drawn through one affine map."""

    def __init__(self, rng):
        self.rng = rng
        self.map = rng.choice([(1, 0, 0, 1), (1, 0, 0, 1), (0, 1, 1, 0),
                               (1, 1, -1, 1), (2, 1, 0, 1), (-1, 0, 1, 1)])
        self.nodes = []
        self.children = {}
        self.grow((0, 0, 24, 24), rng.choice([2, 3, 3, 4]), None)
        if rng.random() < .35:
            left = rng.choice([24, 26, 40])
            self.grow((left, 0, left + 12, 12), 2, None)

    def grow(self, extent, depth, parent):
        rng = self.rng
        number = len(self.nodes)
        self.nodes.append(extent)
        self.children[number] = []
        if parent is not None:
            self.children[parent].append(number)
        x0, y0, x1, y1 = extent
        if not depth or x1 - x0 < 4 or y1 - y0 < 4:
            return
        margin = 0 if rng.random() < .1 else 1
        x0, y0, x1, y1 = x0 + margin, y0 + margin, x1 - margin, y1 - margin
        parts = [(x0, y0, x1, y1)]
        if rng.random() < .6:
            gap = rng.choice([0, 1, 1])
            if rng.random() < .5:
                middle = (x0 + x1) // 2
                parts = [(x0, y0, middle, y1), (middle + gap, y0, x1, y1)]
            else:
                middle = (y0 + y1) // 2
                parts = [(x0, y0, x1, middle), (x0, middle + gap, x1, y1)]
        for part in parts:
            if (part[0] < part[2] and part[1] < part[3]
                    and rng.random() < .9):
                self.grow(part, depth - 1, number)

    def descendants(self, number):
        result = []
        for child in self.children[number]:
            result += [child, *self.descendants(child)]
        return result

    def antichain(self, numbers, size):
        rng = self.rng
        numbers = list(numbers)
        rng.shuffle(numbers)
        result = []
        for number in numbers:
            if len(result) == size:
                break
            box = self.nodes[number]
            if all(self.apart(box, self.nodes[other]) for other in result):
                result.append(number)
        return result

    @staticmethod
    def apart(a, b):
        return a[2] < b[0] or b[2] < a[0] or a[3] < b[1] or b[3] < a[1]

    def contour(self, number):
        x0, y0, x1, y1 = self.nodes[number]
        a, b, c, d = self.map
        step = UNIT // 2
        points = [((a * x + b * y) * step, (c * x + d * y) * step)
                  for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
        return respell_contour(self.rng, points)

    def polygon(self, number, holes=True):
        rng = self.rng
        x0, y0, x1, y1 = self.nodes[number]
        inner = [other for other in self.descendants(number)
                 if x0 < self.nodes[other][0] and self.nodes[other][2] < x1
                 and y0 < self.nodes[other][1] and self.nodes[other][3] < y1]
        if holes and rng.random() < .5:
            children = [other for other in inner
                        if other in self.children[number]]
            inner = children or inner
        taken = (self.antichain(inner, rng.choice([1, 1, 2, 3]))
                 if holes and rng.random() < .85 else [])
        return [self.contour(number), [self.contour(other)
                                       for other in taken]]

    def within(self, inner, outer):
        a, b = self.nodes[inner], self.nodes[outer]
        return b[0] < a[0] and a[2] < b[2] and b[1] < a[1] and a[3] < b[3]

    def chain_pair(self, left_kind, right_kind):
        """Operands having borders and hollows between each other's."""
        rng = self.rng
        numbers = range(len(self.nodes))
        triples = [(a, b, c) for a in numbers for b in numbers
                   if self.within(b, a)
                   for c in numbers if self.within(c, b)]
        if not triples:
            return None
        a, b, c = rng.choice(triples)

        def polygon(border, holes):
            inner = [number for number in numbers
                     if self.within(number, border)
                     and all(self.apart(self.nodes[number], self.nodes[hole])
                             for hole in holes)]
            if rng.random() < .3:
                holes = holes + self.antichain(inner, 1)
            holes = list(holes)
            rng.shuffle(holes)
            return border, holes

        deeper = [number for number in numbers if self.within(number, c)]
        beside = [number for number in numbers
                  if self.within(number, b)
                  and self.apart(self.nodes[number], self.nodes[c])]
        hollow = rng.choice([[c], [c], [c], [],
                             [rng.choice(deeper)] if deeper else [c],
                             [rng.choice(beside)] if beside else [c]])
        outer = polygon(a, rng.choice([[c], [c], [c], [b], []]))
        inner = polygon(b, hollow)
        first, second = rng.choice([(outer, inner), (inner, outer)])

        def build(kind, node):
            border, holes = node
            rest = [number for number in numbers
                    if self.apart(self.nodes[number], self.nodes[border])]
            extra = (self.antichain(rest, rng.choice([1, 2]))
                     if rng.random() < .4 else [])
            value = [self.contour(border), [self.contour(hole)
                                            for hole in holes]]
            if kind in ('contour', 'region'):
                value = value[0]
            elif kind == 'multiregion':
                inside = (holes if holes and rng.random() < .3
                          else [border, *extra])
                value = [self.contour(number) for number in inside]
            elif kind == 'multipolygon':
                value = [value, *[self.polygon(number) for number in extra]]
            return {"t": kind, "v": _lists(value)}

        return build(left_kind, first), build(right_kind, second)

    def make(self, kind):
        rng = self.rng
        numbers = range(len(self.nodes))
        top = [number for number in numbers if self.children[number]]
        one = rng.choice(top if top and rng.random() < .7 else list(numbers))
        if kind in ('contour', 'region'):
            value = self.contour(rng.choice(numbers))
        elif kind == 'polygon':
            value = self.polygon(one)
        else:
            taken = self.antichain(numbers, rng.choice([1, 2, 2, 3, 4]))
            value = ([self.contour(number) for number in taken]
                     if kind == 'multiregion'
                     else [self.polygon(number) for number in taken])
        return {"t": kind, "v": _lists(value)}


AREAL = ('contour', 'region', 'multiregion', 'polygon', 'multipolygon')


class Skyline:
    """Geometries bounded by long polylines over a common range.

    Levels are functions of the position along the range, drawn one above
    another; a region lies between two levels.
    """

    def __init__(self, rng):
        self.rng = rng
        self.size = rng.choice([4, 6, 8, 9, 10, 12, 14, 16, 18, 24])
        self.places = [0]
        for _ in range(self.size):
            self.places.append(self.places[-1] + rng.choice([2, 4, 6]) * UNIT)
        shape = rng.choice(['zigzag', 'random', 'smooth', 'steps'])
        self.step = 6 * UNIT
        offsets = [(rng.randrange(3) if shape == 'random'
                    else k % 2 if shape == 'zigzag'
                    else (k // 2) % 2 if shape == 'steps'
                    else [0, 1, 2, 1][k % 4]) * UNIT
                   for k in range(self.size + 1)]
        self.levels = [[0] * (self.size + 1)
                       if rng.random() < .3 else list(offsets)]
        for number in range(1, 5):
            level = [number * self.step + offset for offset in offsets]
            if rng.random() < .5:
                k = rng.randrange(self.size + 1)
                level[k] += rng.choice([-2, -1, 1, 2]) * UNIT
            self.levels.append(level)
        # symmetric images, and sheared so that no coordinates repeat
        self.swap = rng.random() < .5
        self.signs = rng.choice([1, -1]), rng.choice([1, -1])
        self.shear = rng.choice([0, 0, 1, 2, -1])

    def image(self, point):
        x, y = point
        x += self.shear * y // UNIT
        x, y = x * self.signs[0], y * self.signs[1]
        return [y, x] if self.swap else [x, y]

    def between(self, lower, upper, first=0, last=None):
        """Contour between two levels."""
        rng = self.rng
        last = self.size if last is None else last
        places = self.places
        bottom = [(places[k], self.levels[lower][k])
                  for k in range(first, last + 1)]
        top = [(places[k], self.levels[upper][k])
               for k in range(first, last + 1)]
        points = simplify(bottom + top[::-1])
        if rng.random() < .4:
            # a dent in one of the edges
            k = rng.randrange(len(points))
            (x0, y0), (x1, y1) = points[k - 1], points[k]
            # to the left of the edge is the inside
            dent = ((x0 + x1) // 2 - (y1 > y0) + (y1 < y0),
                    (y0 + y1) // 2 + (x1 > x0) - (x1 < x0))
            if orient(points[k - 1], points[k], dent) > 0:
                points.insert(k, dent)
        return respell_contour(rng, [self.image(point) for point in points])

    def bounds(self):
        lower, upper = sorted(self.rng.sample(range(5), 2))
        first, last = 0, self.size
        if self.rng.random() < .4:
            first, last = sorted(self.rng.sample(range(self.size + 1), 2))
        return lower, upper, first, last

    def region(self):
        return self.between(*self.bounds())

    def polygon(self, bounds=None):
        rng = self.rng
        lower, upper, first, last = bounds or self.bounds()
        border = self.between(lower, upper, first, last)
        holes = []
        if upper - lower > 1 and last - first > 2:
            k = first + 1
            while k + 1 < last and len(holes) < 4:
                if rng.random() < .5:
                    height = lower + 1
                    holes.append(self.between(height, height + 1, k,
                                              k + 1)
                                 if height + 1 < upper else
                                 [self.image(point) for point in
                                  [(self.places[k], self.levels[height][k]),
                                   (self.places[k] + UNIT,
                                    self.levels[height][k]),
                                   (self.places[k],
                                    self.levels[height][k] + UNIT // 2)]])
                k += 2
        return [border, holes]

    def several(self):
        """Bounds of things which have no common points."""
        rng = self.rng
        if rng.random() < .5:
            return [(0, 1, 0, self.size), (2, 4, 0, self.size),
                    (2, 3, 0, self.size)][:2]
        cut = rng.randrange(1, self.size)
        return ([(0, 3, 0, cut), (1, 4, cut + 1, self.size)]
                if cut + 1 < self.size
                else [(0, 1, 0, self.size), (2, 3, 0, cut)])

    def make(self, kind):
        if kind in ('region', 'contour'):
            value = self.region()
        elif kind == 'polygon':
            value = self.polygon()
        elif kind == 'multiregion':
            value = [self.between(*bounds) for bounds in self.several()]
        elif kind == 'multipolygon':
            value = [self.polygon(bounds) for bounds in self.several()]
        else:
            raise ValueError(kind)
        return {"t": kind, "v": _lists(value)}


class Star(Skyline):
    """The same around a point: levels are functions of the direction."""

    def __init__(self, rng):
        super().__init__(rng)
        directions = sorted(DIRECTIONS if rng.random() < .4
                            else DIRECTIONS + ODD_DIRECTIONS,
                            key=lambda d: math.atan2(d[1], d[0]))
        shift = rng.randrange(len(directions))
        directions = directions[shift:] + directions[:shift]
        if self.size + 1 < len(directions) and rng.random() < .5:
            some = [directions[k] for k in sorted(rng.sample(
                    range(len(directions)), max(self.size + 1, 12)))]
            if all(x0 * y1 - y0 * x1 > 0 for (x0, y0), (x1, y1)
                   in zip(some[-1:] + some, some)):
                directions = some
        self.size = len(directions) - 1
        for level in self.levels:
            while len(level) <= self.size:
                level.append(level[len(level) % 4])
        self.directions = directions

    def ray(self, k, level):
        x, y = self.directions[k]
        radius = self.levels[level][k] // UNIT + 6
        return self.image((radius * x, radius * y))

    def ring(self, level):
        points = [self.ray(k, level) for k in range(self.size + 1)]
        return respell_contour(self.rng, simplify(points))

    def between(self, lower, upper, first=0, last=None):
        last = self.size if last is None else last
        if last - first < 2:
            return self.ring(upper)
        bottom = [self.ray(k, lower) for k in range(first, last + 1)]
        top = [self.ray(k, upper) for k in range(first, last + 1)]
        return respell_contour(self.rng, simplify(bottom + top[::-1]))

    def region(self):
        if self.rng.random() < .5:
            return self.ring(self.rng.randrange(5))
        return super().region()

    def polygon(self, bounds=None):
        lower, upper, first, last = bounds or self.bounds()
        if bounds is None and self.rng.random() < .6:
            return [self.ring(upper), [self.ring(lower)]]
        return [self.between(lower, upper, first, last), []]

    def several(self):
        """Sectors with a common apex at most."""
        rng = self.rng
        count = min(3, (self.size + 1) // 3)
        size = (self.size + 1) // count
        return [(*sorted(rng.sample(range(5), 2)), number * size,
                 number * size + size - 1)
                for number in range(count)]


class Grid:
    """Geometries of many parts: nested shapes in the cells of a grid."""

    PITCH = 12 * UNIT

    def __init__(self, rng):
        self.rng = rng
        self.width, self.height = rng.choice([(3, 1), (4, 1), (2, 2), (3, 2),
                                              (5, 1), (1, 4), (3, 3), (4, 2)])
        self.cells = [(column, row) for column in range(self.width)
                      for row in range(self.height)]
        shapes = rng.choice([['box'], ['diamond'], ['triangle'],
                             ['box', 'diamond', 'triangle'],
                             ['box', 'diamond']])
        self.shapes = {cell: rng.choice(shapes) for cell in self.cells}
        self.margin = rng.choice([0, 0, UNIT])
        self.kept = None

    def shape(self, cell, level):
        x, y = (value * self.PITCH for value in cell)
        size, inset = self.PITCH, level * UNIT
        kind = self.shapes[cell]
        if kind == 'diamond':
            half = size // 2
            points = [(x + inset, y + half), (x + half, y + inset),
                      (x + size - inset, y + half),
                      (x + half, y + size - inset)]
        elif kind == 'box':
            low, high = inset + UNIT // 2, size - inset - UNIT // 2
            points = [(x + low, y + low), (x + high, y + low),
                      (x + high, y + high), (x + low, y + high)]
        else:
            low, high = inset + UNIT // 2, size - 2 * inset - UNIT // 2
            points = [(x + low, y + low), (x + high, y + low),
                      (x + low, y + high)]
        return respell_contour(self.rng, [list(point) for point in points])

    def frame(self, cells=None):
        """Rectangle around the cells."""
        cells = cells or self.cells
        left, right = (min(cell[0] for cell in cells) * self.PITCH,
                       (max(cell[0] for cell in cells) + 1) * self.PITCH)
        bottom, top = (min(cell[1] for cell in cells) * self.PITCH,
                       (max(cell[1] for cell in cells) + 1) * self.PITCH)
        margin = self.margin
        return respell_contour(self.rng, [
            [left - margin, bottom - margin],
            [right + margin, bottom - margin],
            [right + margin, top + margin], [left - margin, top + margin]])

    def some(self, least=1):
        cells, rng = self.cells, self.rng
        if self.kept is not None and rng.random() < .6:
            # those of the other geometry, most of the time
            cells = self.kept
            least = len(cells) - (rng.random() < .2)
        self.kept = rng.sample(cells, rng.randint(max(1, min(least,
                                                             len(cells))),
                                                  len(cells)))
        return self.kept

    def block(self):
        """All of the cells or those of some columns."""
        if self.rng.random() < .6:
            return self.cells
        number = self.rng.randrange(self.width)
        return [cell for cell in self.cells if cell[0] <= number]

    def level(self, least=0):
        return self.rng.choice([0, 0, 1, 2, 3]) if not least else least

    def region(self):
        rng = self.rng
        return (self.frame(self.block()) if rng.random() < .35
                else self.shape(rng.choice(self.cells), self.level()))

    def polygon(self):
        rng = self.rng
        if rng.random() < .75:
            cells = self.block()
            holes = ([cell for cell in self.kept if cell in cells]
                     if self.kept is not None and rng.random() < .6
                     else [cell for cell in cells if rng.random() < .8])
            rng.shuffle(holes)
            self.kept = holes or None
            level = rng.choice([None, 0, 1, 1, 2])
            return [self.frame(cells),
                    [self.shape(cell, self.level() if level is None else level)
                     for cell in holes]]
        return self.island(rng.choice(self.cells))

    def island(self, cell, lowest=0):
        rng = self.rng
        level = rng.randint(lowest, 2)
        return [self.shape(cell, level),
                [self.shape(cell, rng.randint(level + 1, 3))]
                if rng.random() < .5 else []]

    def make(self, kind):
        rng = self.rng
        if kind in ('region', 'contour'):
            value = self.region()
        elif kind == 'polygon':
            value = self.polygon()
        elif kind == 'multiregion':
            level = rng.choice([None, 0, 1, 1, 2])
            value = [self.shape(cell, self.level() if level is None else level)
                     for cell in self.some(2)]
        elif kind == 'multipolygon':
            roll = rng.random()
            value = [self.island(cell) if roll < .5
                     else [self.shape(cell, self.level()), []]
                     for cell in self.some(2)]
            if rng.random() < .35:
                # the first in holes of the last
                cells = self.some(2)
                value = [self.island(cell, 1) for cell in cells
                         if rng.random() < .7]
                holes = [self.shape(cell, 0)
                         for cell in cells]
                value.append([self.frame(), holes])
                rng.shuffle(value)
        else:
            raise ValueError(kind)
        return {"t": kind, "v": _lists(value)}


def convert(rng, literal, kind):
    """A geometry of ``kind`` made of parts of ``literal``."""
    t, v = literal['t'], literal['v']
    contours = {'contour': lambda: [v], 'region': lambda: [v],
                'multiregion': lambda: v,
                'polygon': lambda: [v[0], *v[1]],
                'multipolygon': lambda: [c for p in v for c in [p[0], *p[1]]]
                }.get(t, lambda: [])()
    if kind in ('contour', 'region') and contours:
        return {"t": kind, "v": _lists(respell_contour(rng,
                                                       rng.choice(contours)))}
    if kind == 'segment':
        if contours:
            contour = rng.choice(contours)
            k = rng.randrange(len(contour))
            return {"t": kind, "v": _lists([contour[k - 1], contour[k]])}
        if t == 'multisegment':
            return {"t": kind, "v": _lists(rng.choice(v))}
        if t == 'segment':
            return {"t": kind, "v": _lists(v[::-1])}
    if kind == 'multisegment':
        if contours:
            return {"t": kind,
                    "v": _lists([[c[k - 1], c[k]] for c in contours
                                 for k in range(len(c))])}
        if t == 'multisegment':
            v = [s[::-1] for s in v]
            rng.shuffle(v)
            return {"t": kind, "v": _lists(v)}
        if t == 'segment':
            (x0, y0), (x1, y1) = v
            if not (x0 + x1) % 2 and not (y0 + y1) % 2:
                m = [(x0 + x1) // 2, (y0 + y1) // 2]
                return {"t": kind, "v": _lists([[v[0], m], [m, v[1]]])}
            return {"t": kind, "v": _lists([v])}
    if kind == 'point':
        if contours:
            return {"t": kind, "v": _lists(rng.choice(rng.choice(contours)))}
        if t == 'segment':
            return {"t": kind, "v": _lists(rng.choice(v))}
        if t == 'multisegment':
            return {"t": kind, "v": _lists(rng.choice(rng.choice(v)))}
    if kind == 'multiregion':
        if t == 'region' or t == 'contour':
            return {"t": kind, "v": _lists([v])}
        if t == 'polygon' and v[1]:
            return {"t": kind, "v": _lists(v[1])}
        if t == 'multiregion':
            v = [respell_contour(rng, c) for c in v]
            rng.shuffle(v)
            return {"t": kind, "v": _lists(v)}
        if t == 'multipolygon' and not any(p[1] for p in v):
            return {"t": kind, "v": _lists([p[0] for p in v])}
    if kind == 'polygon':
        if t in ('region', 'contour'):
            return {"t": kind, "v": _lists([v, []])}
        if t == 'polygon':
            holes = list(v[1])
            if holes and rng.random() < .5:
                holes.pop(rng.randrange(len(holes)))
            return {"t": kind, "v": _lists([respell_contour(rng, v[0]),
                                            holes])}
        if t == 'multipolygon':
            return {"t": kind, "v": _lists(rng.choice(v))}
    if kind == 'multipolygon':
        if t == 'polygon':
            return {"t": kind, "v": _lists([v])}
        if t == 'multipolygon':
            v = list(v)
            rng.shuffle(v)
            return {"t": kind, "v": _lists(v)}
    return None


def far_away(literal, shift):
    def move(value):
        if value and isinstance(value[0], int):
            return [value[0] + shift[0], value[1] + shift[1]]
        return [move(item) for item in value]

    return {"t": literal['t'], "v": move(literal['v'])}


def images(rng, literals):
    """The literals under the same injective affine map: queries about them
    take the same (or the mirrored) way through other coordinates."""
    points = []

    def collect(value):
        if value and isinstance(value[0], int):
            points.append(value)
        else:
            for item in value:
                collect(item)

    for literal in literals:
        collect(literal['v'])
    roll = rng.random()
    matrix = ((1, 0, 0, 1) if roll < .7
              else rng.choice([(2, 0, 0, 2), (-1, 0, 0, 1), (1, 0, 0, -1),
                               (0, 1, 1, 0), (-1, 0, 0, -1), (3, 0, 0, 1)]))
    roll = rng.random()
    if roll < .5:
        # a part goes to where another one was
        first, second = rng.choice(points), rng.choice(points)
        shift = [second[0] - first[0], second[1] - first[1]]
    else:
        shift = rng.choice([(UNIT, 0), (0, UNIT), (-UNIT, 0), (1, 0), (0, 1),
                            (60 * UNIT, 0), (0, -60 * UNIT)])
    if matrix == (1, 0, 0, 1) and not any(shift):
        shift = (UNIT, 0)
    a, b, c, d = matrix

    def move(value):
        if value and isinstance(value[0], int):
            x, y = value
            return [a * x + b * y + shift[0], c * x + d * y + shift[1]]
        return [move(item) for item in value]

    return [{"t": literal['t'], "v": move(literal['v'])}
            for literal in literals]


def perturb(rng, literal):
    """Another literal of the same kind and similar shape (an edit)."""
    roll = rng.random()
    if roll < .4:
        return far_away(literal, rng.choice([(UNIT, 0), (0, UNIT),
                                             (-2 * UNIT, UNIT),
                                             (50 * UNIT, 0)]))
    return Source(rng, rng.random() < .5).make(literal['t'])


if __name__ == '__main__':
    rng = Random(1)
    pool = Pool(rng)
    for kind in KINDS:
        print(pool.make(kind))
