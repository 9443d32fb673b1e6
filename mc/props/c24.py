"""C24: the spherical mesh tiles the globe and every point is located in its triangle."""
import itertools

import numpy

from mc.core import Harness, require
from mc.env import quiet

with quiet():
    from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
    from eustace.analysis.mesh.geometry import barycentric_coordinates_planar, barycentric_coordinates_spherical, cartesian_to_polar2d, polar2d_to_cartesian
    from eustace.analysis.mesh.irisconnector import IrisCubeListToMesh, MeshToIrisCubeList
    from eustace.analysis.mesh.locator import TriangleLocator, TriangleLocatorHierarchical
    from eustace.analysis.mesh.mesh import MeshIcosahedron, MeshIcosahedronSubdivision

TOLERANCE = 1e-12
SHIFT = 58
MESHES = {}


def mesh(level, poles=False, sphere=True):
    key = (level, poles, sphere)
    if key not in MESHES:
        MESHES[key] = MeshIcosahedronSubdivision.build(level, project_onto_sphere=sphere, face_centre_at_poles=poles)
    return MESHES[key]


def parts(m):
    return numpy.asarray(m.points), numpy.asarray(m.triangles)[:, 1:].astype(int), [int(x) for x in m.triangles[:, 0]]


def unit(v):
    return v / numpy.linalg.norm(v, axis=-1)[..., None]


def outside(corners, v):
    """How far (sine of angle) v lies outside the triangle whose corners (n x 3 x 3) are given clockwise; negative: inside."""
    worst = numpy.full(v.shape[0], -numpy.inf)
    for i in range(3):
        normal = unit(numpy.cross(corners[:, i], corners[:, (i + 1) % 3] - corners[:, i]))
        worst = numpy.maximum(worst, (normal * (v - corners[:, i])).sum(axis=1))    # differences: accurate for the smallest triangles
    return worst


def children(corners):
    """Reference subdivision of one triangle (3 x 3): the four sub-triangles in numbered order."""
    p0, p1, p2 = corners
    m01, m12, m20 = unit(p0 + p1), unit(p1 + p2), unit(p2 + p0)
    return [numpy.array(x) for x in ((p0, m01, m20), (m01, p1, m12), (m20, m12, p2), (m12, m20, m01))]


class Topology(Harness):
    """Every triangle, edge and vertex of every mesh."""
    name = 'topology'
    chunk = 1

    def cases(self, tier):
        return [dict(level=level, poles=poles, sphere=sphere) for level in range(7 if tier == 'thorough' else 6) for poles in (False, True) for sphere in (True, False)]

    def run(self, case, rec):
        level = case['level']
        m = mesh(level, case['poles'], case['sphere'])
        points, triangles, ids = parts(m)
        n = 20 * 4 ** level
        require(int(m.level) == level, 'mesh level')
        require(triangles.shape == (n, 3), lambda: '%d triangles and not %d' % (triangles.shape[0], n), 'triangles')
        require(points.shape == (2 + n // 2, 3), lambda: '%d points and not %d' % (points.shape[0], 2 + n // 2), 'points')
        require(m.edges.shape[0] == 3 * n // 2, lambda: '%d edges and not %d' % (m.edges.shape[0], 3 * n // 2), 'edges')
        require(SphereMeshSPDE.n_triangles_at_level(level) == n, 'number of triangles by level')
        # vertices: distinct, all used, and on the sphere if asked for
        require(len(set(map(tuple, numpy.round(points, 9) + 0.0))) == len(points), 'repeated vertices', 'repeated')
        require(set(triangles.ravel()) == set(range(len(points))), 'vertices unused or out of range', 'unused')
        lengths = numpy.linalg.norm(points, axis=1)
        require(numpy.all(lengths < 1 + TOLERANCE), 'vertices outside the sphere', 'length')
        if case['sphere']:
            require(numpy.all(lengths > 1 - TOLERANCE), 'vertices off the sphere', 'length')
        if case['poles']:
            top = unit(points[triangles].sum(axis=1))[:, 2]
            require(abs(top.max() - 1) < 1e-9 and abs(top.min() + 1) < 1e-9, 'no face centre at the poles', 'poles')
        # numbers: the triangle's place in the list, coarse levels in the most significant bits
        for k, number in enumerate(ids):
            require(number == k << (SHIFT - 2 * level), lambda: 'triangle %d has number %d' % (k, number), 'number')
        # every directed side once and its reverse once: closed and consistently oriented
        sides = {}
        for k, (a, b, c) in enumerate(triangles):
            for e, side in enumerate(((a, b), (b, c), (c, a))):
                require(side not in sides, lambda: 'side %r is in two triangles in the same direction' % (side,), 'orientation')
                sides[side] = (k, e)
        rec.step(len(sides))
        for a, b in sides:
            require((b, a) in sides, lambda: 'side %r has no neighbour' % ((a, b),), 'closed')
        normals = numpy.cross(points[triangles[:, 1]] - points[triangles[:, 0]], points[triangles[:, 2]] - points[triangles[:, 0]])
        require(numpy.all((normals * points[triangles].sum(axis=1)).sum(axis=1) < 0), 'triangles not clockwise', 'clockwise')
        # solid angles add up to the sphere: covered exactly once
        p = unit(points[triangles])
        det = numpy.abs((p[:, 0] * numpy.cross(p[:, 1], p[:, 2])).sum(axis=1))
        dots = 1 + (p[:, 0] * p[:, 1]).sum(axis=1) + (p[:, 1] * p[:, 2]).sum(axis=1) + (p[:, 2] * p[:, 0]).sum(axis=1)
        require(abs((2 * numpy.arctan2(det, dots)).sum() - 4 * numpy.pi) < 1e-8, 'triangles do not cover the sphere exactly once', 'area')
        # the edge table tells the same
        seen = set()
        for a, b, t0, e0, t1, e1 in m.edges.tolist():
            require((a, b) in sides and (min(a, b), max(a, b)) not in seen, lambda: 'edge %r repeated or not a side' % ((a, b),), 'edge')
            seen.add((min(a, b), max(a, b)))
            require(sides[(a, b)] == (t0 >> (SHIFT - 2 * level), e0), lambda: 'edge %r has wrong first triangle' % ((a, b),), 'edge')
            require(sides[(b, a)] == (t1 >> (SHIFT - 2 * level), e1), lambda: 'edge %r has wrong second triangle' % ((a, b),), 'edge')
        rec.step(len(seen))
        # children lie inside their parents, in the documented order
        if level:
            coarse, faces, _ = parts(mesh(level - 1, case['poles'], case['sphere']))
            require(numpy.allclose(coarse, points[:len(coarse)], rtol=0, atol=TOLERANCE), 'coarse vertices moved', 'parent')
            for k in range(len(faces)):
                corners = coarse[faces[k]]
                own = points[triangles[4 * k:4 * k + 4]]
                require(outside(numpy.repeat(corners[None], 12, axis=0), unit(own.reshape(-1, 3))).max() < TOLERANCE, lambda: 'children of %d outside it' % k, 'parent')
                require(numpy.allclose(unit(own), unit(numpy.array(children(corners))), rtol=0, atol=1e-10), lambda: 'children of %d are not its four parts' % k, 'children')
        rec.state((level, case['poles'], case['sphere'], len(sides)))
        rec.outcome(level)

    def bounds(self, tier):
        return 'all triangles, sides, vertices and edges of levels 0-%d, with and without faces at the poles and projection' % (6 if tier == 'thorough' else 5)


def places(level, poles, kind):
    """All the special places of a mesh, or a lattice of the globe."""
    points, triangles, _ = parts(mesh(level, poles))
    edges = mesh(level, poles).edges[:, :2].astype(int)
    if kind == 'vertices':
        return points
    if kind == 'edges':
        return numpy.vstack([unit(w * points[edges[:, 0]] + (1 - w) * points[edges[:, 1]]) for w in (0.5, 0.25, 1e-9, 1 - 1e-9)])
    if kind == 'faces':
        weights = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (98, 1, 1), (1, 98, 1), (1, 1, 98), (49, 49, 2), (2, 49, 49), (49, 2, 49)]
        return numpy.vstack([unit((points[triangles] * numpy.array(w)[None, :, None]).sum(axis=1)) for w in weights])
    if kind == 'axes':
        return numpy.array([v for v in itertools.product((-1.0, 0.0, 1.0), repeat=3) if sum(map(abs, v)) == 1])
    step = float(kind)
    latitudes = numpy.arange(-90.0, 90.0 + step / 2, step)
    longitudes = numpy.arange(-180.0, 180.0 + step / 2, step)
    return polar2d_to_cartesian(numpy.array([(a, b) for a in latitudes for b in longitudes]))


def reference_corners(level, poles, number):
    """The corners of a numbered triangle by following the digits of its number down from the icosahedron."""
    points, triangles, _ = parts(mesh(0, poles))
    corners = points[triangles[number >> SHIFT]]
    for i in range(1, level + 1):
        corners = children(corners)[(number >> (SHIFT - 2 * i)) & 3]
    return corners


KINDS = ('vertices', 'edges', 'faces', 'axes', '7.5')


class Locate(Harness):
    """Both locators for every special place of each mesh and every lattice point."""
    name = 'locate'
    chunk = 1

    def cases(self, tier):
        top, fine = (6, (10, 20, 29)) if tier == 'thorough' else (5, (12, 29))
        for poles in (False, True):
            for level in range(top):
                for kind in KINDS + (('1',) if tier == 'thorough' else ()):
                    if level < 4 or kind != '1':
                        yield dict(level=level, poles=poles, kind=kind, of=level)
            for level in fine:
                for kind in ('vertices', 'edges', 'faces', 'axes'):
                    yield dict(level=level, poles=poles, kind=kind, of=2)
                yield dict(level=level, poles=poles, kind='15', of=2)

    def run(self, case, rec):
        level, poles = case['level'], case['poles']
        v = places(case['of'], poles, case['kind'])
        hierarchical = TriangleLocatorHierarchical(mesh(0, poles))
        before = v.copy()
        exhaustive = None
        if level == case['of'] and (level < 4 or case['kind'] in ('vertices', 'axes')):
            exhaustive = numpy.asarray(TriangleLocator(mesh(level, poles)).locate_vector_indices_exhaustive(v)).astype(int)
            points, triangles, _ = parts(mesh(level, poles))
            require(exhaustive.min() >= 0 and exhaustive.max() < len(triangles), lambda: 'exhaustive search finds no triangle for %r' % v[numpy.argmin(exhaustive)], 'exhaustive')
            out = outside(points[triangles[exhaustive]], v)
            require(out.max() < TOLERANCE, lambda: 'exhaustive search puts %r outside its triangle' % v[numpy.argmax(out)], 'exhaustive')
            rec.step(len(v))
        for method in (barycentric_coordinates_planar, barycentric_coordinates_spherical):
            planar = method is barycentric_coordinates_planar
            if not planar and level > 8:
                continue    # areas of such triangles are below the resolution of angles
            with numpy.errstate(all='ignore'):
                numbers, weights = hierarchical.locate_vector_hierarchical(v, levels=level) if planar else hierarchical.locate_vector_hierarchical(v, levels=level, evaluation_method=method)
            require(numpy.array_equal(v, before), 'locating changed the locations', 'changed')
            corners = numpy.array([reference_corners(level, poles, int(n)) for n in numbers])
            out = outside(corners, v)
            require(out.max() < TOLERANCE, lambda: 'hierarchical search (%s) puts %r outside its triangle by %g' % (method.__name__, v[numpy.argmax(out)], out.max()), 'hierarchical')
            self.weights(v, corners, weights, planar, level, method.__name__)
            if exhaustive is not None:
                indices = numpy.array([int(n) >> (SHIFT - 2 * level) for n in numbers])
                inside = outside(points[triangles[exhaustive]], v) < -TOLERANCE
                require(numpy.array_equal(indices[inside], exhaustive[inside]), 'the two locators disagree', 'agree')
                with numpy.errstate(all='ignore'):
                    own = TriangleLocator(mesh(level, poles)).barycentric_coordinates_at_indices(exhaustive, v, method)
                self.weights(v, points[triangles[exhaustive]], own, planar, level, method.__name__)
            rec.step(len(v))
        rec.state((level, poles, case['kind']))
        rec.outcome((level, case['kind']))

    def weights(self, v, corners, weights, planar, level, name):
        weights = numpy.asarray(weights)
        bad = numpy.isnan(weights).any(axis=1)
        require(not bad.any(), lambda: 'weights (%s) undefined at %r' % (name, v[numpy.argmax(bad)]), 'undefined')
        require(weights.min() > -1e-6, lambda: 'negative weight (%s) %r' % (name, weights.min()), 'negative')
        require(abs(weights.sum(axis=1) - 1).max() < 1e-9, lambda: 'weights (%s) do not add up to one' % name, 'sum')
        if planar:
            found = unit((weights[:, :, None] * corners).sum(axis=1))
            far = numpy.linalg.norm(found - v, axis=1)
            require(far.max() < 1e-10, lambda: 'weights give %r for %r' % (found[numpy.argmax(far)], v[numpy.argmax(far)]), 'reproduce')
            if level <= 8:    # the weights themselves: the location projected on the plane of the corners
                exact = numpy.linalg.solve(numpy.transpose(corners, (0, 2, 1)), v[:, :, None])[:, :, 0]
                exact /= exact.sum(axis=1)[:, None]
                require(abs(exact - weights).max() < 1e-6, 'weights are not the barycentric coordinates', 'weights')
        elif level <= 4:    # shares of the area on the sphere
            exact = numpy.stack([self.area(corners[:, (i + 1) % 3], corners[:, (i + 2) % 3], v) for i in range(3)], axis=1)
            exact /= exact.sum(axis=1)[:, None]
            require(abs(exact - weights).max() < 1e-5, 'weights are not the spherical barycentric coordinates', 'weights')

    def area(self, a, b, c):
        det = numpy.abs((a * numpy.cross(b, c)).sum(axis=1))
        return 2 * numpy.arctan2(det, 1 + (a * b).sum(axis=1) + (b * c).sum(axis=1) + (c * a).sum(axis=1))

    def bounds(self, tier):
        return 'all vertices, edge and face points of levels 0-%d and axis and lattice points, located at that level; those of level 2 located at levels up to 29' % (5 if tier == 'thorough' else 4)


class Basis(Harness):
    """Interpolation matrices: every row holds the weights of its own location, for every order and repetition."""
    name = 'basis'
    chunk = 2

    def cases(self, tier):
        for level in range(5 if tier == 'thorough' else 4):
            for kind in KINDS:
                yield dict(level=level, kind=kind, form='csr')
            yield dict(level=level, kind='wrap', form='csc')

    def run(self, case, rec):
        level = case['level']
        spde = SphereMeshSPDE(level, sparse_format=case['form'])
        points, triangles, _ = parts(spde.triangulation)
        require(spde.n_latent_variables() == len(points), 'number of variables')
        if case['kind'] == 'wrap':
            polar = numpy.array([(a, b + turn) for turn in (0.0, 360.0, -360.0) for a in (-90.0, -45.0, 0.0, 10.0, 90.0) for b in (-180.0, -180.0, -0.5, 0.0, 179.5, 180.0)])
        else:
            polar = cartesian_to_polar2d(places(level, False, case['kind']))
        require(not numpy.isnan(polar).any(), 'undefined coordinates', 'polar')
        place = polar2d_to_cartesian(polar)
        radians = numpy.radians(polar)
        require(numpy.allclose(place, numpy.vstack([numpy.cos(radians[:, 0]) * numpy.cos(radians[:, 1]), numpy.cos(radians[:, 0]) * numpy.sin(radians[:, 1]), numpy.sin(radians[:, 0])]).T, rtol=0, atol=TOLERANCE),
                'wrong place for coordinates', 'polar')
        if case['kind'] != 'wrap':
            require(numpy.allclose(place, places(level, False, case['kind']), rtol=0, atol=1e-7), 'coordinates do not convert back', 'polar')
        faces = set(tuple(sorted(t)) for t in triangles.tolist())
        for order in (slice(None), slice(None, None, -1), numpy.repeat(numpy.arange(min(40, len(polar))), 3)):
            A = spde.build_A(polar[order])
            require(A.format == case['form'], 'matrix format', 'format')
            require(A.shape == (polar[order].shape[0], len(points)), 'shape of matrix', 'shape')
            dense = A.toarray()
            require(not numpy.isnan(dense).any() and dense.min() > -1e-9, 'negative or undefined weights', 'negative')
            require(abs(dense.sum(axis=1) - 1).max() < 1e-9, 'weights do not add up to one', 'sum')
            found = unit(dense.dot(points))
            far = numpy.linalg.norm(found - place[order], axis=1)
            require(far.max() < 1e-9, lambda: 'weights give %r for %r' % (found[numpy.argmax(far)], place[order][numpy.argmax(far)]), 'reproduce')
            for row in dense:
                used = numpy.nonzero(row > 1e-9)[0]
                require(len(used) <= 3 and any(set(used) <= set(f) for f in [tuple(sorted(t)) for t in triangles[(triangles == used[0]).any(axis=1)].tolist()]), 'weights on vertices of different triangles', 'triangle')
            rec.step(len(dense))
        rec.state((level, case['kind']))
        rec.outcome(level)

    def bounds(self, tier):
        return 'all special places of levels 0-%d, forward, backward and repeated' % (4 if tier == 'thorough' else 3)


class Regions(Harness):
    """Neighbourhoods and super-triangles, and the mesh through its file form."""
    name = 'regions'
    chunk = 2

    def cases(self, tier):
        for level in range(5 if tier == 'thorough' else 4):
            yield dict(level=level, kind='iris')
            for coarse in range(min(level, 2) + 1):
                yield dict(level=level, coarse=coarse, kind='regions')

    def run(self, case, rec):
        level = case['level']
        if case['kind'] == 'iris':
            for poles in (False, True):
                m = mesh(level, poles)
                back = IrisCubeListToMesh(MeshToIrisCubeList(m))
                require(numpy.allclose(back.points, m.points, rtol=0, atol=1e-7), 'points changed', 'iris')
                require(numpy.array_equal(back.triangles, m.triangles), 'triangles changed', 'iris')
                require(numpy.array_equal(back.edges, m.edges), 'edges changed', 'iris')
                rec.step()
            return
        coarse = case['coarse']
        spde = SphereMeshSPDE(level)
        _, faces, _ = parts(mesh(coarse))
        for k in range(len(faces)):
            part = 4 ** (level - coarse)
            own = list(map(int, spde.super_triangle_at_level(coarse, k)))
            require(sorted(own) == list(range(k * part, (k + 1) * part)), lambda: 'super-triangle %d has %r' % (k, own), 'super')
            near = sorted(map(int, spde.neighbours_at_level(coarse, k)))
            touching = [j for j in range(len(faces)) if set(faces[j]) & set(faces[k])]
            require(near == [i for j in touching for i in range(j * part, (j + 1) * part)], lambda: 'neighbourhood of %d is not what touches it' % k, 'neighbours')
            rec.step(2)
        rec.state((level, coarse))
        rec.outcome((level, coarse))

    def bounds(self, tier):
        return 'all triangles of levels 0-2 as centre or super-triangle, for meshes of levels 0-%d' % (4 if tier == 'thorough' else 3)


HARNESSES = [Topology(), Locate(), Basis(), Regions()]
