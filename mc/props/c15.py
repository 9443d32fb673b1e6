"""C15: prior precisions are symmetric positive definite, are those of the documented model, and their derivatives are exact."""
import itertools

import numpy
import scipy.special

from mc import elements
from mc.core import Harness, require
from mc.env import quiet
from mc.props.c14 import dense, equal, values_for

from eustace.analysis.advanced_standard.elements.factor import SpaceTimeFactorElement
from eustace.analysis.advanced_standard.elements.kronecker import SpaceTimeKroneckerElement
from eustace.analysis.advanced_standard.elements.latitudespline import LatitudeSplineElement
from eustace.analysis.advanced_standard.elements.local import LocalElement, LocalHyperparameters
from eustace.analysis.advanced_standard.elements.local_view import ExpandedLocalHyperparameters, GeneralHyperparameters, LocalSubRegion
from eustace.analysis.advanced_standard.elements.seasonal import SeasonalElement
from eustace.analysis.advanced_standard.elements.spacetimespde import SpaceTimeSPDEHyperparameters
from eustace.analysis.advanced_standard.stats.spde.lattice import LatticeSPDE, WendlandC4Basis
from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
from eustace.analysis.advanced_standard.stats.spde.spherical_view import SphereMeshViewGlobal, SphereMeshViewLocal, SphereMeshViewSuperTriangle


def finite_elements(points, triangles, members=None):
    """Lumped mass (diagonal) and stiffness matrix of the piecewise linear elements on the given triangles."""
    used = numpy.unique(triangles) if members is None else members
    place = dict((v, k) for k, v in enumerate(used))
    n = len(used)
    C, G = numpy.zeros(n), numpy.zeros((n, n))
    for triangle in triangles:
        p = points[triangle]
        normal = numpy.cross(p[1] - p[0], p[2] - p[0])
        area = 0.5 * numpy.linalg.norm(normal)
        unit = normal / (2.0 * area)
        gradients = [numpy.cross(unit, p[(k + 2) % 3] - p[(k + 1) % 3]) / (2.0 * area) for k in range(3)]
        for a in range(3):
            C[place[triangle[a]]] += area / 3.0
            for b in range(3):
                G[place[triangle[a]], place[triangle[b]]] += area * gradients[a].dot(gradients[b])
    return C, G


def matern(C, G, log_sigma, log_rho, alpha, d):
    """Precision of the Matern field with standard deviation sigma and range rho (scalars or per node)."""
    n = len(C)
    sigma, rho = numpy.exp(log_sigma) * numpy.ones(n), numpy.exp(log_rho) * numpy.ones(n)
    nu = alpha - d / 2.0
    kappa = numpy.sqrt(8.0 * nu) / rho
    tau = numpy.sqrt(scipy.special.gamma(nu) / (scipy.special.gamma(alpha) * (4.0 * numpy.pi) ** (d / 2.0) * kappa ** (2.0 * nu))) / sigma
    K = numpy.diag(kappa * C * kappa) + G
    inner = K.dot(numpy.diag(1.0 / C))
    Q = K if alpha % 2 else inner.dot(K)
    for _ in range((alpha - 1) // 2):
        Q = inner.dot(Q).dot(inner.T)
    return tau[:, None] * Q * tau[None, :]


def sphere_reference(spde, log_sigma, log_rho, alpha=2):
    triangles = numpy.array(spde.triangulation.triangles[:, 1:], dtype=int)
    active = getattr(spde, 'active_triangle_indices', None)
    if active is not None:
        triangles = triangles[numpy.array(active)]
    C, G = finite_elements(numpy.array(spde.triangulation.points), triangles)
    return matern(C, G, log_sigma, log_rho, alpha, 2)


def lattice_reference(nodes, spacing, wrap, log_sigma, log_rho, alpha, H):
    """nodes: coordinates of the nodes in their own order; neighbours are one spacing apart along one dimension."""
    n, d = nodes.shape
    spacing = numpy.array(spacing)
    G = numpy.zeros((n, n))
    for i, j in itertools.product(range(n), repeat=2):
        steps = numpy.rint((nodes[j] - nodes[i]) / spacing).astype(int)
        for k in range(d):
            if wrap is not None and wrap[k]:
                count = len(numpy.unique(nodes[:, k].round(9)))
                steps[k] = (steps[k] + count // 2) % count - count // 2
        if numpy.abs(steps).sum() == 1:
            k = int(numpy.flatnonzero(steps)[0])
            G[i, j] = -H / spacing[k] ** 2
    G += numpy.diag([float(numpy.sum(2.0 * H / spacing ** 2))] * n)
    return matern(numpy.ones(n), G, log_sigma, log_rho, alpha, d) * float(numpy.prod(spacing))


KINDS = elements.ALL + ['seasonal2', 'seasonal2zero', 'seasonal0', 'local1', 'kroneckerwrapped', 'factorwrapped', 'kronecker3', 'subregion0', 'splinecoarse']


def make(kind):
    if kind == 'seasonal2':
        return elements.cached(kind, lambda: SeasonalElement(0, 2, True)), elements.seasonal(2, True, 0.0)
    if kind == 'seasonal2zero':
        return elements.cached(kind, lambda: SeasonalElement(0, 2, False)), elements.seasonal(2, False, 0.0)
    if kind == 'seasonal0':
        return elements.cached(kind, lambda: SeasonalElement(1, 0, True)), elements.seasonal(0, True, 0.0)
    if kind == 'local1':
        return elements.cached(kind, lambda: LocalElement(1)), LocalHyperparameters(0.2, -0.3)
    if kind == 'kroneckerwrapped':
        return elements.cached(kind, lambda: SpaceTimeKroneckerElement(0, 2, 0.0, 4.0, 4, 2.5, 1.0, [True])), SpaceTimeSPDEHyperparameters(0.1, 0.2, 0.3)
    if kind == 'factorwrapped':
        return elements.cached(kind, lambda: SpaceTimeFactorElement(0, 2, 0.0, 6.0, 5, 2.5, 2.0, [True])), SpaceTimeSPDEHyperparameters(0.1, 0.2, 0.3)
    if kind == 'kronecker3':
        return elements.cached(kind, lambda: SpaceTimeKroneckerElement(0, 3, 0.0, 4.0, 4, 2.5, 1.0)), SpaceTimeSPDEHyperparameters(0.1, 0.2, 0.3)
    if kind == 'subregion0':
        return elements.cached(kind, lambda: LocalSubRegion(0, 0, 5)), LocalHyperparameters(0.1, 0.2)
    if kind == 'splinecoarse':
        return elements.cached(kind, lambda: LatitudeSplineElement(1, 3, 2.5, 1.0)), LocalHyperparameters(0.1, 0.2)
    return elements.make(kind)


def time_reference(element, log_sigma, log_rho, alpha):
    lattice = element.temporal_model.lattice
    return lattice_reference(lattice.nodes, lattice.node_spacing, lattice.wrap_dimensions, log_sigma, log_rho, alpha, element.H)


def reference(kind, element, h):
    """The documented precision for an element kind with hyperparameter vector h (None where it is that of its parts)."""
    if kind in ('mean', 'bias'):
        return numpy.diag([numpy.exp(-2.0 * h[0])] * (1 if kind == 'mean' else 3))
    if kind == 'harmonics':
        return numpy.diag(numpy.exp(-2.0 * h))
    if kind in ('local', 'local1', 'spatialbias', 'subregion', 'subregion0', 'supertriangle'):
        return sphere_reference(element.spde, h[0], h[1])
    if kind == 'nonstationary':
        return sphere_reference(element.spde, h[:12], h[12:])
    if kind.startswith('seasonal'):
        blocks = []
        mean = not kind.endswith('zero')
        orders = {'seasonal': 1, 'seasonalzero': 1, 'seasonal2': 2, 'seasonal2zero': 2, 'seasonal0': 0}[kind]
        position = 0
        for copies in ([1] if mean else []) + [2] * orders:
            blocks += [sphere_reference(element.spde, h[position], h[position + 1])] * copies
            position += 2
        from mc.props.c14 import block
        return block(blocks)
    if kind in ('kronecker', 'annual', 'kroneckerwrapped', 'kronecker3'):
        return numpy.kron(time_reference(element, 0.0, h[2], 1), sphere_reference(element.spatial_model, h[0], h[1], element.alpha))
    if kind in ('factor', 'factorwrapped'):
        from mc.props.c14 import block
        return block([sphere_reference(element.spatial_model, h[0], h[1], element.alpha), time_reference(element, 0.0, h[2], element.alpha)])
    if kind in ('spline', 'splinecoarse'):
        lattice = element.spde.lattice
        return elements.cached(('reference', kind, tuple(h)), lambda: lattice_reference(lattice.nodes, lattice.node_spacing, None, h[0], h[1], element.alpha, element.H))
    return None


def agree(found, expected, tolerance=1e-9):
    scale = numpy.sqrt(numpy.outer(numpy.abs(numpy.diag(expected)), numpy.abs(numpy.diag(expected))))
    return found.shape == expected.shape and bool(numpy.all(numpy.abs(found - expected) <= tolerance * numpy.maximum(scale, 1e-12)))


def extrapolated(function, h, k, step):
    def central(s):
        up, down = h.copy(), h.copy()
        up[k] += s
        down[k] -= s
        return (function(up) - function(down)) / (2.0 * s)
    return (4.0 * central(step / 2.0) - central(step)) / 3.0


def check_derivatives(precision, derivative, h, indexes, rec):
    Q = precision(h)
    for k in indexes:
        found = derivative(h, k)
        for step in (2e-3, 1e-2):
            expected = extrapolated(precision, h, k, step)
            bound = 1e-6 * max(1e-12, numpy.abs(expected).max()) + 1e-9 * numpy.abs(Q).max()
            error = numpy.abs(found - expected).max() if found.shape == expected.shape else None
            require(error is not None and error <= bound, lambda: 'the derivative for hyperparameter %d at %r differs from the difference quotient by %r (largest element %r)' % (k, h.tolist(), error, numpy.abs(expected).max()))
            rec.step()


class Elements(Harness):
    name = 'elements'
    chunk = 4

    LATTICE = (-0.6, 0.0, 0.7)

    def bounds(self, tier):
        return '%d element kinds and layouts x every point of a 3-valued lattice in up to 4 hyperparameters (larger parameter vectors: each coordinate moved alone), every hyperparameter index, two step sizes' % len(KINDS)

    def cases(self, tier):
        for kind in KINDS:
            with quiet():
                count = len(make(kind)[1].get_array())
            values = self.LATTICE if tier != 'thorough' else (-1.2, -0.6, 0.0, 0.35, 0.7)
            if kind.startswith('spline'):
                for point in ((0.0, 2.0), (0.3, 3.0), (-0.5, 4.0)):
                    yield dict(kind=kind, h=point)
            elif count <= 3 or (count == 4 and tier == 'thorough'):
                for point in itertools.product(values, repeat=count):
                    yield dict(kind=kind, h=point)
            else:
                base = [0.05 * k - 0.3 for k in range(count)]
                yield dict(kind=kind, h=base)
                for k, v in itertools.product(range(count), values):
                    yield dict(kind=kind, h=[v if j == k else b for j, b in enumerate(base)])

    def run(self, case, rec):
        with quiet():
            kind, h = case['kind'], numpy.array(case['h'], dtype=numpy.float64)
            element, parameters = make(kind)

            def at(values):
                fresh = make(kind)[1]
                fresh.set_array(values.copy())
                return fresh

            parameters.set_array(h.copy())
            require(equal(parameters.get_array(), h), 'hyperparameters set to %r read back as %r' % (h.tolist(), parameters.get_array()))
            prior = element.element_prior(parameters)
            Q = dense(prior.prior_precision())
            n = prior.prior_number_of_state_parameters()
            require(Q.shape == (n, n), 'precision has shape %r for %r state parameters' % (Q.shape, n))
            require(agree(Q, Q.T, 1e-10), 'the precision is not symmetric')
            require(numpy.all(numpy.diag(Q) > 0), 'the precision has a non-positive diagonal')
            scale = 1.0 / numpy.sqrt(numpy.diag(Q))
            try:
                numpy.linalg.cholesky(Q * numpy.outer(scale, scale))
            except numpy.linalg.LinAlgError:
                require(False, 'the precision is not positive definite')
            expected = reference(kind, element, h)
            if expected is not None:
                require(agree(Q, expected), lambda: 'the precision is not the documented one: largest difference %r of %r' % (numpy.abs(Q - expected).max(), numpy.abs(expected).max()))
            rec.step(3)
            precision = lambda values: dense(element.element_prior(at(values)).prior_precision())
            derivative = lambda values, k: dense(element.element_prior(at(values)).prior_precision_derivative(k))
            indexes = range(len(h)) if len(h) <= 6 else [k for k in range(len(h)) if k % 3 == 0 or k == len(h) - 1]
            check_derivatives(precision, derivative, h, indexes, rec)
            rec.state((kind, tuple(h)))


class Lattices(Harness):
    """Regular lattices in one to three dimensions with every combination of cyclic dimensions and node counts."""
    name = 'lattices'
    chunk = 4

    def bounds(self, tier):
        return 'node counts 3-5 per dimension (1-2 dimensions; 3 dimensions with 3-4 nodes thorough), different spacings, every pattern of cyclic dimensions, smoothness 1-2, two range scalings, parameters constant and varying from node to node'

    def cases(self, tier):
        shapes = [s for d in (1, 2) for s in itertools.product((3, 4, 5), repeat=d)]
        if tier == 'thorough':
            shapes += list(itertools.product((3, 4), repeat=3))
        else:
            shapes += [(3, 4, 3)]
        for shape in shapes:
            for wrap in [None] + list(itertools.product((False, True), repeat=len(shape))):
                for alpha in (1, 2):
                    if 2 * alpha <= len(shape):
                        continue
                    for H in (1.0, 2.5):
                        yield dict(shape=shape, wrap=wrap, alpha=alpha, H=H)

    def run(self, case, rec):
        with quiet():
            shape, wrap, alpha, H = case['shape'], case['wrap'], case['alpha'], case['H']
            spacing = [1.0, 2.0, 0.5][:len(shape)]
            specification = []
            for k, n in enumerate(shape):
                steps = n if wrap is not None and wrap[k] else n - 1
                specification.append((10.0 * k, 10.0 * k + steps * spacing[k], n))
            spde = LatticeSPDE.construct(dimension_specification=specification, basis_function=WendlandC4Basis(), overlap_factor=2.5, wrap_dimensions=None if wrap is None else list(wrap))
            require(spde.n_latent_variables() == int(numpy.prod(shape)), '%d nodes for shape %r' % (spde.n_latent_variables(), shape))
            # the node positions are those the design matrix uses: the basis function of node k is largest at its own position
            nodes = numpy.array(spde.lattice.nodes)
            expected_nodes = set(itertools.product(*[[round(s[0] + spacing[k] * j, 9) for j in range(s[2])] for k, s in enumerate(specification)]))
            require(set(tuple(round(float(x), 9) for x in node) for node in nodes) == expected_nodes, 'nodes at %r' % nodes.tolist())
            A = dense(spde.build_A(nodes))
            require(bool(numpy.all(numpy.argmax(A, axis=1) == numpy.arange(len(nodes)))), 'the basis functions are not centred on the nodes in their order')
            for h in ((0.0, 0.5), (0.4, 1.0)):
                h = numpy.array(h)
                precision = lambda v: dense(spde.build_Q_stationary(v[0], v[1], alpha, H, 'csc'))
                derivative = lambda v, k: dense(spde.build_dQdp_stationary(v[0], v[1], alpha, H, k, 'csc'))
                Q = precision(h)
                expected = lattice_reference(nodes, spacing, wrap, h[0], h[1], alpha, H)
                require(agree(Q, expected), lambda: 'the precision does not couple each node with its neighbours: largest difference %r of %r' % (numpy.abs(Q - expected).max(), numpy.abs(expected).max()))
                check_derivatives(precision, derivative, h, (0, 1), rec)
            # scale and range that vary from node to node with a third parameter
            trend = (numpy.arange(len(nodes)) % 3 - 1.0).reshape(-1, 1)
            one, zero = numpy.ones((len(nodes), 1)), numpy.zeros((len(nodes), 1))
            sigma_design, rho_design = numpy.hstack([one, zero, trend]), numpy.hstack([zero, one, 0.5 * trend])
            precision = lambda v: dense(spde.build_Q(numpy.array(v).reshape(-1, 1), sigma_design, rho_design, alpha, H, 'csc'))
            derivative = lambda v, k: dense(spde.build_dQdp(numpy.array(v).reshape(-1, 1), sigma_design, rho_design, alpha, H, k, 'csc'))
            h = numpy.array([0.4, 1.0, 0.3])
            Q = precision(h)
            expected = lattice_reference(nodes, spacing, wrap, sigma_design.dot(h), rho_design.dot(h), alpha, H)
            require(agree(Q, expected), lambda: 'with parameters per node the precision differs by %r of %r' % (numpy.abs(Q - expected).max(), numpy.abs(expected).max()))
            check_derivatives(precision, derivative, h, (0, 1, 2), rec)
            rec.state((shape, wrap, alpha, H))


class Spheres(Harness):
    """Meshes and sub-regions: every smoothness, per-node parameters, merged regional parameters."""
    name = 'spheres'
    chunk = 1

    def bounds(self, tier):
        return 'smoothness 2-5 on levels 0-1; every neighbourhood and super-triangle view of level 1 (and level-2 views thorough); regional parameters merged over every pair and the complete set of regions'

    def cases(self, tier):
        for level, alpha in itertools.product((0, 1), (2, 3, 4, 5)):
            yield dict(what='alpha', level=level, alpha=alpha)
        for k in range(20):
            yield dict(what='view', kind='local', level=1, of=0, index=k)
            yield dict(what='view', kind='super', level=1, of=0, index=k)
        for k in range(80 if tier == 'thorough' else 8):
            yield dict(what='view', kind='local', level=2, of=1, index=k)
            yield dict(what='view', kind='super', level=2, of=1, index=k)
        for kind in ('local', 'super'):
            for k in range(19):
                yield dict(what='merge', kind=kind, regions=[k, k + 1, (k + 7) % 20])
            yield dict(what='merge', kind=kind, regions=list(range(20)))
            yield dict(what='merge', kind=kind, regions=list(range(19, -1, -1)))

    @staticmethod
    def view(kind, level, of, index):
        cls = SphereMeshViewLocal if kind == 'local' else SphereMeshViewSuperTriangle
        return elements.cached(('view', kind, level, of, index), lambda: cls(level, of, index, sparse_format='csr'))

    def run(self, case, rec):
        with quiet():
            getattr(self, 'what_' + case['what'])(case, rec)
            rec.state(sorted(case.items(), key=str))

    def what_alpha(self, case, rec):
        spde = elements.cached(('sphere', case['level']), lambda: SphereMeshSPDE(case['level']))
        alpha = case['alpha']
        for h in ((0.0, 0.0), (0.5, -0.5)):
            h = numpy.array(h)
            precision = lambda v: dense(spde.build_Q_stationary(v[0], v[1], alpha))
            derivative = lambda v, k: dense(spde.build_dQdp_stationary(v[0], v[1], alpha, k))
            require(agree(precision(h), sphere_reference(spde, h[0], h[1], alpha)), 'the precision for smoothness %d is not that of the model' % alpha)
            check_derivatives(precision, derivative, h, (0, 1), rec)

    def expected_triangles(self, kind, level, of, index):
        coarse = elements.cached(('sphere', of), lambda: SphereMeshSPDE(of))
        fine = elements.cached(('sphere', level), lambda: SphereMeshSPDE(level))
        corners = numpy.array(coarse.triangulation.triangles[:, 1:], dtype=int)
        wanted = [index] if kind == 'super' else [k for k in range(len(corners)) if set(corners[k]) & set(corners[index])]
        points = numpy.array(coarse.triangulation.points)
        found = []
        for k, triangle in enumerate(numpy.array(fine.triangulation.triangles[:, 1:], dtype=int)):
            centre = numpy.array(fine.triangulation.points)[triangle].mean(axis=0)
            for w in wanted:
                a, b, c = points[corners[w]]
                if all(s * numpy.dot(numpy.cross(p, q), centre) >= -1e-12 for s in [numpy.sign(numpy.dot(numpy.cross(a, b), c))] for p, q in ((a, b), (b, c), (c, a))):
                    found.append(k)
                    break
        return found

    def view_check(self, spde, case):
        triangles = self.expected_triangles(case['kind'], case['level'], case['of'], case['index'])
        require(sorted(int(k) for k in spde.active_triangle_indices) == triangles, 'the region covers triangles %r, not %r' % (list(spde.active_triangle_indices), triangles))

    def what_view(self, case, rec):
        spde = Spheres.view(case['kind'], case['level'], case['of'], case['index'])
        self.view_check(spde, case)
        full = elements.cached(('sphere', case['level']), lambda: SphereMeshSPDE(case['level']))
        active = self.expected_triangles(case['kind'], case['level'], case['of'], case['index'])
        triangles = numpy.array(full.triangulation.triangles[:, 1:], dtype=int)[active]
        members = numpy.unique(triangles)
        require(spde.n_latent_variables() == len(members), '%d nodes in a region of %d' % (spde.n_latent_variables(), len(members)))
        C, G = finite_elements(numpy.array(full.triangulation.points), triangles, members)
        h = numpy.array([0.3, -0.4])
        Q = dense(spde.build_Q_stationary(h[0], h[1], 2))
        require(agree(Q, matern(C, G, h[0], h[1], 2, 2)), 'the precision of the region is not that of its own triangles')
        check_derivatives(lambda v: dense(spde.build_Q_stationary(v[0], v[1], 2)), lambda v, k: dense(spde.build_dQdp_stationary(v[0], v[1], 2, k)), h, (0, 1), rec)
        # positions inside and outside the region: weights of the whole mesh, restricted to the region
        points = numpy.array(full.triangulation.points)
        everything = numpy.array(full.triangulation.triangles[:, 1:], dtype=int)
        centres = points[everything].mean(axis=1)
        centres /= numpy.linalg.norm(centres, axis=1)[:, None]
        polar = numpy.degrees(numpy.array([numpy.arcsin(centres[:, 2]), numpy.arctan2(centres[:, 1], centres[:, 0])]).T)
        A = dense(spde.build_A(polar))
        whole = dense(full.build_A(polar))
        inside = numpy.zeros(len(everything), dtype=bool)
        inside[active] = True
        require(bool(numpy.array_equal(spde.in_domain(polar), inside)), 'locations are not placed in the region they are in')
        require(bool(numpy.allclose(A, numpy.where(inside[:, None], whole, 0.0)[:, members], atol=1e-12)), 'the design of the region is not that of the mesh inside the region and zero outside')
        rec.step(3)


    def what_merge(self, case, rec):
        world = elements.cached('world', lambda: SphereMeshViewGlobal(1))
        n = world.n_latent_variables()
        regions = [Spheres.view(case['kind'], 1, 0, k) for k in case['regions']]
        values = [numpy.array([0.1 * k - 0.5, 0.3 - 0.07 * k]) for k in case['regions']]
        sums = numpy.zeros((2, n))
        counts = numpy.zeros(n)
        for k, v in zip(case['regions'], values):
            members = numpy.unique(numpy.array(world.triangulation.triangles[:, 1:], dtype=int)[self.expected_triangles(case['kind'], 1, 0, k)])
            sums[0, members] += numpy.exp(v[0])
            sums[1, members] += numpy.exp(v[1])
            counts[members] += 1
        covered = counts > 0
        with numpy.errstate(all='ignore'):
            expected = numpy.log(sums / counts)
            accumulators = (None, None, None)
            for region, v in zip(regions, values):
                accumulators = SphereMeshViewGlobal.accumulate_local_parameterisations(*(tuple(accumulators) + (region, v)))
                rec.step()
            sigma, rho = SphereMeshViewGlobal.finalise_local_parameterisation_sigma_rho(*accumulators)
            q, sigma_design, rho_design = SphereMeshViewGlobal.finalise_local_parameterisation_q(*accumulators)
        require(bool(numpy.allclose(numpy.array([sigma, rho])[:, covered], expected[:, covered], atol=1e-12)), 'merged parameters are not the average over the regions a node is in')
        if bool(covered.all()):
            require(bool(numpy.allclose(dense(sigma_design).dot(q), expected[0], atol=1e-12)) and bool(numpy.allclose(dense(rho_design).dot(q), expected[1], atol=1e-12)), 'the merged parameter vector is not the average over the regions a node is in')
            for method, target in (('exp_average', expected), ('direct_average', None)):
                merged, sigma_design, rho_design = world.merge_local_parameterisations(regions, values, merge_method=method)
                if target is None:
                    target = numpy.zeros((2, n))
                    for k, v in zip(case['regions'], values):
                        members = numpy.unique(numpy.array(world.triangulation.triangles[:, 1:], dtype=int)[self.expected_triangles(case['kind'], 1, 0, k)])
                        target[:, members] += v[:, None]
                    target = target / counts
                require(bool(numpy.allclose(dense(sigma_design).dot(merged), target[0], atol=1e-12)) and bool(numpy.allclose(dense(rho_design).dot(merged), target[1], atol=1e-12)), 'merging by %s does not average over the regions a node is in' % method)
            Q = dense(world.build_Q_expanded(sigma, rho, 2))
            require(agree(Q, sphere_reference(world, sigma, rho)), 'the precision with parameters per node is not that of the model')
            rec.step(3)


class Vectors(Harness):
    """Hyperparameter objects as vectors: every kind and every mixture of scalar and vector members, through arrays and files."""
    name = 'vectors'
    chunk = 8

    def bounds(self, tier):
        return 'general hyperparameters: all assignments of scalar/1/2/3-element members to up to 3 names in both definition orders; expanded hyperparameters of 1-4 nodes; set, read, save and load'

    def cases(self, tier):
        for n in (1, 2, 3):
            for sizes in itertools.product((0, 1, 2, 3), repeat=n):
                for reverse in (False, True):
                    yield dict(kind='general', sizes=sizes, reverse=reverse)
        for n in (1, 2, 3, 4):
            yield dict(kind='expanded', n=n)

    def run(self, case, rec):
        import os
        import tempfile
        name = os.path.join(tempfile.mkdtemp(), 'h.npy')
        if case['kind'] == 'expanded':
            n = case['n']
            h = ExpandedLocalHyperparameters(numpy.arange(n) + 0.5, numpy.arange(n) - 3.0)
            require(equal(h.get_array(), numpy.hstack([numpy.arange(n) + 0.5, numpy.arange(n) - 3.0])), 'read as %r' % h.get_array())
            new = values_for(2 * n, 3)
            h.set_array(new.copy())
            require(equal(h.get_array(), new) and equal(h.log_sigma, new[:n]) and equal(h.log_rho, new[n:]), 'set to %r, read as %r' % (new, h.get_array()))
            h.values_to_npy_savefile(name)
            other = ExpandedLocalHyperparameters(numpy.zeros(n), numpy.zeros(n))
            other.values_from_npy_savefile(name)
            require(equal(other.log_sigma, new[:n]) and equal(other.log_rho, new[n:]), 'saved %r, loaded %r' % (new, other.get_array()))
        else:
            names = ['alpha', 'beta', 'gamma'][:len(case['sizes'])]
            members = [(k, 0.5 + 10 * i if not size else 10.0 * i + numpy.arange(size)) for i, (k, size) in enumerate(zip(names, case['sizes']))]
            h = GeneralHyperparameters(**dict(reversed(members) if case['reverse'] else members))
            flat = numpy.hstack([numpy.atleast_1d(v) for k, v in members])
            require(equal(h.get_array(), flat), 'read as %r, holding %r' % (h.get_array(), members))
            new = values_for(len(flat), 3)
            h.set_array(new.copy())
            require(equal(h.get_array(), new), 'set to %r, read as %r' % (new, h.get_array()))
            position = 0
            for (k, v), size in zip(members, case['sizes']):
                require(equal(numpy.atleast_1d(h.get_dictionary()[k]), new[position:position + max(1, size)]), 'member %s is %r after setting %r' % (k, h.get_dictionary()[k], new))
                position += max(1, size)
            h.values_to_npy_savefile(name)
            other = GeneralHyperparameters.init_from_npy_savefile(name)
            require(equal(other.get_array(), new), 'saved %r, loaded %r' % (new, other.get_array()))
        rec.step(4)
        rec.state(sorted(case.items(), key=str))


HARNESSES = [Elements(), Lattices(), Spheres(), Vectors()]
