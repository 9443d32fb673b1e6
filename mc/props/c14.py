"""C14: a combination of model elements is the concatenation of its parts, for every ordered selection of element kinds."""
import itertools
import json

import numpy
import scipy.sparse

from mc import elements
from mc.core import Harness, require
from mc.env import quiet

from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import LoadCovariateElement
from eustace.analysis.advanced_standard.elements.local_view import ExtendedCombinationHyperparameters

EFFECTS = {'g': [[0, 1], [2, 0], [4, 2]], 'h': [[0, 0], [1, 0], [2, 0], [3, 0], [4, 0]]}


def dense(matrix):
    return numpy.asarray(matrix.todense()) if scipy.sparse.issparse(matrix) else numpy.asarray(matrix)


def equal(a, b):
    a, b = dense(a), dense(b)
    return a.shape == b.shape and bool(numpy.array_equal(a, b))


def close(a, b):
    a, b = dense(a), dense(b)
    return a.shape == b.shape and bool(numpy.allclose(a, b, rtol=1e-11, atol=1e-12))


def values_for(n, salt):
    return numpy.array([((7 * k + 3 * salt) % 11 - 4) / 8.0 for k in range(n)])


def block(matrices):
    n = sum(m.shape[0] for m in matrices)
    result = numpy.zeros((n, n))
    start = 0
    for m in matrices:
        result[start:start + m.shape[0], start:start + m.shape[0]] = m
        start += m.shape[0]
    return result


class Combine(Harness):
    name = 'combine'
    chunk = 4

    def bounds(self, tier):
        return 'all ordered selections with repetition of 1-%d of %d element kinds (linear, nonlinear, nested) x with and without group effects x 5, 1 or no observations; every hyperparameter index; every state part' % (4 if tier == 'thorough' else 3, len(elements.COMBINED))

    def cases(self, tier):
        for length in range(1, 5 if tier == 'thorough' else 4):
            for kinds in itertools.product(elements.COMBINED, repeat=length):
                if length == 4 and len(set(kinds)) > 2 and not set(kinds) <= set(['mean', 'bias', 'harmonics', 'factor', 'nestednonlinear', 'local']):
                    continue
                yield dict(kinds=kinds)

    def run(self, case, rec):
        with quiet():
            for n, effects in ((5, EFFECTS), (1, {}), (0, {})) if len(case['kinds']) < 3 else ((5, EFFECTS), (1, {})):
                self.check(case['kinds'], elements.Place(2, elements.LOCATIONS[:n], effects), rec)
            self.hyperparameters(case['kinds'], rec)

    def check(self, kinds, structure, rec):
        made = [elements.make(kind, k) for k, kind in enumerate(kinds)]
        parts = [m[0] for m in made]
        combination = CombinationElement(parts)
        hyperparameters = CombinationHyperparameters([m[1] for m in made])
        nonlinear = any(p.isnonlinear() for p in parts)
        require(combination.isnonlinear() == nonlinear, 'the combination is%s nonlinear' % ('' if combination.isnonlinear() else ' not'))
        alone = [p.element_design(structure) for p in parts]
        design = combination.element_design(structure)
        require(design.isnonlinear() == nonlinear, 'the design is%s nonlinear' % ('' if design.isnonlinear() else ' not'))
        sizes = [d.design_number_of_state_parameters() for d in alone]
        total = sum(sizes)
        require(design.design_number_of_state_parameters() == total, 'state size %r is not the sum of %r' % (design.design_number_of_state_parameters(), sizes))
        bounds = numpy.cumsum([0] + sizes)
        state = values_for(total, 1)
        slices = [state[bounds[k]:bounds[k + 1]] for k in range(len(parts))]
        rec.step(3)

        # splitting a state
        split = design.element_states(state)
        require(len(split) == len(parts) and all(equal(a, b) for a, b in zip(split, slices)), 'the state is not split into the parts in order')
        require(design.element_states(None) == [None] * len(parts), 'no state is not split into no states')

        # design
        expected = numpy.hstack([dense(d.design_jacobian(s)) for d, s in zip(alone, slices)])
        require(close(design.design_jacobian(state), expected), 'the jacobian is not the parts side by side')
        if not nonlinear:
            require(close(design.design_matrix(), expected), 'the design matrix is not the parts side by side')
            require(close(design.design_jacobian(None), expected), 'the jacobian without a state is not the parts side by side')
            require(design.design_initial_state() is None, 'a linear combination has an initial state')
        else:
            initial = design.design_initial_state()
            reference = numpy.hstack([d.design_initial_state() if d.isnonlinear() else numpy.zeros(n) for d, n in zip(alone, sizes)])
            require(close(initial, reference), 'the initial state is not that of the parts')
        total_function = sum([dense(d.design_function(s)).ravel() for d, s in zip(alone, slices)], numpy.zeros(structure.number_of_observations()))
        require(close(dense(design.design_function(state)).ravel(), total_function), 'the design function is not the sum over the parts')
        if not nonlinear:
            require(close(dense(design.design_function(state, rectified=True)).ravel(), numpy.abs(expected).dot(state)), 'the rectified design function is not the sum over the parts')
        rec.step(4)

        # prior
        own = [p.element_prior(m[1]) for p, m in zip(parts, made)]
        prior = combination.element_prior(hyperparameters)
        require(prior.prior_number_of_state_parameters() == total, 'prior state size %r, design %r' % (prior.prior_number_of_state_parameters(), total))
        require(close(prior.prior_precision(), block([dense(p.prior_precision()) for p in own])), 'the prior precision is not block diagonal in the parts')
        split = prior.element_states(state)
        require(len(split) == len(parts) and all(equal(a, b) for a, b in zip(split, slices)), 'the prior does not split the state into the parts in order')
        index = 0
        for k, part in enumerate(own):
            for j in range(made[k][1].get_array().shape[0]):
                blocks = [numpy.zeros((n, n)) for n in sizes]
                blocks[k] = dense(part.prior_precision_derivative(j))
                require(close(prior.prior_precision_derivative(index), block(blocks)), 'derivative %d does not affect exactly the block of part %d' % (index, k))
                index += 1
                rec.step()
        rec.state((kinds, structure.number_of_observations()))

    def hyperparameters(self, kinds, rec):
        for cls in (CombinationHyperparameters, ExtendedCombinationHyperparameters):
            made = [elements.make(kind, k) for k, kind in enumerate(kinds)]
            parts = [m[1] for m in made]
            combination = cls(parts)
            vectors = [numpy.array(p.get_array()) for p in parts]
            require(equal(combination.get_array(), numpy.hstack(vectors)), 'hyperparameters are not those of the parts in order')
            ranges = combination.get_element_ranges()
            counts = [len(v) for v in vectors]
            starts = numpy.cumsum([0] + counts)
            require([list(r) for r in ranges] == [list(range(starts[k], starts[k + 1])) for k in range(len(parts))], 'hyperparameter ranges %r for counts %r' % (ranges, counts))
            new = values_for(sum(counts), 5)
            combination.set_array(new.copy())
            require(equal(combination.get_array(), new), 'hyperparameters set are not those read back')
            for k, p in enumerate(parts):
                require(equal(p.get_array(), new[starts[k]:starts[k + 1]]), 'part %d has hyperparameters %r' % (k, p.get_array()))
            for wrong in (new[:-1], numpy.hstack([new, [0.5]])):
                try:
                    combination.set_array(wrong)
                except ValueError:
                    pass
                else:
                    require(False, '%d values accepted for %d hyperparameters' % (len(wrong), len(new)))
                require(equal(combination.get_array(), new), 'refused values changed the hyperparameters')
            if cls is ExtendedCombinationHyperparameters:
                import os
                import tempfile
                name = os.path.join(tempfile.mkdtemp(), 'h.npy')
                combination.values_to_npy_savefile(name)
                fresh = cls([elements.make(kind, k)[1] for k, kind in enumerate(kinds)])
                fresh.values_from_npy_savefile(name)
                require(equal(fresh.get_array(), new), 'hyperparameters read from file are not those saved')
                for k, p in enumerate(fresh.elementparameters):
                    require(equal(p.get_array(), new[starts[k]:starts[k + 1]]), 'part %d read from file has hyperparameters %r' % (k, p.get_array()))
            rec.step(4)


class Descriptor(Harness):
    """Covariates named in a descriptor file: every element is paired with the hyperparameters of its own entry."""
    name = 'descriptor'
    chunk = 1

    def bounds(self, tier):
        return 'all orders and subsets of the available covariates, entries with one and four hyperparameters'

    def cases(self, tier):
        names = ['latitude_harmonics', 'altitude', 'coastal_influence']
        for n in range(1, 4):
            for chosen in itertools.permutations(names, n):
                yield dict(chosen=chosen)
        yield dict(chosen=['altitude', 'unknown'])

    def run(self, case, rec):
        import os
        import tempfile
        import netCDF4
        folder = tempfile.mkdtemp()
        description = {}
        expected = {}
        for k, name in enumerate(case['chosen']):
            if name == 'latitude_harmonics':
                values = {'harmonic_%d' % j: [2.5, 0.5, 3.5, 1.5][j] + 0.1 * k for j in range(4)}
                description[name] = {'element': {'python_class': 'eustace.analysis.advanced_standard.elements.latitudeharmonics.LatitudeHarmonicsElement'}, 'hyperparameters': values}
            else:
                path = os.path.join(folder, name + '.nc')
                d = netCDF4.Dataset(path, 'w')
                d.createDimension('y', 3)
                d.createDimension('x', 4)
                lat, lon = numpy.meshgrid([0.0, 1.0, 2.0], [0.0, 1.0, 2.0, 3.0], indexing='ij')
                for label, data in (('lat', lat), ('lon', lon), (name, 10.0 * k + lat + 5 * lon)):
                    d.createVariable(label, 'f8', ('y', 'x'))[:] = data
                d.close()
                values = {'scale': 2.0 + k}
                description[name] = {'element': {'python_class': 'eustace.analysis.advanced_standard.elements.geography_based.GeographyBasedElement',
                                                 'parameters': dict(filename=path, latitude_label='lat', longitude_label='lon', covariate_label=name, rescale_factor=1.0)},
                                     'hyperparameters': values}
            expected[name] = numpy.log(list(values.values()))
        path = os.path.join(folder, 'descriptor.json')
        with open(path, 'w') as f:
            json.dump(description, f)
        loader = LoadCovariateElement(path)
        with quiet():
            if 'unknown' in case['chosen']:
                try:
                    loader.check_keys()
                except ValueError:
                    return
                require(False, 'an unknown covariate is accepted')
            loader.check_keys()
            found, parameters = loader.load_covariates_and_hyperparameters()
        require(len(found) == len(parameters) == len(case['chosen']), '%d elements and %d hyperparameter sets for %d entries' % (len(found), len(parameters), len(case['chosen'])))
        structure = elements.Place(2, [(0.5, 0.5), (1.0, 2.0)])
        seen = []
        for element, h in zip(found, parameters):
            matrix = dense(element.element_design(structure).design_matrix())
            if matrix.shape[1] == 4:
                name = 'latitude_harmonics'
            else:
                k = int(round((matrix[0, 0] - 3.0) / 10.0))
                name = case['chosen'][k]
                require(close(matrix.ravel(), [10.0 * k + 3.0, 10.0 * k + 11.0]), 'design values %r' % matrix)
            require(close(h.get_array(), expected[name]), 'covariate %s has hyperparameters %r, described as %r' % (name, h.get_array(), expected[name]))
            seen.append(name)
        require(sorted(seen) == sorted(case['chosen']), 'covariates %r loaded for %r' % (seen, case['chosen']))
        rec.step(len(seen))
        rec.state(case['chosen'])


HARNESSES = [Combine(), Descriptor()]
