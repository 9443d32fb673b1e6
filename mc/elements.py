"""The alphabet of real model elements, each with its own hyperparameters, over a common set of observations."""
import datetime

import numpy

from mc.analysis import Obs

from eustace.analysis.advanced_standard.elements.bias import BiasElement
from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
from eustace.analysis.advanced_standard.elements.factor import SpaceTimeFactorElement
from eustace.analysis.advanced_standard.elements.grandmean import GrandMeanElement
from eustace.analysis.advanced_standard.elements.kronecker import SpaceTimeKroneckerElement
from eustace.analysis.advanced_standard.elements.kronecker_annual import AnnualKroneckerElement
from eustace.analysis.advanced_standard.elements.latitudeharmonics import LatitudeHarmonicsElement
from eustace.analysis.advanced_standard.elements.latitudespline import LatitudeSplineElement
from eustace.analysis.advanced_standard.elements.local import LocalElement, LocalHyperparameters
from eustace.analysis.advanced_standard.elements.local_view import ExpandedLocalHyperparameters, ExtendedCombinationHyperparameters, LocalSubRegion, LocalSuperTriangle, NonStationaryLocal
from eustace.analysis.advanced_standard.elements.seasonal import SeasonalElement, SeasonalHyperparameters
from eustace.analysis.advanced_standard.elements.spacetimespde import SpaceTimeSPDEHyperparameters
from eustace.analysis.advanced_standard.elements.spatial_bias import SpatialBiasElement

LOCATIONS = [(0.0, 0.0), (-34.0, 151.0), (90.0, 0.0), (61.5, -179.5), (-12.25, 33.0)]


class Place(Obs):
    """Observations at given latitudes and longitudes with group effects (pairs of observation number and bias number)."""
    def __init__(self, t, places, effects=None, values=None, hour=0):
        Obs.__init__(self, t, [(0, 1.0 if values is None else values[k], 1.0 + k) for k in range(len(places))])
        self.places = numpy.array(places, dtype=numpy.float64).reshape(len(places), 2)
        self.effects = effects or {}
        self.hour = hour

    def time_datetime(self):
        return Obs.time_datetime(self) + datetime.timedelta(hours=self.hour)

    def location_polar_coordinates(self):
        return self.places

    def covariate_effect(self, groupname, **kwargs):
        return numpy.array(self.effects[groupname]) if groupname in self.effects else None


_cache = {}


def cached(name, build):
    if name not in _cache:
        _cache[name] = build()
    return _cache[name]


START = 0.0


def combined(cls, entries):
    elements, parameters = zip(*entries)
    return CombinationElement(list(elements)), cls(list(parameters))


def make(kind, variant=0):
    """A fresh element and a fresh hyperparameter object; the variant moves the hyperparameters."""
    v = 0.1 * variant
    if kind == 'mean':
        return GrandMeanElement(), CovariateHyperparameters(0.3 + v)
    if kind == 'harmonics':
        return LatitudeHarmonicsElement(), CombinationHyperparameters([CovariateHyperparameters(p + v) for p in (0.1, -0.2, 0.3, 0.4)])
    if kind == 'bias':
        return BiasElement('g', 3), CovariateHyperparameters(-0.4 + v)
    if kind == 'local':
        return cached(kind, lambda: LocalElement(0)), LocalHyperparameters(0.2 + v, -0.3 - v)
    if kind == 'seasonal':
        return cached(kind, lambda: SeasonalElement(0, 1, True)), seasonal(1, True, v)
    if kind == 'seasonalzero':
        return cached(kind, lambda: SeasonalElement(0, 1, False)), seasonal(1, False, v)
    if kind == 'kronecker':
        return cached(kind, lambda: SpaceTimeKroneckerElement(0, 2, 0.0, 4.0, 3, 2.5, 1.0)), SpaceTimeSPDEHyperparameters(0.2 + v, -0.1, 0.4 - v)
    if kind == 'annual':
        return cached(kind, lambda: AnnualKroneckerElement(0, 2, 1850.0, 1851.0, 2, 2.5, 1.0)), SpaceTimeSPDEHyperparameters(-0.2 + v, 0.1, 0.3 - v)
    if kind == 'factor':
        return cached(kind, lambda: SpaceTimeFactorElement(0, 2, 0.0, 4.0, 3, 2.5, 1.0)), SpaceTimeSPDEHyperparameters(0.1 + v, 0.2, -0.3 - v)
    if kind == 'spatialbias':
        return cached(kind, lambda: SpatialBiasElement('h', 0)), LocalHyperparameters(-0.2 + v, 0.15 - v)
    if kind == 'nested':
        return combined(CombinationHyperparameters, [make('bias', variant + 1), make('mean', variant + 2)])
    if kind == 'nestednonlinear':
        return combined(ExtendedCombinationHyperparameters, [make('mean', variant + 1), make('factor', variant + 2), make('bias', variant)])
    if kind == 'spline':
        return cached(kind, lambda: LatitudeSplineElement(2, 5, 2.5, 1.0)), LocalHyperparameters(0.1 + v, 3.0 - v)
    if kind == 'subregion':
        return cached(kind, lambda: LocalSubRegion(1, 0, 3)), LocalHyperparameters(0.1 + v, -0.2 - v)
    if kind == 'supertriangle':
        return cached(kind, lambda: LocalSuperTriangle(2, 0, 7)), LocalHyperparameters(-0.1 + v, -0.4 + v)
    if kind == 'nonstationary':
        element = cached(kind, lambda: NonStationaryLocal(0))
        return element, ExpandedLocalHyperparameters(numpy.linspace(-0.3, 0.2, 12) + v, numpy.linspace(0.4, -0.5, 12) - v)
    raise ValueError(kind)


def seasonal(n_harmonics, mean, v):
    parameters = SeasonalHyperparameters(n_harmonics + int(mean), 0.0, 0.0)
    count = parameters.get_array().shape[0]
    parameters.set_array(numpy.linspace(-0.3, 0.5, count) + v)
    return parameters


COMBINED = ['mean', 'harmonics', 'bias', 'local', 'seasonal', 'seasonalzero', 'kronecker', 'annual', 'factor', 'spatialbias', 'nested', 'nestednonlinear']
ALL = COMBINED + ['spline', 'subregion', 'supertriangle', 'nonstationary']
