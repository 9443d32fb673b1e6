"""C39: threshold and outlier checks flag exactly the cells whose surroundings fail them."""
import calendar
import copy
import datetime
import itertools
import os

import numpy

from mc import product
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.outputformats import definitions
from eustace.postprocess import flags

with quiet():
    from eustace.postprocess import apply_mask, threshold_check, outlier_check, cell_percentile_calculation, cell_percentile_threshold

NLAT, NLON = 20, 40


def bit(name):
    return int(getattr(flags, name))


def mirror(i, n):
    if i < 0:
        return -i
    if i >= n:
        return 2 * (n - 1) - i
    return i


def neighbourhood(i, j, shape, half_lat, half_lon):
    rows = [mirror(r, shape[0]) for r in range(i - half_lat, i + half_lat + 1)]
    columns = [c % shape[1] for c in range(j - half_lon, j + half_lon + 1)]
    return numpy.ix_(rows, columns)


def window_mean(field, width):
    out = numpy.zeros(field.shape)
    for i in range(field.shape[0]):
        for j in range(field.shape[1]):
            out[i, j] = field[neighbourhood(i, j, field.shape, width // 2, width // 2)].mean()
    return out


def spread(flagged, width=5):
    return window_mean(flagged.astype(float), width) > 0


def packed(variable, values):
    """Values as they come back from file."""
    raw = numpy.rint((values - variable.add_offset) / variable.scale_factor)
    return raw * variable.scale_factor + variable.add_offset


def write_day(root, iteration, date, tas, analysis_influence, climatology_uncertainty, large_scale_uncertainty):
    zero = numpy.zeros(tas.shape)
    for kind, first, unc, inf in (('eustace_analysis', definitions.TAS, zero + 0.25, analysis_influence),
                                  ('eustace_climatology_component', definitions.TAS, climatology_uncertainty, zero + 0.5),
                                  ('eustace_large_scale_component', definitions.TASPERTURBATION, large_scale_uncertainty, zero + 0.5)):
        product.write_fields(product.analysis_path(root, kind, iteration, date), date,
                             [(first, tas if first is definitions.TAS else zero), (definitions.TASUNCERTAINTY, unc), (definitions.TAS_OBSERVATION_INFLUENCE, inf)])


def impulses(tier, shape=(NLAT, NLON)):
    """Positions of a disturbance, in groups the length of a month."""
    columns = range(shape[1]) if tier == 'thorough' else sorted({0, 1, 2, shape[1] // 2, shape[1] - 3, shape[1] - 1})
    positions = [[i, j] for i in range(shape[0]) for j in columns]
    return [positions[k:k + 28] for k in range(0, len(positions), 28)]


def month_of(k):
    return [(2013, 2), (2012, 2), (2012, 12)][k % 3]


def run_month(case, prepare, operate, expect, rec, shape):
    year, month = case['month']
    n = calendar.monthrange(year, month)[1]
    with scratch() as root, product.grid(*shape), product.ancillary(root), quiet():
        days = [datetime.datetime(year, month, d + 1) for d in range(n)]
        wanted = []
        for d, date in enumerate(days):
            wanted.append(prepare(root, date, case['positions'][d % len(case['positions'])], d))
        operate(root, '%04d-01-01' % (year - 1), 12 + month - 1)
        names = sorted(f for _, _, fs in os.walk(os.path.join(root, 'out')) for f in fs)
        require(len(names) == n, lambda: '%d flag files for %d days' % (len(names), n))
        for d, date in enumerate(days):
            raw = product.read_raw(product.flag_path(os.path.join(root, 'out'), 9, date))['tas_qc'][0][0]
            want = wanted[d]
            if isinstance(want, tuple):
                want = numpy.where((raw & ~want[1] == 0) & (want[0] & ~raw == 0), raw, want[0])
            bad = numpy.argwhere(raw != want)
            require(len(bad) == 0, lambda: '%s, disturbance %s: cell %s has flags 0x%04x, expected 0x%04x (%d cells differ)' % (
                date.date(), case['positions'][d % len(case['positions'])], bad[0].tolist(), raw[tuple(bad[0])], want[tuple(bad[0])], len(bad)))
            rec.step()
            rec.state((str(date), raw.tobytes()))


def coast():
    values = numpy.zeros((NLAT, NLON), numpy.float32)
    values[:, ::3] = 100.0
    values[:, 1::3] = 99.9
    values[0, :] = 100.0
    values[-1, :] = 12.0
    return values


def marine_words():
    c = coast()
    c[0, :] = 0.0
    c[-1, :] = 100.0
    c[:, 0] = c[:, 1]
    c[:, -1] = c[:, -2]
    return numpy.where(c == 100.0, bit('MISSING_MARINE_FLAG'), 0)


class Thresholds(Harness):
    """Uncertainty and observation influence thresholds: a disturbance at every cell."""
    name = 'thresholds'
    chunk = 1
    timeout = 300

    def cases(self, tier):
        for k, positions in enumerate(impulses(tier)):
            for strength in ((1, 2) if tier == 'thorough' else (1 + k % 2,)):
                yield dict(month=month_of(k), positions=positions, strength=strength)

    def bounds(self, tier):
        return 'one disturbance at every cell of a 20x40 globe%s, thresholds exceeded by one or only by two counts of it' % (' ' if tier == 'thorough' else ' (all rows, 6 columns)')

    def run(self, case, rec):
        # thresholds between one and two (or below one) appearance of the disturbed cell in the smoothing window
        k = 0.5 if case['strength'] == 1 else 1.5
        limits = dict(climatology=k * 30.0 / 169, large=k * 20.0 / 289, influence=0.4 - k * 0.4 / 25)

        def prepare(root, date, position, d):
            if d == 0:
                product.write_map(os.path.join(root, 'coastal_influence.test.0.25_0.25.nc'), 'coastal_influence', coast())
            i, j = position
            shape = (NLAT, NLON)
            climatology, large, influence = numpy.zeros(shape), numpy.zeros(shape), numpy.full(shape, 0.4)
            climatology[i, j] = 30.0
            large[NLAT - 1 - i, j] = 20.0
            influence[i, NLON - 1 - j] = 0.0
            write_day(os.path.join(root, 'in'), 9, date, numpy.full(shape, 280.0), influence, climatology, large)
            words = marine_words()
            words = words | numpy.where(window_mean(climatology, 13) > limits['climatology'], bit('CLIMATOLOGY_UNC_FLAG'), 0)
            words = words | numpy.where(window_mean(large, 17) > limits['large'], bit('LARGE_SCALE_UNC_FLAG'), 0)
            words = words | numpy.where(window_mean(influence, 5) < limits['influence'], bit('DAY_FLAG'), 0)
            return words

        def operate(root, reference, index):
            threshold_check.flagging_operation(reference, index, os.path.join(root, 'in'), 9, os.path.join(root, 'out'),
                                               limits['climatology'], limits['large'], limits['influence'])

        run_month(case, prepare, operate, None, rec, (NLAT, NLON))


def base_field(shape):
    i, j = numpy.indices(shape)
    return 280.0 + 0.5 * ((i * 3 + j * 5) % 7) - 0.25 * ((i + 2 * j) % 5)


def search_windows(shape):
    """Half widths in cells of the areal window for each row."""
    resolution = 180.0 / shape[0]
    lon_step = (360.0 - resolution) / (shape[1] - 1)
    latitudes = numpy.linspace(-90 + resolution / 2, 90 - resolution / 2, shape[0])
    half_lat = min(50, int(numpy.ceil(numpy.degrees(750.0 / 6371.0) / resolution)))
    halves = []
    for i in range(shape[0]):
        block = i // 20
        centre = latitudes[block * 20:(block + 1) * 20].mean()
        halves.append((half_lat, min(50, int(numpy.ceil(numpy.degrees(750.0 / (6371.0 * numpy.cos(numpy.radians(centre)))) / lon_step)))))
    return halves


def areal(field, limit=4.0, margin=0.0):
    low, high = numpy.zeros(field.shape, bool), numpy.zeros(field.shape, bool)
    for i, (half_lat, half_lon) in enumerate(search_windows(field.shape)):
        for j in range(field.shape[1]):
            q1, q2, q3 = numpy.percentile(field[neighbourhood(i, j, field.shape, half_lat, half_lon)], [25, 50, 75])
            low[i, j] = field[i, j] < q1 - limit * (q2 - q1) - margin
            high[i, j] = field[i, j] > q3 + limit * (q3 - q2) + margin
    return low, high


class Outliers(Harness):
    """Areal and extreme value checks: a hot or cold cell at every position, on mountains too."""
    name = 'outliers'
    chunk = 1
    timeout = 600

    def cases(self, tier):
        for k, positions in enumerate(impulses(tier)):
            yield dict(month=month_of(k), positions=positions, shape=[NLAT, NLON], kind=k % 3)
        # two blocks of latitudes
        yield dict(month=(2013, 2), positions=[[i, j] for i in (0, 1, 17, 18, 19, 20, 21, 22, 38, 39) for j in (0, 41, 79)][:28], shape=[40, 80], kind=0)

    def bounds(self, tier):
        return 'a disturbance at every cell of a 20x40 globe%s and around block edges of a 40x80 globe; strengths just inside and outside the limits' % ('' if tier == 'thorough' else ' (all rows, 6 columns)')

    def run(self, case, rec):
        shape = tuple(case['shape'])
        altitude = numpy.zeros(shape, numpy.float32)
        altitude[shape[0] // 2:, ::4] = 2000.0
        altitude[shape[0] // 3, :] = -100.0

        def prepare(root, date, position, d):
            if d == 0:
                product.write_map(os.path.join(root, 'DEM_global_0.25_0.25.nc'), 'dem', altitude)
            i, j = position
            field = base_field(shape) - 4.5 * 0.001 * altitude
            strength = d % 4
            if case['kind'] == 0:
                field[i, j] += [30.0, -30.0, 4.0, -4.0][strength]
            elif case['kind'] == 1:
                field[i, j] = [193.145, 193.155, 333.155, 333.145][strength]
            else:
                field[i, j] += 25.0
                field[i, (j + 3) % shape[1]] = 193.0
                field[shape[0] - 1 - i, (j + 7) % shape[1]] = 334.0
            field = packed(definitions.TAS, field)
            zero = numpy.zeros(shape)
            write_day(os.path.join(root, 'in'), 9, date, field, zero, zero, zero)
            results = []
            for margin in (1e-6, -1e-6):
                low, high = areal(field + 4.5 * 0.001 * altitude, margin=margin)
                words = numpy.zeros(shape, int)
                words |= numpy.where(spread(low), bit('AREAL_LOW_FLAG'), 0)
                words |= numpy.where(spread(high), bit('AREAL_HIGH_FLAG'), 0)
                words |= numpy.where(spread(field < 193.15), bit('EXTREME_LOW_FLAG'), 0)
                words |= numpy.where(spread(field > 333.15), bit('EXTREME_HIGH_FLAG'), 0)
                results.append(words)
            # where a value equals its limit up to rounding either outcome is right
            return tuple(results)

        def operate(root, reference, index):
            outlier_check.flagging_operation(reference, index, os.path.join(root, 'in'), 9, os.path.join(root, 'out'))

        run_month(case, prepare, operate, None, rec, shape)


class Location(Harness):
    """Location based limits from the percentiles of a calendar day over the years."""
    name = 'location'
    chunk = 1
    timeout = 600

    def cases(self, tier):
        for month in ([2, 12] if tier == 'quick' else [1, 2, 3, 11, 12]):
            for years in ([(2010, 2012)] if tier == 'quick' else [(2010, 2012), (2012, 2012), (1999, 2002)]):
                yield dict(month=month, years=years)

    def bounds(self, tier):
        return 'every history of 3 temperatures over the years of the period (one per cell) x 12 values to be checked (either side of the limits of its own history, and far off), all days of the months, leap days included'

    def run(self, case, rec):
        first, last = case['years']
        years = list(range(first, last + 1))
        month = case['month']
        levels = [270.0, 271.0, 275.0]
        combos = list(itertools.product(range(3), repeat=len(years)))
        # quartile distances from the median (of the cell's own history), and temperatures
        checks = [-9.5, -8.5, -7.5, -0.5, 0.0, 0.5, 7.5, 8.5, 9.5, 200.0, 273.0, 320.0]
        shape = (2 * len(checks), 4 * len(checks))
        while shape[0] * shape[1] < len(combos) * len(checks):
            shape = (shape[0] * 2, shape[1] * 2)
        cells = numpy.arange(shape[0] * shape[1])
        leap = calendar.monthrange(2000, month)[1]
        target_year = 2012
        with scratch() as root, product.grid(*shape), product.ancillary(root), quiet():
            zero = numpy.zeros(shape)

            def history(year, day):
                k = years.index(year)
                table = numpy.array([levels[(c[k] + day) % 3] for c in combos])
                return packed(definitions.TAS, table[cells // len(checks) % len(combos)].reshape(shape))

            def limits(day):
                series = numpy.stack([history(y, min(day, calendar.monthrange(y, month)[1])) for y in years])
                return (series,) + tuple(numpy.percentile(series, [25, 50, 75], axis=0))

            def tested(day):
                series, q1, q2, q3 = limits(day)
                choice = numpy.array(checks)[(cells + day) % len(checks)].reshape(shape)
                return packed(definitions.TAS, numpy.where(abs(choice) > 100.0, choice, q2 + numpy.where(choice < 0, choice * (q2 - q1), choice * (q3 - q2))))

            for year in years:
                for day in range(1, calendar.monthrange(year, month)[1] + 1):
                    date = datetime.datetime(year, month, day)
                    product.write_fields(product.analysis_path(os.path.join(root, 'in'), 'eustace_analysis', 9, date), date, [(definitions.TAS, history(year, day))])
            cell_percentile_calculation.cell_percentile_calculation_month(os.path.join(root, 'in'), os.path.join(root, 'percentiles'), 9, first, last, month)
            rec.step(leap)
            for day in range(1, leap + 1):
                date = datetime.datetime(target_year, month, day)
                product.write_fields(product.analysis_path(os.path.join(root, 'check'), 'eustace_analysis', 9, date), date,
                                     [(definitions.TAS, tested(day)), (definitions.TASUNCERTAINTY, zero), (definitions.TAS_OBSERVATION_INFLUENCE, zero)])
            cell_percentile_threshold.flagging_operation('%04d-01-01' % target_year, month - 1, os.path.join(root, 'check'), 9, os.path.join(root, 'out'), os.path.join(root, 'percentiles'))
            names = sorted(f for _, _, fs in os.walk(os.path.join(root, 'out')) for f in fs)
            require(len(names) == leap, lambda: '%d flag files for %d days' % (len(names), leap))
            for day in range(1, leap + 1):
                series, q1, q2, q3 = limits(day)
                value = tested(day)
                words = numpy.where(value < q2 - 8.0 * (q2 - q1) - 1e-6, bit('LOCATION_LOW_FLAG'), 0) | numpy.where(value > q2 + 8.0 * (q3 - q2) + 1e-6, bit('LOCATION_HIGH_FLAG'), 0)
                sure = (abs(value - q2 + 8.0 * (q2 - q1)) > 1e-6) & (abs(value - q2 - 8.0 * (q3 - q2)) > 1e-6)
                sure |= (q1 == q3) & (value == q2)
                raw = product.read_raw(product.flag_path(os.path.join(root, 'out'), 9, datetime.datetime(target_year, month, day)))['tas_qc'][0][0]
                bad = numpy.argwhere((raw != words) & sure)
                require(len(bad) == 0, lambda: 'month %d day %d: value %s with yearly values %s has flags 0x%04x, expected 0x%04x' % (
                    month, day, value[tuple(bad[0])], series[(slice(None),) + tuple(bad[0])].tolist(), raw[tuple(bad[0])], words[tuple(bad[0])]))
                rec.step()
                rec.state((month, day, raw.tobytes()))


HARNESSES = [Thresholds(), Outliers(), Location()]
