"""C38: the generated full-analysis schedule, built into a catalogue and run operation by operation on a small model."""
import datetime
import inspect
import itertools
import json
import os
import sys

import netCDF4
import numpy

from mc import analysis, cat
from mc.core import Harness, require
from mc.env import quiet, scratch, silent, touch

with quiet():
    from eumopps.catalogue import build as build_module
    from eumopps.catalogue import jsonfiller as plain
    from eustace import toolchain
    from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
    from eumopps.catalogue.commandrun import commandrun
    from eumopps.netcdfobjects import netcdfobjects
    from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory
    from eustace.analysis.advanced_standard.examples import diagnosticfiller, generate_diagnostic_descriptors, generate_json_descriptors, moving_climatology, station_bias_model
    from eustace.analysis.advanced_standard.examples import jsonfiller as ranged

TEMPLATES = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'roses', 'fullstace', 'advanced_standard', 'templates')
NAMES = dict(measurement_climatology_command='clim_in', measurement_climatology_name='clim_inc', solution_climatology_command='clim_solve',
             solution_climatology_name='clim', measurement_large_scale_command='large_in', measurement_large_scale_name='large_inc',
             solution_large_scale_command='large_solve', solution_large_scale_name='large', local_scale_command='local_run',
             solution_local_scale_name='local', output_grid_command='grid', output_grid_name='product', output_climatology_name='product_clim',
             output_large_scale_name='product_large', output_local_name='product_local')


def elements():
    return [analysis.LinearElement(3, 1), analysis.LinearElement(2, 2), analysis.LinearElement(2, 3)]


def records(source, observable, when):
    """Observations in the file of one source, observable and day: different for each of them."""
    seed = sum(ord(c) * (i + 1) for i, c in enumerate(source + observable)) + when.toordinal()
    return [((seed + k) % 4, float((seed * 7 + 3 * k) % 11) - 5.0, 1.0 + (seed + k) % 3) for k in range(1 + seed % 2)]


def setup():
    cat.setup()
    toolchain.RECORD_JASMIN_TOOLCHAIN = False    # asks the package manager of the system it ran on


class Kept(netCDF4.Dataset):
    """Catalogue that stays open between its readers, which saves most of the time; build() drops it."""
    there = {}

    def close(self):
        pass

    def drop(self):
        super().close()

    @classmethod
    def open(cls, path, mode='r', **options):
        if mode != 'r':
            cls.clear()
            return netCDF4.Dataset(path, mode, **options)
        if path not in cls.there:
            cls.there[path] = cls(path, mode, **options)
        return cls.there[path]

    @classmethod
    def clear(cls):
        for path in list(cls.there):
            cls.there.pop(path).drop()


class SourceLoader(analysis.Loader):
    """Stands where the reader of raw binary files stands: takes the same arguments, and the observations from the names of the files."""
    log = []

    def __init__(self, local_correlation_ranges_filenames, time_index, observable_filenames, fixed_location_lookup_filename=None, mobile_location_lookup_filenames=None, name=None):
        when = analysis.EPOCH + datetime.timedelta(days=int(time_index))
        found = []
        sources = set()
        for observable, path in sorted(observable_filenames.items()):
            ranges = os.path.basename(local_correlation_ranges_filenames[observable])
            source = ranges[:ranges.index('_' + observable)]
            sources.add(source)
            require(ranges == '%s_%s_localcorrelationranges.bin' % (source, observable), lambda: 'correlation ranges %s given for %s' % (ranges, observable))
            if path is not None:
                require(os.path.basename(path) == '%s_%s_%s.bin' % (source, observable, when.strftime('%Y%m%d')) and os.path.exists(path),
                        lambda: 'observations of %s %s on %s read from %s' % (source, observable, when, path))
                if source == 'insitu_ocean':
                    mobile = mobile_location_lookup_filenames[observable]
                    require(mobile is not None and os.path.basename(mobile) == 'insitu_ocean_Tmean_mobilelocations_%s.bin' % when.strftime('%Y%m%d'),
                            lambda: 'places of %s read from %s' % (path, mobile))
                found.extend(records(source, observable, when))
            else:
                SourceLoader.log.append((source, observable, when))
        require(len(sources) == 1, lambda: 'one input takes observations of %s' % sorted(sources))
        if fixed_location_lookup_filename is not None:
            expected = 'locationlookup_insitu_land.bin' if sources == {'insitu_land'} else 'locationlookup_satellite.bin'
            require(os.path.basename(fixed_location_lookup_filename) == expected, lambda: 'places of %s read from %s' % (sources, fixed_location_lookup_filename))
        self.at = when
        self.source = min(sources)
        super().__init__(lambda t: found)

    def load_observation_structure(self, observable, time_index, log=None):
        require(analysis.EPOCH + datetime.timedelta(days=int(time_index)) == self.at, lambda: 'input of %s used for day %s' % (self.at, time_index))
        return super().load_observation_structure(observable, time_index, log)


class Patched(object):
    """Small elements for the real ones, SourceLoader for the reader of raw binary files, and recorders for the gridding."""
    def __enter__(self):
        self.grids = []
        self.calls = []
        parts = elements()
        made = lambda k: (lambda *args, **kwargs: ComponentStorage_InMemory(parts[k], analysis.Scale()))
        values = dict(ClimatologyDefinition=made(0), LargeScaleDefinition=made(1), LocalDefinition=made(2), AnalysisSystemInputLoaderRawBinary_OneDay=SourceLoader,
                      output_grid=self.grid(moving_climatology.output_grid), output_grid_batch=self.grid(moving_climatology.output_grid_batch))
        self.old = {name: getattr(moving_climatology, name) for name in values}
        self.opener = getattr(netcdfobjects, 'Dataset', None)
        netcdfobjects.Dataset = Kept.open
        for name, value in values.items():
            setattr(moving_climatology, name, value)
        return self

    def __exit__(self, *args):
        Kept.clear()
        netcdfobjects.Dataset = self.opener
        for name, value in self.old.items():
            setattr(moving_climatology, name, value)

    def grid(self, original):
        signature = inspect.signature(original)

        def recorder(**parameters):
            signature.bind(**parameters)    # as the call itself would
            batch = 'time_indices' in parameters
            system = moving_climatology.AnalysisSystem_EUSTACE(parameters['storage_climatology'], parameters['storage_large_scale'], parameters['storage_local'], parameters['covariates_descriptor'],
                                                               parameters['insitu_biases'], parameters['breakpoints_file'], parameters['global_biases'], parameters['global_biases_group_list'],
                                                               parameters['compute_uncertainties'], parameters['method'])
            days = parameters['time_indices'] if batch else [parameters['time_index']]
            outputs = [parameters[name + ('s' if batch else '')] for name in ('outputfile', 'climatologyfile', 'largescalefile', 'localfile')]
            if not batch:
                outputs = [[name] for name in outputs]
            require(all(len(o) == len(days) for o in outputs), lambda: 'days %s gridded into %s' % (days, outputs))
            for n, day in enumerate(days):
                states = []
                for component in system.components:
                    storage = component.solutionstorage
                    local = hasattr(storage, 'partial_state_read')
                    states.append([numpy.asarray(read(day) if local else read()) for read in (
                        (storage.partial_state_read, storage.partial_state_sample_read, storage.partial_state_prior_sample_read) if local else
                        (storage.state_read, storage.state_sample_read, storage.state_prior_sample_read))])
                self.grids.append((int(day), [o[n] for o in outputs], states, parameters))
        return recorder


def days_of(span):
    first, last = [datetime.datetime.strptime(s, '%Y%m%d') for s in span]
    return [first + datetime.timedelta(days=k) for k in range((last - first).days + 1)]


def write_inputs(root, span, absent):
    """Files of all sources from the day before to the day after, but absent ones; returns the path of the definition of the input data."""
    with open(os.path.join(TEMPLATES, 'advstd_inputs.json')) as f:
        definition = json.load(f)
    around = days_of(span)
    around = [around[0] - datetime.timedelta(days=1)] + around + [around[-1] + datetime.timedelta(days=1)]
    for dataset in definition['datasets']:
        dataset['path'] = os.path.join(root, 'in', dataset['name'])
        for subset in dataset['subsets']:
            patterns = subset['layout']['patterns']
            if '%d' in ''.join(patterns):
                parts = dataset['name'].split('_')
                source, observable = '_'.join(parts[1:3]), parts[3]
                for n, day in enumerate(around):
                    if (source, observable, day) not in absent:
                        touch(os.path.join(dataset['path'], cat.name_at(patterns, day)))
            else:
                touch(os.path.join(dataset['path'], *patterns))
    path = os.path.join(root, 'inputs.json')
    with open(path, 'w') as f:
        json.dump(definition, f)
    return path


SOURCES = [('insitu_land', 'Tmin'), ('insitu_land', 'Tmax'), ('insitu_ocean', 'Tmean'), ('surfaceairmodel_land', 'Tmin'), ('surfaceairmodel_land', 'Tmax'),
           ('surfaceairmodel_ocean', 'Tmean'), ('surfaceairmodel_ice', 'Tmin'), ('surfaceairmodel_ice', 'Tmean'), ('surfaceairmodel_ice', 'Tmax')]


def absences(span, kind):
    days = days_of(span)
    if kind == 'none':
        return []
    if kind == 'day':          # nothing at all on one day
        return [(s, o, days[len(days) // 2]) for s, o in SOURCES]
    if kind == 'source':       # one source has no data in the whole period
        return [(s, o, d) for s, o in SOURCES for d in days if s == 'insitu_ocean']
    if kind == 'half':         # one observable of one source missing on the first day
        return [('insitu_land', 'Tmin', days[0]), ('surfaceairmodel_ice', 'Tmax', days[-1])]
    raise ValueError(kind)


def reference(span, iterations, absent):
    """States of all components after each iteration, exactly."""
    parts = elements()
    days = days_of(span)
    index = [(d - analysis.EPOCH).days for d in days]
    observed = [[] for d in days]
    sources = []
    for s, o in SOURCES:
        if s not in sources:
            sources.append(s)
    for n, d in enumerate(days):
        for s in sources:
            r = [x for (source, o) in sorted(SOURCES) if source == s and (s, o, d) not in absent for x in records(s, o, d)]
            if r:
                observed[n].append((s, analysis.Obs(index[n], r)))
    state = [None, None, [None] * len(days)]
    history = []

    def value(k, n, structure):
        x = state[k][n] if k == 2 else state[k]
        return parts[k].dense(structure).dot(x) if x is not None else 0.0

    for i in range(iterations):
        for k in (0, 1):
            structures = [o for n in range(len(days)) for s, o in observed[n]]
            offsets = [sum(value(j, n, o) for j in range(3) if j != k) for n in range(len(days)) for s, o in observed[n]]
            state[k] = analysis.posterior(parts[k], 1.0, structures, offsets)[0]
        state[2] = [analysis.posterior(parts[2], 1.0, [o for s, o in observed[n]], [value(0, n, o) + value(1, n, o) for s, o in observed[n]])[0] for n in range(len(days))]
        history.append([state[0], state[1], list(state[2])])
    return history


def filler(kind, root, part, span, biases, names=NAMES, grid=True):
    options = dict(names, inpath=TEMPLATES, outpath=root, operation_template='advstd_operation_template.json', batch_operation_template='advstd_batch_operation_template.json',
                   output_grid_template='advstd_outputgrid_template.json', start_date=span[0], end_date=span[1], land_biases=biases[0], global_biases=biases[1])
    if kind == 'plain':
        return plain.FullstaceJsonFiller(n_iterations=part[1] + 1, **options)
    return ranged.FullstaceJsonFiller(first_iteration=part[0], last_iteration=part[1], grid_last_iteration=int(grid), **options)


def build(path, description, root, update):
    with quiet():
        Kept.clear()
        build_module.build_from_json_file(description, path, update=update, pathdefault=os.path.join(root, 'out'), allow_unversioned_code=True, nochecksum=True)


def run_all(path, names, root):
    """Run the named operations in turn; returns for each the files it left."""
    written = {}
    for name in names:
        count = CatalogueReaderNetCDF().operationcount(path, name, 1)
        require(count > 0, lambda: 'operation %s has nothing to do' % name)
        for index in range(count):
            before = listing(root)
            with silent():
                commandrun('STAMP', path, name, index, allow_toolchain_mismatch=True)
            after = listing(root)
            for f in after:
                if before.get(f) != after[f]:
                    require(f not in written, lambda: '%s written by %s and again by %s' % (f, written[f], (name, index)))
                    written[f] = (name, index)
            lost = [f for f in before if f not in after]
            require(not lost, lambda: 'operation %s removed %s' % (name, lost))
    return written


def listing(root):
    found = {}
    for folder, inner, files in os.walk(os.path.join(root, 'out')):
        for f in files:
            p = os.path.join(folder, f)
            found[p] = os.stat(p).st_mtime_ns
    return found


class Schedule(Harness):
    """Every way of splitting the iterations into successive definitions."""
    name = 'schedule'
    chunk = 1
    timeout = 600

    def cases(self, tier):
        deep = tier == 'thorough'
        spans = [('20070130', '20070202'), ('20071231', '20071231'), ('20080228', '20080301'), ('20071231', '20080101')]
        every = []
        longest = 4 if deep else 3
        for kind in ('plain', 'ranged'):
            for mode in ('batch', 'single'):
                for n in range(1, longest + 1):
                    cuts = [()] if kind == 'plain' else [c for r in range(n) for c in itertools.combinations(range(1, n), r)]
                    for cut in cuts:
                        for span in spans if n < 3 or deep else spans[:1]:
                            for absent in ('none', 'day', 'source', 'half') if (n == 2 and not cut) or deep else ('none', 'half')[:1 if n == 3 else 2]:
                                # a day without any observation has no local state, and cannot be gridded
                                if absent == 'day' and (span == spans[1] or kind == 'plain'):
                                    continue
                                every.append([kind, mode, n, list(cut), list(span), absent, [n % 2, 1 - n % 2]] + (['no grid'] if absent == 'day' else []))
        every.append(['ranged', 'batch', 2, [], list(spans[0]), 'none', [1, 1], 'no grid'])
        every.append(['ranged', 'single', 2, [1], list(spans[0]), 'none', [0, 0], 'no grid'])
        return every

    def setup(self):
        setup()

    def bounds(self, tier):
        return dict(iterations='1..%d' % (4 if tier == 'thorough' else 3), days='1..4 in 1..2 months', splits='all')

    def run(self, case, rec):
        kind, mode, n, cut, span, absent, biases = case[:7]
        with scratch() as root, Patched() as patched:
            missing = absences(span, absent)
            path = os.path.join(root, 'catalogue.nc')
            build(path, write_inputs(root, span, missing), root, False)
            parts = list(zip([0] + cut, [c - 1 for c in cut] + [n - 1]))
            del SourceLoader.log[:]
            written, seen = {}, []
            gridded = len(case) == 7
            for part in parts:
                grid = gridded and part[1] == n - 1
                with quiet():
                    f = filler(kind, root, part, span, biases, grid=grid)
                    description = 'part%d.json' % part[0]
                    try:
                        (f.create_batch_descriptor if mode == 'batch' else f.create_descriptor)(description)
                    except TypeError as e:
                        require(False, 'no definition made: %s' % e, 'ranged-daily-schedule' if (kind, mode) == ('ranged', 'single') and 'fill_output_gridding' in str(e) else None)
                    again = (f.fill_batch_descriptor if mode == 'batch' else f.fill_descriptor)()
                with open(os.path.join(root, description)) as handle:
                    made = json.load(handle)
                require(made == json.loads(json.dumps(again)), 'the file written is not the definition made')
                rec.state(('operations', kind, mode, part, grid, [o['name'] for o in made['operations']]))
                self.settings(made, biases, span)
                build(path, os.path.join(root, description), root, True)
                with quiet():
                    order = [o.name for o in CatalogueReaderNetCDF().load(path).operations]
                require(order[:len(seen)] == seen and sorted(order[len(seen):]) == sorted(o['name'] for o in made['operations']),
                        lambda: 'operations of the catalogue become %s, before %s' % (order, seen))
                # in the order they are defined
                new = run_all(path, [o['name'] for o in made['operations']], root)
                for name, who in new.items():
                    require(name not in written, lambda: '%s written by %s and again by %s' % (name, written[name], who))
                written.update(new)
                seen = order
                rec.step(len(new))
            absent_uses = set(SourceLoader.log)
            require(absent_uses == set(missing), lambda: 'observations of %s not used, absent ones are %s' % (sorted(absent_uses), sorted(missing)))
            self.results(root, path, written, patched, n, span, missing, gridded, mode, rec)
        rec.outcome('%s %s %d' % (kind, mode, n))

    def settings(self, made, biases, span):
        for o in made['operations']:
            m = o['runmodule']
            require([m['insitu_biases'], m['global_biases']] == biases, lambda: 'operation %s has biases %s, asked for %s' % (o['name'], [m['insitu_biases'], m['global_biases']], biases))
            if 'start' in o['step']:
                require([o['step']['start'][:8], o['step']['end'][:8]] == list(span), lambda: 'operation %s covers %s, asked for %s' % (o['name'], o['step'], span))

    def results(self, root, path, written, patched, n, span, missing, gridded, mode, rec):
        days = days_of(span)
        history = reference(span, n, missing)
        with quiet():
            catalogue = CatalogueReaderNetCDF().load(path)
        declared = {}
        for dataset in catalogue.datasets:
            for subset in dataset.subsets:
                for match in subset.matches:
                    full = os.path.join(dataset.path, match.name)
                    if full.startswith(os.path.join(root, 'out')):
                        require(full not in declared, lambda: '%s is in data sets %s and %s' % (full, declared[full], dataset.name))
                        declared[full] = dataset.name
        products = {p for g in patched.grids for p in g[1]}
        empty = [d for d in days if all((s, o, d) in missing for s, o in SOURCES)]
        void = {f for f, name in declared.items() if name.startswith('local') and any(d.strftime('%Y%m%d') in os.path.basename(f) for d in empty)}
        require(set(declared) - void == set(written) | products, lambda: 'declared but not made: %s; made but not declared: %s' % (
            sorted(set(declared) - void - set(written) - products), sorted((set(written) | products) - (set(declared) - void))))
        # the states of all iterations, in the files named after them
        for i in range(n):
            for k, base in enumerate(('clim', 'large', 'local')):
                files = sorted(f for f in written if declared[f] == '%s_%d' % (base, i))
                there = [m for m in range(len(days)) if days[m] not in empty] if k == 2 else [0]
                require(len(files) == len(there), lambda: 'states of component %d, iteration %d are in %s' % (k, i, files))
                for m, f in zip(there, files):
                    with open(f, 'rb') as handle:
                        state = moving_pickle(handle)
                    want = history[i][k][m] if k == 2 else history[i][k]
                    require(analysis.close(state, want, 1e-6), lambda: 'component %d, iteration %d%s: state %s, exactly %s' % (k, i, ' day %d' % m if k == 2 else '', analysis.dense(state).ravel(), want))
                    rec.state(('state', i, k, m))
        if not gridded:
            require(not patched.grids, 'gridding was not asked for')
            return
        require(sorted(g[0] for g in patched.grids) == [(d - analysis.EPOCH).days for d in days], lambda: 'gridded days %s of %s' % ([g[0] for g in patched.grids], days))
        for day, outputs, states, parameters in patched.grids:
            m = day - (days[0] - analysis.EPOCH).days
            require(len(set(outputs)) == 4 and all(days[m].strftime('%Y%m%d') in os.path.basename(o) for o in outputs), lambda: 'day %s gridded into %s' % (days[m], outputs))
            for k in range(3):
                want = history[n - 1][k][m] if k == 2 else history[n - 1][k]
                state, sample, prior = states[k]
                require(analysis.close(state, want, 1e-6), lambda: 'component %d gridded on %s from state %s, exactly %s' % (k, days[m], state.ravel(), want))
                for s in (sample, prior):
                    require(s.ndim == 2 and s.shape[0] == len(want) and s.shape[1] >= parameters['sample_size'] > 0, lambda: 'component %d gridded from sample of shape %s, to give %s' % (k, s.shape, parameters['sample_size']))
                require(not numpy.array_equal(sample, prior), lambda: 'component %d: prior sample is the posterior one' % k)
        require(len(products) == 4 * len(days), lambda: 'products share files: %s' % sorted(products))


def moving_pickle(handle):
    import pickle
    return pickle.load(handle)


class Commands(Harness):
    """The commands with their own names, and the diagnostics of a finished analysis."""
    name = 'commands'
    chunk = 1
    timeout = 600

    def cases(self, tier):
        return [['defaults', n] for n in (1, 2)] + [['named', n] for n in (1, 2)] + [['diagnostics', n] for n in (1, 2, 3)] + [['scripts', 0]]

    def setup(self):
        setup()

    def bounds(self, tier):
        return dict(iterations='1..3')

    def run(self, case, rec):
        kind, n = case
        span = ('20070131', '20070201')
        with scratch() as root, Patched() as patched:
            if kind == 'scripts':
                return self.scripts(root, rec)
            path = os.path.join(root, 'catalogue.nc')
            build(path, write_inputs(root, span, []), root, False)
            options = [] if kind == 'defaults' else sum([['--output_%s_name' % k, 'product_' + k] for k in ('climatology', 'large_scale', 'local')], [])
            self.call(generate_json_descriptors.main, ['x', TEMPLATES, root, '0', str(n - 1), '1', span[0], span[1], 'analysis.json'] + options)
            with open(os.path.join(root, 'analysis.json')) as f:
                definition = json.load(f)['operations']
            operations = [o['name'] for o in definition]
            new = [d['name'] for o in definition for d in o['newdatasets']]
            twice = sorted(d for d in set(new) if new.count(d) > 1)
            require(not twice, lambda: 'data sets %s defined more than once' % twice, 'default-product-names' if kind == 'defaults' and [t.rsplit('_', 1)[0] for t in twice] == ['eustace_infilled'] else None)
            build(path, os.path.join(root, 'analysis.json'), root, True)
            run_all(path, operations, root)
            require(len(patched.grids) == 2 and len({p for g in patched.grids for p in g[1]}) == 8, lambda: 'products: %s' % [g[1] for g in patched.grids])
            rec.step(len(operations))
            if kind == 'diagnostics':
                self.call(generate_diagnostic_descriptors.main, ['x', TEMPLATES, root, str(n), span[0], span[1], 'diagnostics.json'] + options)
                with open(os.path.join(root, 'diagnostics.json')) as f:
                    operations = [o['name'] for o in json.load(f)['operations']]
                build(path, os.path.join(root, 'diagnostics.json'), root, True)
                calls = []
                original = station_bias_model.extract_station_biases
                signature = inspect.signature(original)

                def recorder(**parameters):
                    signature.bind(**parameters)
                    calls.append((parameters['outputfile'], numpy.asarray(parameters['storage_large_scale'].state_read()), int(parameters['first_year']), int(parameters['last_year'])))
                station_bias_model.extract_station_biases = recorder
                try:
                    run_all(path, operations, root)
                finally:
                    station_bias_model.extract_station_biases = original
                history = reference(span, n, [])
                require(len(calls) == n and len({c[0] for c in calls}) == n, lambda: 'diagnostics of %d iterations: %s' % (n, [c[0] for c in calls]))
                for i, (out, state, first, last) in enumerate(calls):
                    require(analysis.close(state, history[i][1], 1e-6), lambda: 'diagnostics %d read state %s, exactly %s' % (i, state.ravel(), history[i][1]))
                    require([first, last] == [2007, 2007], lambda: 'diagnostics cover years %s to %s' % (first, last))
                rec.step(n)
        rec.outcome('%s %d' % (kind, n))

    def call(self, main, arguments):
        old = sys.argv
        sys.argv = arguments
        try:
            with quiet():
                main()
        finally:
            sys.argv = old

    def scripts(self, root, rec):
        """The scripts for the whole period: names used by the diagnostics are those the analysis makes."""
        import shlex
        folder = os.path.dirname(TEMPLATES)
        made = {}
        for script, main in (('build_descriptors.sh', generate_json_descriptors.main), ('build_diagnostic_descriptors.sh', generate_diagnostic_descriptors.main)):
            arguments = script_arguments(os.path.join(folder, script), root)
            self.call(main, ['x'] + arguments)
        before = {}
        with open(os.path.join(TEMPLATES, 'advstd_inputs.json')) as f:
            known = {d['name'] for d in json.load(f)['datasets']}
        for name in ('advstd_iterations.json', 'advstd_diagnostics.json'):
            with open(os.path.join(root, name)) as f:
                for o in json.load(f)['operations']:
                    new = {d['name'] for d in o['newdatasets']}
                    require(not new & known, lambda: 'operation %s makes %s again' % (o['name'], new & known))
                    used = names_in(o['runmodule'])
                    require(used <= known | new, lambda: '%s: operation %s uses %s which nothing makes' % (name, o['name'], sorted(used - known - new)))
                    known |= new
                    rec.step()
        rec.outcome('scripts')


def names_in(tree):
    if isinstance(tree, dict):
        found = {tree['datasetname']} if 'datasetname' in tree else set()
        return found.union(*[names_in(v) for v in tree.values()])
    if isinstance(tree, list):
        return set().union(*[names_in(v) for v in tree]) if tree else set()
    return set()


def script_arguments(script, root):
    """Arguments the script gives to its command: found by running it with a stand-in for the interpreter."""
    import subprocess
    stand = os.path.join(root, 'bin')
    if not os.path.isdir(stand):
        os.makedirs(stand)
    with open(os.path.join(stand, 'python'), 'w') as f:
        f.write('#!/bin/bash\nprintf "%s\\n" "$@" > "$ARGUMENTS"\n')
    os.chmod(os.path.join(stand, 'python'), 0o755)
    log = os.path.join(root, 'arguments')
    environment = dict(os.environ, PATH=stand + ':' + os.environ['PATH'], ARGUMENTS=log)
    environment.pop('LD_PRELOAD', None)
    subprocess.check_call(['bash', script, root], env=environment, stdout=subprocess.DEVNULL)
    with open(log) as f:
        arguments = f.read().splitlines()
    require(arguments[0] == '-m', lambda: '%s calls %s' % (script, arguments))
    return arguments[2:]


HARNESSES = [Schedule(), Commands()]
