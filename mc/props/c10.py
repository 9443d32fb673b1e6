"""C10: the analysis posterior does not depend on order or splitting of observations."""
import contextlib
import io
import itertools
import os
import pickle

import numpy

from mc import analysis
from mc.analysis import LinearElement, Loader, Obs, Scale, close
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.components.storage_files import SpaceTimeComponentSolutionStorage_Files, SpatialComponentSolutionStorage_Files, DelayedSpatialComponentSolutionStorage_Files, DelayedSpatialComponentSolutionStorageFlexible_Files
from eustace.analysis.advanced_standard.components.storage_files_batch import SpatialComponentSolutionStorageIndexed_Files, SpaceTimeComponentSolutionStorageBatched_Files

N = 3
DAY0 = 60000

# what the sources deliver: version -> one list of (location, value, precision) per source
VERSIONS = {
    'A': [[(0, 1.0, 2.0), (2, -3.0, 1.0)], [(1, 0.5, 4.0)]],
    'B': [[], [(1, 2.5, 1.0), (3, 1.5, 0.5), (0, -1.0, 1.0)]],
    'Z': [[], []],
    'C': [[(2, 4.0, 1.5)], []],
}


def value_of(version, day):
    return [[(loc, value + 0.25 * day, precision) for loc, value, precision in source] for source in VERSIONS[version]]


def loaders(contents):
    """contents: {time_index: version}; two sources."""
    return [Loader(lambda t, s=s: value_of(contents[t], t - DAY0)[s]) for s in range(2)]


def structures(version, day):
    return [Obs(DAY0 + day, records) for records in value_of(version, day)]


def unit_noise(n):
    """White noise of exactly n unit vectors, so that the sample covariance is exact."""
    return analysis.white_noise(lambda shape: numpy.eye(n) if shape == (n, n) else None)


def system(component):
    return AnalysisSystem([component], 'o', log=io.StringIO())


def check_state(element, read, days, message):
    """days: {day: version}. read: dict of state, std, sample."""
    want, A = analysis.posterior(element, 1.0, [s for d, v in sorted(days.items()) for s in structures(v, d)])
    require(read['state'] is not None, message + ': no state was stored')
    require(close(read['state'], want), lambda: '%s: state %s, exact posterior %s' % (message, analysis.dense(read['state']).ravel(), want))
    inverse = numpy.linalg.inv(A)
    if 'std' in read:
        require(read['std'] is not None and close(read['std'], numpy.sqrt(numpy.diag(inverse))), lambda: '%s: marginal deviation %s, exact %s' % (message, read['std'], numpy.sqrt(numpy.diag(inverse))))
    if 'sample' in read:
        S = analysis.dense(read['sample']) if read['sample'] is not None else None
        require(S is not None and S.shape == (N, N) and close(S.dot(S.T), inverse), lambda: '%s: samples %s do not have the posterior covariance' % (message, S))


def check_merged(element, merged, days, message):
    if not days:
        return
    P, b = analysis.information(element, [s for d, v in sorted(days.items()) for s in structures(v, d)])
    require(merged is not None and close(merged.information_precision, P) and close(merged.information_vector, b), lambda: '%s: merged measurement differs from the sum' % message)


class SpaceTimeMemory(Harness):
    """Every sequence of taking in a day (in any version of its data), solving and merging."""
    name = 'spacetime-memory'
    chunk = 32

    def bounds(self, tier):
        return 'all sequences up to length %d over {day 0-1 x 3 versions of the data (two sources; one source; none), solve, merge}' % (4 if tier == 'quick' else 5)

    def cases(self, tier):
        actions = [[d, v] for d in (0, 1) for v in 'ABZ'] + ['solve', 'merge']
        for length in range(1, 5 if tier == 'quick' else 6):
            for sequence in itertools.product(actions, repeat=length - 1):
                yield dict(sequence=[*sequence, 'solve'])

    def run(self, case, rec):
        element = LinearElement(N, 1)
        storage = SpaceTimeComponentSolutionStorage_InMemory()
        component = SpaceTimeComponent(ComponentStorage_InMemory(element, Scale()), storage, compute_uncertainties=True, compute_sample=True, sample_size=N)
        s = system(component)
        days = {}
        with quiet(), unit_noise(N):
            for action in case['sequence']:
                rec.step()
                if action == 'solve':
                    s.update_component_solution(0)
                    check_state(element, dict(state=storage.state_read(), std=storage.state_marginal_std_read(), sample=storage.state_sample_read()), days, 'after %s' % days)
                elif action == 'merge':
                    check_merged(element, component.component_solution().merge_updates(), days, 'after %s' % days)
                else:
                    d, v = action
                    days[d] = v
                    s.update_component_time(loaders({DAY0 + d: v}), 0, DAY0 + d)
                rec.state(('days', sorted(days.items())))
        rec.outcome(tuple(sorted(days.items())))


def ordered_partitions(items):
    """All ordered lists of disjoint non-empty groups covering items, each group in every order."""
    items = list(items)
    for order in itertools.permutations(items):
        for cuts in itertools.product((0, 1), repeat=len(items) - 1):
            groups, current = [], [order[0]]
            for item, cut in zip(order[1:], cuts):
                if cut:
                    groups.append(current)
                    current = []
                current.append(item)
            groups.append(current)
            yield groups


class SpaceTimeFiles(Harness):
    """Days processed separately to files, in every order, some of them twice, and read back in every order; every step as a new process would do it."""
    name = 'spacetime-files'
    chunk = 8

    def bounds(self, tier):
        return 'all orders of processing and of reading %d days, every day in turn processed again with other data, every assignment of data versions' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        n = 2 if tier == 'quick' else 3
        for versions in itertools.product('ABZ', repeat=n):
            for order in itertools.permutations(range(n)):
                for read in itertools.permutations(range(n)):
                    for again in [None] + list(range(n)):
                        yield dict(versions=''.join(versions), order=list(order), read=list(read), again=again)

    def run(self, case, rec):
        element = LinearElement(N, 2)
        definition = ComponentStorage_InMemory(element, Scale())
        days = dict(enumerate(case['versions']))
        with scratch() as root, quiet(), unit_noise(N):
            name = lambda kind, k: os.path.join(root, kind, '%s.pickle' % k)
            work = [(d, days[d]) for d in case['order']]
            if case['again'] is not None:
                work = [(case['again'], 'C')] + work
            for d, v in work:
                rec.step()
                storage = SpaceTimeComponentSolutionStorage_Files(measurement_time_index_write=DAY0 + d, measurementfilename_write=name('m', d))
                system(SpaceTimeComponent(definition, storage)).update_component_time(loaders({DAY0 + d: v}), 0, DAY0 + d)
            storage = SpaceTimeComponentSolutionStorage_Files(measurementfilelist_read=[name('m', d) for d in case['read']], statefilename_write=name('s', 0), marginal_std_filename_write=name('u', 0), sample_filename_write=name('x', 0))
            component = SpaceTimeComponent(definition, storage, compute_uncertainties=True, compute_sample=True, sample_size=N)
            check_merged(element, component.component_solution().merge_updates(), days, 'files %s' % days)
            system(component).update_component_solution(0)
            reader = SpaceTimeComponentSolutionStorage_Files(statefilename_read=name('s', 0), marginal_std_filename_read=name('u', 0), sample_filename_read=name('x', 0))
            check_state(element, dict(state=reader.state_read(), std=reader.state_marginal_std_read(), sample=reader.state_sample_read()), days, 'files %s' % days)
        rec.outcome(case['versions'])


class Batches(Harness):
    """Days taken in as batches: every ordered partition of the days into batches, batch files read in every order, or merged in groups first."""
    name = 'batches'
    chunk = 8

    def bounds(self, tier):
        return 'all ordered partitions of up to %d days into batches (every order inside a batch) x data versions x solving from batch files or from merged files' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            versions = [''.join(v) for v in itertools.product('ABZ', repeat=n)] if n < 3 else ['ABC', 'AZB', 'BAA', 'ZZC'] if n == 3 else ['ABCZ']
            for v in versions:
                for groups in ordered_partitions(range(n)):
                    for merge in (False, True):
                        yield dict(versions=v, groups=groups, merge=merge)

    def run(self, case, rec):
        element = LinearElement(N, 1)
        definition = ComponentStorage_InMemory(element, Scale())
        days = dict(enumerate(case['versions']))
        with scratch() as root, quiet():
            files = []
            for k, group in enumerate(case['groups']):
                rec.step()
                files.append(os.path.join(root, 'batch%d' % k, 'm.pickle'))
                storage = SpaceTimeComponentSolutionStorageBatched_Files(measurementfilename_write=files[-1])
                contents = {DAY0 + d: days[d] for d in group}
                system(SpaceTimeComponent(definition, storage)).update_component_times([loaders(contents) for d in group], 0, [DAY0 + d for d in group])
            if case['merge']:
                merged = []
                half = (len(files) + 1) // 2
                for k, part in enumerate((files[:half], files[half:])):
                    if part:
                        rec.step()
                        storage = SpaceTimeComponentSolutionStorage_Files(measurementfilelist_read=part)
                        result = SpaceTimeComponent(definition, storage).component_solution().merge_updates()
                        merged.append(os.path.join(root, 'merged%d' % k))
                        with open(merged[-1], 'wb') as f:
                            pickle.dump(result, f)
                files = merged
            state = os.path.join(root, 'state')
            storage = SpaceTimeComponentSolutionStorage_Files(measurementfilelist_read=files[::-1], statefilename_write=state)
            system(SpaceTimeComponent(definition, storage)).update_component_solution(0)
            for keep in (False, True):
                reader = SpaceTimeComponentSolutionStorageBatched_Files(statefilename_read=state, keep_in_memory=keep)
                for again in range(2):
                    check_state(element, dict(state=reader.state_read()), days, 'batches %s of %s' % (case['groups'], days))
        rec.outcome((case['versions'], len(case['groups'])))


class Spatial(Harness):
    """Components with one state per day: every sequence of days, for each storage."""
    name = 'spatial'
    chunk = 16

    def bounds(self, tier):
        return 'all sequences up to length %d over day 0-2 x 2 versions (and first visits without data), in memory, in files and in indexed files' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        actions = [[d, v] for d in (0, 1, 2) for v in 'AB'] + [[1, 'Z']]
        for store in ('memory', 'files', 'indexed', 'indexed-batch'):
            for length in range(1, 4 if tier == 'quick' else 5):
                for sequence in itertools.product(actions, repeat=length):
                    sequence = [list(a) for a in sequence]
                    # a day without observations is left without a state: not revisited
                    if [1, 'Z'] in sequence and sum(a[0] == 1 for a in sequence) > 1:
                        continue
                    if store == 'indexed-batch' and len(set(a[0] for a in sequence)) < len(sequence):
                        continue
                    yield dict(store=store, sequence=sequence)

    def run(self, case, rec):
        element = LinearElement(N, 2)
        definition = ComponentStorage_InMemory(element, Scale())
        days = {}
        times = [DAY0 + d for d in (0, 1, 2)]
        with scratch() as root, quiet(), unit_noise(N):
            name = lambda kind, t: os.path.join(root, kind, '%d.pickle' % t)
            lists = {k: [name(k, t) for t in times] for k in 'sux'}
            options = dict(compute_uncertainties=True, compute_sample=True, sample_size=N)
            memory = SpatialComponentSolutionStorage_InMemory()

            def storage(t):
                if case['store'] == 'memory':
                    return memory
                if case['store'] == 'files':
                    return SpatialComponentSolutionStorage_Files(time_index=t, statefilename_write=name('s', t), marginal_std_filename_write=name('u', t), sample_filename_write=name('x', t))
                return SpatialComponentSolutionStorageIndexed_Files(statefilelist_write=lists['s'], marginal_std_filelist_write=lists['u'], sample_filelist_write=lists['x'], time_list=times)
            if case['store'] == 'indexed-batch':
                contents = {DAY0 + d: v for d, v in case['sequence']}
                days = {d: v for d, v in case['sequence']}
                order = [DAY0 + d for d, v in case['sequence']]
                system(SpatialComponent(definition, storage(None), **options)).update_component_times([loaders(contents) for t in order], 0, order)
                rec.step(len(order))
            else:
                for d, v in case['sequence']:
                    rec.step()
                    t = DAY0 + d
                    system(SpatialComponent(definition, storage(t), **options)).update_component_time(loaders({t: v}), 0, t)
                    days[d] = v
            for d in (0, 1, 2):
                t = DAY0 + d
                if case['store'] == 'memory':
                    reader = memory
                elif case['store'] == 'files':
                    reader = SpatialComponentSolutionStorage_Files(time_index=t, statefilename_read=name('s', t), marginal_std_filename_read=name('u', t), sample_filename_read=name('x', t))
                else:
                    reader = SpatialComponentSolutionStorageIndexed_Files(statefilelist_read=lists['s'], marginal_std_filelist_read=lists['u'], sample_filelist_read=lists['x'], time_list=times)
                if days.get(d, 'Z') == 'Z':
                    if case['store'] == 'memory':
                        require(reader.partial_state_read(t) is None, 'a day without observations was given a state')
                    else:
                        require(not os.path.exists(name('s', t)), 'a day without observations was given a state')
                    continue
                check_state(element, dict(state=reader.partial_state_read(t), std=reader.partial_state_marginal_std_read(t), sample=reader.partial_state_sample_read(t)), {d: days[d]}, 'day %d after %s' % (d, case['sequence']))
            rec.outcome(tuple(sorted(days.items())))


class Nonlinear(Harness):
    """Nonlinear elements: every day is linearised at the state of the moment it was taken in, and a solve moves that state."""
    name = 'nonlinear'
    chunk = 16

    def bounds(self, tier):
        return 'all sequences up to length %d over {day 0-1 x 3 versions of the data, solve} for a space-time and for a delayed spatial component with a quadratic element' % (4 if tier == 'quick' else 5)

    def cases(self, tier):
        actions = [[d, v] for d in (0, 1) for v in 'ABZ'] + ['solve']
        for kind in ('spacetime', 'delayed'):
            for length in range(1, 5 if tier == 'quick' else 6):
                for sequence in itertools.product(actions, repeat=length - 1):
                    # the first thing taken in has observations, so that there is a state to linearise at
                    if kind == 'spacetime' and (not sequence or sequence[0] == 'solve' or sequence[0][1] == 'Z'):
                        continue
                    seen, bad = set(), False
                    for a in sequence:
                        if a != 'solve':
                            bad = bad or (kind == 'delayed' and a[1] == 'Z' and a[0] not in seen)
                            seen.add(a[0])
                    if not bad:
                        yield dict(kind=kind, sequence=[*sequence, 'solve'])

    def run(self, case, rec):
        element = analysis.NonlinearElement(N, 1)
        definition = ComponentStorage_InMemory(element, Scale())
        if case['kind'] == 'spacetime':
            storage = SpaceTimeComponentSolutionStorage_InMemory()
            component = SpaceTimeComponent(definition, storage)
            slot = lambda d: 0
            read = lambda d: storage.state_read()
        else:
            storage = SpatialComponentSolutionStorage_InMemory()
            component = DelayedSpatialComponent(definition, storage)
            slot = lambda d: d
            read = lambda d: storage.partial_state_read(DAY0 + d)
        s = system(component)
        states, days = {}, {}
        with quiet():
            for action in case['sequence']:
                rec.step()
                if action == 'solve':
                    for k in sorted(set(map(slot, days))):
                        P, b = element.dense_prior(1.0), numpy.zeros(N)
                        for d in days:
                            if slot(d) == k:
                                P, b = P + days[d][0], b + days[d][1]
                        states[k] = states[k] + numpy.linalg.solve(P, b)
                    s.update_component_solution(0)
                else:
                    d, v = action
                    P, b = numpy.zeros((N, N)), numpy.zeros(N)
                    for o in structures(v, d):
                        if o.number_of_observations():
                            x = states.setdefault(slot(d), element.initial())
                            J, W = element.jacobian(o, x), o.dense_precision()
                            P, b = P + J.T.dot(W).dot(J), b + J.T.dot(W).dot(o.observation_vector() - element.evaluate(o, x))
                    days[d] = (P, b)
                    s.update_component_time(loaders({DAY0 + d: v}), 0, DAY0 + d)
                for d in days:
                    if slot(d) in states:
                        require(close(read(d), states[slot(d)]), lambda: '%s: state %s, expected %s' % (case['sequence'], read(d), states[slot(d)]))
                rec.state((case['kind'], [tuple(numpy.round(x, 6)) for k, x in sorted(states.items())]))
        rec.outcome(tuple(tuple(numpy.round(x, 6)) for k, x in sorted(states.items())))


class Delayed(Harness):
    """Spatial components whose days are taken in first and solved later."""
    name = 'delayed'
    chunk = 16

    def bounds(self, tier):
        return 'all sequences up to length %d over {day 0-1 x 3 versions, solve all}, in memory and with file dictionaries' % (4 if tier == 'quick' else 5)

    def cases(self, tier):
        actions = [[d, v] for d in (0, 1) for v in 'ABZ'] + ['solve']
        for store in ('memory', 'dictionary'):
            for length in range(1, 4 if tier == 'quick' else 5):
                for sequence in itertools.product(actions, repeat=length):
                    if store == 'dictionary' and set(a[0] for a in sequence if a != 'solve') != {0, 1}:
                        continue
                    yield dict(store=store, sequence=[*sequence, 'solve'])

    def run(self, case, rec):
        element = LinearElement(N, 1)
        definition = ComponentStorage_InMemory(element, Scale())
        days, solved = {}, None
        with scratch() as root, quiet(), unit_noise(N):
            if case['store'] == 'memory':
                storage = SpatialComponentSolutionStorage_InMemory()
            else:
                lookup = lambda kind: {DAY0 + d: os.path.join(root, kind, str(d)) for d in (0, 1)}
                storage = DelayedSpatialComponentSolutionStorage_Files(statefiledictionary_read={}, measurementfiledictionary_read=lookup('m'),
                    statefiledictionary_write=lookup('s'), marginal_std_filedictionary_write=lookup('u'), sample_filedictionary_write=lookup('x'), measurementfiledictionary_write=lookup('m'))
            component = DelayedSpatialComponent(definition, storage, compute_uncertainties=True, compute_sample=True, sample_size=N)
            s = system(component)
            for action in case['sequence']:
                rec.step()
                if action == 'solve':
                    if case['store'] == 'dictionary' and len(days) < 2:
                        continue
                    s.update_component_solution(0)
                    solved = dict(days)
                else:
                    d, v = action
                    days[d] = v
                    s.update_component_time(loaders({DAY0 + d: v}), 0, DAY0 + d)
            if case['store'] == 'dictionary':
                storage = DelayedSpatialComponentSolutionStorage_Files(statefiledictionary_read=lookup('s'), marginal_std_filedictionary_read=lookup('u'), sample_filedictionary_read=lookup('x'))
            for d in solved or {}:
                t = DAY0 + d
                check_state(element, dict(state=storage.partial_state_read(t), std=storage.partial_state_marginal_std_read(t), sample=storage.partial_state_sample_read(t)), {d: solved[d]}, 'day %d after %s' % (d, case['sequence']))
        rec.outcome(tuple(sorted(days.items())))


class OneSolution(Harness):
    """One solution object used for several days and several solves, given its observations directly."""
    name = 'one-solution'
    chunk = 32

    def bounds(self, tier):
        return 'all sequences up to length %d over {day 0-1 x 2 versions, solve} for the three kinds of component, one solution object throughout' % (4 if tier == 'quick' else 5)

    def cases(self, tier):
        actions = [[d, v] for d in (0, 1) for v in 'AC'] + ['solve']
        for kind in ('spacetime', 'spatial', 'delayed'):
            for length in range(1, 5 if tier == 'quick' else 6):
                for sequence in itertools.product(actions, repeat=length - 1):
                    if any(a != 'solve' for a in sequence):
                        yield dict(kind=kind, sequence=[*sequence, 'solve'])

    def run(self, case, rec):
        element = LinearElement(N, 1)
        definition = ComponentStorage_InMemory(element, Scale())
        options = dict(compute_uncertainties=True, compute_sample=True, sample_size=N)
        storage = (SpaceTimeComponentSolutionStorage_InMemory if case['kind'] == 'spacetime' else SpatialComponentSolutionStorage_InMemory)()
        component = dict(spacetime=SpaceTimeComponent, spatial=SpatialComponent, delayed=DelayedSpatialComponent)[case['kind']](definition, storage, **options)
        days = {}
        with quiet(), unit_noise(N):
            solution = component.component_solution()
            for action in case['sequence']:
                rec.step()
                if action == 'solve':
                    if days:
                        solution.update()
                else:
                    d, v = action
                    days[d] = v
                    for o in structures(v, d):
                        if o.number_of_observations():
                            solution.process_observations(o, numpy.zeros(o.number_of_observations()))
                    solution.update_time_step()
                if action == 'solve' and days and case['kind'] == 'spacetime':
                    check_state(element, dict(state=storage.state_read(), std=storage.state_marginal_std_read(), sample=storage.state_sample_read()), days, 'after %s' % case['sequence'])
                elif action == 'solve' or case['kind'] == 'spatial':
                    for d in days:
                        t = DAY0 + d
                        check_state(element, dict(state=storage.partial_state_read(t), std=storage.partial_state_marginal_std_read(t), sample=storage.partial_state_sample_read(t)), {d: days[d]}, 'day %d after %s' % (d, case['sequence']))
        rec.outcome((case['kind'], tuple(sorted(days.items()))))


HARNESSES = [SpaceTimeMemory(), SpaceTimeFiles(), Batches(), Spatial(), Delayed(), Nonlinear(), OneSolution()]
ASSUMPTIONS = ['linear model elements; a component with one state per day leaves a day without any observation without a state']
