"""C05: building or updating a catalogue is all-or-nothing."""
import itertools
import os

from mc import cat, faults, runmodules, toolchain as mctoolchain
from mc.core import Harness, require, Violation
from mc.env import scratch, quiet
from mc.props import c01
from mc.props.c04 import normal, difference

from eumopps.catalogue import build as build_module
from eumopps.catalogue import commandrun as commandrun_module
from eumopps.catalogue.fileio.formatjson import CatalogueWriterJSON
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eumopps.catalogue.multiplecommandsrun import multiple_commands_run
from eumopps.version import svn

DAYS = 2
XFILES = c01.names(c01.DAILY, range(DAYS))
# definitions that can be combined in one catalogue; 'b' needs what 'a' produces; 'bad' cannot be resolved, 'clash' adds to nothing
DEFINITIONS = {
    'a': dict(data={'x': [[c01.DAILY, XFILES]]}, ops=[
        dict(name='opa', step=['daily', 0, DAYS], inputs={'i': ['x', 0, 'file', 'allowed']}, out=['p', 0, ['p_%Y%m%d.bin'], 1])]),
    'b': dict(data={'y': [[['y_%Y%m%d.bin'], c01.names(['y_%Y%m%d.bin'], [0])]]}, ops=[
        dict(name='opb', step=['daily', 0, DAYS], inputs={'i': ['p', 0, 'file', 'not_allowed'], 'j': ['y', 0, 'file', 'allowed']}, out=None)]),
    'c': dict(data={'z': [[['z_%Y%m%d.bin'], []]]}, ops=[
        dict(name='opc', step=['daily', 0, DAYS + 1], inputs={'i': ['z', 0, 'file', 'skip']}, out=['q', 0, ['q_%Y%m%d.bin'], 1])]),
    'e': dict(data={}, ops=[
        dict(name='opa', step=['daily', 0, 1], inputs={}, out=['s', 0, ['s_%Y%m%d.bin'], 1]),
        dict(name=None, step=['daily', 0, 1], inputs={}, out=['t', 0, ['t_%Y%m%d.bin'], 1])]),
    'f': dict(data={'e1': [[['e1_%Y%m%d.bin'], []]]}, ops=[
        dict(name=None, step=['once'], inputs={}, out=['u', 0, ['u.bin'], 1])]),
    'bad': dict(data={'w': [[['w_%Y%m%d.bin'], c01.names(['w_%Y%m%d.bin'], [0])]]}, ops=[
        dict(name='opd', step=['daily', 0, DAYS], inputs={'i': ['w', 0, 'file', 'not_allowed']}, out=['r', 0, ['r_%Y%m%d.bin'], 1])]),
}
for d in DEFINITIONS.values():
    d['start'] = c01.START


def write_definitions(root, names):
    for name in names:
        cat.make_files(root, DEFINITIONS[name])
        with quiet():
            CatalogueWriterJSON().save(os.path.join(root, name + '.json'), cat.definition(root, DEFINITIONS[name]))


def command(root, name, *options):
    with quiet():
        build_module.main([os.path.join(root, name + '.json'), os.path.join(root, 'c.nc'), '--allow_unversioned_code', '--nochecksum'] + list(options))


def combined(names):
    data, ops = {}, []
    for n in names:
        data.update(DEFINITIONS[n]['data'])
        ops += DEFINITIONS[n]['ops']
    return dict(start=c01.START, data=data, ops=ops)


def content(path):
    """Everything in the catalogue except its identifier."""
    with quiet():
        loaded = CatalogueReaderNetCDF().load(path)
    identifier = loaded.identifier
    loaded.identifier = None
    return normal(loaded), identifier


def check_content(root, names, rec, runs=True):
    """The catalogue consists of exactly the data sets and operations of the definitions, in order, and runs as the model says."""
    path = os.path.join(root, 'c.nc')
    with quiet():
        loaded = CatalogueReaderNetCDF().load(path)
    system = combined(names)
    wanted = []
    for n in names:
        wanted += list(DEFINITIONS[n]['data'])
        wanted += [op['out'][0] for op in DEFINITIONS[n]['ops'] if op.get('out')]
    got = [d.name for d in loaded.datasets]
    require(sorted(got) == sorted(wanted), lambda: 'catalogue has data sets %s, expected %s' % (got, wanted))
    got = [o.name for o in loaded.operations]
    require(got == [op['name'] for op in system['ops']], lambda: 'catalogue has operations %s' % got)
    for name, subsets in system['data'].items():
        for k, (patterns, files) in enumerate(subsets):
            found = sorted(m.name for m in loaded.datasubset(name, k).matches)
            require(found == sorted(files), lambda: 'data set %s has entries %s, expected %s' % (name, found, sorted(files)))
    if runs:
        expected, outputs = cat.model(root, system)
        names = [op['name'] for op in system['ops']]
        for op, want in zip(system['ops'], expected):
            if op['name'] is None or names.count(op['name']) > 1:
                continue            # operations are run by name: an ambiguous name is refused
            with quiet():
                count = int(CatalogueReaderNetCDF().operationcount(path, op['name']))
            require(count == len(want), lambda: 'operation %s has count %d, expected %d' % (op['name'], count, len(want)))
            for index in range(count):
                rec.step()
                cat.compare_run(system, op, index, cat.run_operation(path, op, index), want[index])


class Crash(Harness):
    """Process death, torn writes, single I/O errors and full disk at every file-changing call of build, overwrite and update."""
    name = 'crash-points'
    chunk = 1
    STRIPES = 6
    SCENARIOS = dict(new=([], 'a', [], ['a']), overwrite=(['a'], 'c', ['--overwrite'], ['c']), update=(['a'], 'b', ['--update'], ['a', 'b']))

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'build, overwrite, update; every intercepted open/write/truncate/close/rename/unlink as death, torn write, one EIO, disk full from there on%s' % (
            ' (every third call of the long run of library writes)' if tier == 'quick' else '')

    def cases(self, tier):
        for scenario in sorted(self.SCENARIOS):
            for mode in ('kill', 'torn', 'fail', 'full'):
                for stripe in range(self.STRIPES):
                    yield dict(scenario=scenario, mode=mode, stripe=stripe, every=3 if tier == 'quick' else 1)

    def run(self, case, rec):
        before, name, options, after = self.SCENARIOS[case['scenario']]
        with scratch() as root:
            write_definitions(root, set(before + after))
            for n in before:
                command(root, n)
            old = faults.tree(root)
            path = os.path.join(root, 'c.nc')

            def reset():
                for f in set(faults.tree(root)) - set(old):
                    os.remove(os.path.join(root, f))
                if 'c.nc' in old:
                    with open(path, 'wb') as f:
                        f.write(old['c.nc'])

            status, calls, text = faults.in_child(lambda: command(root, name, *options), faults.COUNT, -1, root)
            require(status == 'done', lambda: 'without any fault: %s %s' % (status, text))
            complete, identifier = content(path)
            check_content(root, after, rec)
            # all calls next to the ends and those that are not plain writes, and every n-th of the rest
            points = [k for k in range(len(calls) + 1) if k < 12 or k > len(calls) - 12 or (k < len(calls) and calls[k] != 'write') or k % case['every'] == 0]
            for k in points[case['stripe']::self.STRIPES]:
                reset()
                rec.step()
                status, calls_, text = faults.in_child(lambda: command(root, name, *options), faults.MODES[case['mode']], k, root)
                where = '%s, %s at call %d of %d (%s)' % (case['scenario'], case['mode'], k, len(calls), calls[k] if k < len(calls) else 'end')
                now = None
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        now = f.read()
                unchanged = now == old.get('c.nc')
                require(status in ('done', 'raised', 'killed'), lambda: '%s: %s' % (where, status))
                if status == 'done' or not unchanged:
                    require(status != 'raised', lambda: '%s: the build failed (%s) but the catalogue is %s' % (where, text, 'gone' if now is None else 'not the earlier one'))
                    try:
                        got = content(path)[0]
                    except Exception as error:
                        raise Violation('%s: the catalogue left behind cannot be loaded: %r' % (where, error))
                    require(got == complete, lambda: '%s: incomplete catalogue: %s' % (where, difference(complete, got)))
                others = faults.tree(root)
                require(all(others.get(f) == data for f, data in old.items() if f != 'c.nc'), lambda: '%s: other files were changed' % where)
                rec.state((case['scenario'], status, unchanged, k))
                rec.outcome((case['scenario'], case['mode'], status, unchanged))
                if unchanged:
                    # trying again afterwards works
                    rec.step()
                    try:
                        command(root, name, *options)
                    except Exception as error:
                        raise Violation('%s: the next attempt failed: %r' % (where, error))
                    require(content(path)[0] == complete, lambda: '%s: the next attempt made an incomplete catalogue' % where)


class Histories(Harness):
    """Every sequence of build/overwrite/update commands up to a length, with good, dependent and unresolvable definitions."""
    name = 'histories'
    chunk = 4

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'all command sequences up to length %d over {build, overwrite, update} x 6 definitions' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        commands = [[o, n] for o in ('build', 'overwrite', 'update') for n in ('a', 'b', 'c', 'e', 'f', 'bad')]
        for length in range(1, 3 if tier == 'quick' else 4):
            for sequence in itertools.product(commands, repeat=length):
                yield dict(sequence=[list(c) for c in sequence])
        if tier == 'quick':
            for x, y, z in itertools.permutations(('a', 'b', 'c', 'e'), 3):
                yield dict(sequence=[['build', x], ['update', y], ['update', z]])

    def run(self, case, rec):
        present = None
        with scratch() as root:
            write_definitions(root, sorted(DEFINITIONS))
            path = os.path.join(root, 'c.nc')
            seen = set()
            for option, name in case['sequence']:
                rec.step()
                base = present if option == 'update' else []
                allowed = (option == 'overwrite') or (option == 'build' and present is None) or (option == 'update' and present is not None)
                if base is not None and name in base:
                    return          # the same definition twice in one catalogue: not a meaningful use
                target = (base or []) + [name]
                try:
                    cat.model(root, combined(target))
                except cat.Refused:
                    allowed = False
                before = None
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        before = f.read()
                try:
                    command(root, name, *{'build': [], 'overwrite': ['--overwrite'], 'update': ['--update']}[option])
                    done = True
                except Exception as error:
                    done, failure = False, error
                require(done or not allowed, lambda: '%s %s after %s failed: %r' % (option, name, present, failure))
                require(allowed or not done, lambda: '%s %s after %s was not refused' % (option, name, present))
                if done:
                    present = target
                    check_content(root, present, rec)
                    with quiet():
                        loaded = CatalogueReaderNetCDF().load(path)
                    parts = [[(d.name, normal(d)) for d in loaded.datasets], [(o.name, normal(o)) for o in loaded.operations]]
                    if option == 'update':
                        for then, now in zip(earlier, parts):
                            for item in then:
                                require(then.count(item) == now.count(item), lambda: 'updating with %s changed or removed %s' % (name, item[0]))
                    earlier = parts
                    identifier = content(path)[1]
                    require(identifier not in seen, 'catalogue identifier was used before')
                    seen.add(identifier)
                else:
                    now = None
                    if os.path.exists(path):
                        with open(path, 'rb') as f:
                            now = f.read()
                    require(now == before, lambda: 'refused %s %s changed the catalogue' % (option, name))
                rec.state(('catalogue', present, option, name, done))
                rec.outcome((tuple(present or ()), done))


class Filter(Harness):
    """Builds restricted to one data set."""
    name = 'filter'

    def setup(self):
        cat.setup()

    def cases(self, tier):
        for filter in ('x', 'y', 'missing', None):
            yield dict(filter=filter)

    def run(self, case, rec):
        system = dict(start=c01.START, data={'x': [[c01.DAILY, XFILES]], 'y': [[['y_%Y%m%d.bin'], ['y_20040101.bin']]]}, ops=[
            dict(name='op', step=['once'], inputs={}, out=None)])
        with scratch() as root:
            cat.make_files(root, system)
            path = os.path.join(root, 'c.nc')
            rec.step()
            try:
                cat.build(root, system, path, dataset_filter=case['filter'])
                done = True
            except ValueError:
                done = False
            require(done == (case['filter'] != 'missing'), lambda: 'filter %s: %s' % (case['filter'], done))
            if done:
                with quiet():
                    loaded = CatalogueReaderNetCDF().load(path)
                got = {d.name: sorted(m.name for m in d.subsets[0].matches) for d in loaded.datasets}
                want = {k: sorted(v[0][1]) for k, v in system['data'].items() if case['filter'] in (None, k)}
                require(got == want, lambda: 'filter %s gave %s' % (case['filter'], got))
            rec.outcome((case['filter'], done))


class Versions(Harness):
    """Every combination of software versions at build and run time x permission to ignore them."""
    name = 'versions'
    REVISIONS = ['7', '8', '7:8M', '7M']

    def bounds(self, tier):
        return 'system revision (clean, other, mixed, modified) x processing versions at build and at run x allow options x single/multiple run'

    def setup(self):
        cat.setup()

    def cases(self, tier):
        for built, run in itertools.product(self.REVISIONS, repeat=2):
            for vb, vr in itertools.product((['mc-1'], ['mc-2'], ['mc-1', 'lib-3']), repeat=2):
                for allow in (False, True):
                    for multiple in (False, True):
                        yield dict(built=built, run=run, vb=vb, vr=vr, allow=allow, multiple=multiple)

    def run(self, case, rec):
        clean = lambda r: r.isdigit()
        try:
            system = dict(start=c01.START, data={'x': [[c01.DAILY, XFILES]]}, ops=[dict(name='op', step=['daily', 0, DAYS], inputs={'i': ['x', 0, 'file', 'allowed']}, out=None)])
            with scratch() as root:
                cat.make_files(root, system)
                path = os.path.join(root, 'c.nc')
                svn.set_allow_unversioned_code(case['allow'])
                svn.get_revision_string = lambda *a, **k: case['built']
                mctoolchain.VERSIONS = list(case['vb'])
                rec.step()
                try:
                    cat.build(root, system, path)
                    done = True
                except svn.RepositoryStateException:
                    done = False
                require(done == (clean(case['built']) or case['allow']), lambda: 'build with software revision %s %s' % (case['built'], 'was not refused' if done else 'was refused'))
                if not done:
                    require(not os.path.exists(path), 'a refused build left a catalogue behind')
                    rec.outcome('build refused')
                    return
                svn.get_revision_string = lambda *a, **k: case['run']
                mctoolchain.VERSIONS = list(case['vr'])
                name = lambda r: r if clean(r) else 'unversioned'
                same = name(case['built']) == name(case['run']) and case['vb'] == case['vr']
                allowed = (clean(case['run']) or case['allow']) and (same or case['allow'])
                del runmodules.LOG[:], runmodules.OUTER[:]
                rec.step()
                try:
                    with quiet():
                        if case['multiple']:
                            multiple_commands_run('STAMP', path, 'mc.runmodules.outer', 'op', DAYS, 0, case['allow'])
                        else:
                            commandrun_module.commandrun('STAMP', path, 'op', 0, allow_toolchain_mismatch=case['allow'])
                    ran = True
                except (ValueError, svn.RepositoryStateException):
                    ran = False
                require(ran == allowed, lambda: 'built with %s %s, run with %s %s, allow=%s: %s' % (
                    case['built'], case['vb'], case['run'], case['vr'], case['allow'], 'ran' if ran else 'refused'))
                require(bool(runmodules.LOG) == ran, 'operation log does not agree with the result')
                rec.outcome((same, ran, case['allow']))
        finally:
            cat.setup()
            mctoolchain.VERSIONS = ['mc-1']


HARNESSES = [Crash(), Histories(), Filter(), Versions()]
LEVEL = 'model_checking'
ASSUMPTIONS = ['process death loses no completed system call (no power loss)', 'one fault per execution (or a disk that stays full)']
