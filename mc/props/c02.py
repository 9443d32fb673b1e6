"""C02: outputs are unique, named for their step and visible to later operations."""
import itertools

from mc import cat
from mc.core import Harness
from mc.env import scratch
from mc.props.c01 import DAILY, FLAT, START, names, subsets

OUT = ['out/%Y/', 'o_%Y%m%d.bin']
OUT2 = ['q_%Y%m%d.bin']
OUTM = ['month_%Y%m.bin']
OUTS = ['total', 'total.bin']


class Base(Harness):
    chunk = 8

    def setup(self):
        cat.setup()

    def run(self, case, rec):
        with scratch() as root:
            cat.check_system(root, case, rec)


class Chain(Base):
    """x -> op1 -> p -> op2 -> q (-> op3): every presence pattern of x, every policy of op1 and op2."""
    name = 'chain'

    def bounds(self, tier):
        return '%d days, all subsets of the root input, 3 operations, policies per link' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        n = 3 if tier == 'quick' else 4
        for present in subsets(names(DAILY, range(n))):
            for p1, p2, p3 in itertools.product(['allowed', 'skip'], ['allowed', 'skip', 'not_allowed'], ['allowed', 'skip'] if tier != 'quick' else ['skip']):
                for style in ('function', 'nested'):
                    yield dict(start=START, data={'x': [[DAILY, present]]}, ops=[
                        dict(name='op1', step=['daily', 0, n], inputs={'a': ['x', 0, 'file', p1]}, out=['p', 1, OUT, 2], style=style),
                        dict(name='op2', step=['daily', 0, n], inputs={'a': ['p', 1, 'file', p2], 'b': ['x', 0, 'list', 'allowed']}, out=['q', 0, OUT2, 1],
                             function='mc.runmodules.record_b'),
                        dict(name='op3', step=['once'], inputs={'a': ['q', 0, 'list', p3]}, out=['r', 0, OUTS, 1], style=style)])


class Shared(Base):
    """Outputs whose name does not identify the step are shared by the operations of the month, and listed once."""
    name = 'shared-output'

    def bounds(self, tier):
        return '4 days over a month end, all presence patterns, monthly output then daily and single-step readers'

    def cases(self, tier):
        n = 4 if tier == 'quick' else 5
        for present in subsets(names(FLAT, range(n), start='20040130')):
            for policy in ('allowed', 'skip'):
                for policy2 in ('allowed', 'skip', 'not_allowed'):
                    yield dict(start='20040130', data={'x': [[FLAT, present]]}, ops=[
                        dict(name='op1', step=['daily', 0, n], inputs={'a': ['x', 0, 'file', policy]}, out=['p', 0, OUTM, 1], extras=['stepindex']),
                        dict(name='op2', step=['daily', 1, n], inputs={'a': ['p', 0, 'file', policy2]}, out=['q', 2, OUT, 3]),
                        dict(name='op3', step=['once'], inputs={'a': ['p', 0, 'list', policy2], 'b': ['q', 2, 'list', 'allowed']}, out=None)])


class Folders(Base):
    """Outputs told apart by their folder only, or by folder and name together."""
    name = 'folders'
    LAYOUTS = [['%Y/%m/%d/', 'out.bin'], ['%Y/%m/', 'o_%d.bin'], ['%d/', 'out.bin'], ['%m/%d', 'o_%Y.bin']]

    def bounds(self, tier):
        return '4 layouts of output folder and name over a year end, %d days, all presence patterns, policies per link' % (3 if tier == 'quick' else 5)

    def cases(self, tier):
        n = 3 if tier == 'quick' else 5
        for layout in self.LAYOUTS:
            for present in subsets(names(FLAT, range(n))):
                for p1, p2 in itertools.product(['allowed', 'skip'], ['allowed', 'skip']):
                    yield dict(start=START, data={'x': [[FLAT, present]]}, ops=[
                        dict(name='op1', step=['daily', 0, n], inputs={'a': ['x', 0, 'file', p1]}, out=['p', 0, layout, 1]),
                        dict(name='op2', step=['daily', 0, n], inputs={'a': ['p', 0, 'file', p2]}, out=['q', 0, OUT2, 1]),
                        dict(name='op3', step=['once'], inputs={'a': ['p', 0, 'list', p2]}, out=None)])


class Later(Chain):
    """The chain with its later operations added by updates of the catalogue that the earlier ones are in."""
    name = 'added-later'

    def bounds(self, tier):
        return 'the systems of chain with op1, or op1 and op2, in the first build and the others each in an update'

    def cases(self, tier):
        for case in Chain.cases(self, 'quick'):
            for split in (1, 2):
                yield dict(case, split=split)
        if tier != 'quick':
            for case in Folders.cases(self, 'quick'):
                yield dict(case, split=1)

    LAYOUTS = Folders.LAYOUTS


class Clash(Base):
    """Two operations asked to write the same data subset, or a data set nobody defined: refused, no catalogue written."""
    name = 'clash'

    def bounds(self, tier):
        return 'all presence patterns of 2 days x writers with equal/different subset, before and after a reader'

    def cases(self, tier):
        n = 2
        for present in subsets(names(FLAT, range(n))):
            for second in ('p', 'other', 'undefined'):
                for order in (0, 1):
                    yield dict(present=present, second=second, order=order, n=n)

    def run(self, case, rec):
        import os
        from mc.core import require
        from mc.env import quiet
        from eumopps.catalogue.catalogue import Catalogue
        n = case['n']
        with scratch() as root:
            system = dict(start=START, data={'x': [[FLAT, case['present']]]}, ops=[
                dict(name='op1', step=['daily', 0, n], inputs={'a': ['x', 0, 'file', 'allowed']}, out=['p', 0, OUT, 1]),
                dict(name='op2', step=['daily', 0, n], inputs={'a': ['x', 0, 'file', 'allowed']}, out=[case['second'], 0, OUT2, 1])])
            cat.make_files(root, system)
            ops = [cat.make_operation(root, system, op) for op in system['ops']]
            if case['second'] == 'p':
                ops[1].newdatasets = None       # same data set, not declared again
            elif case['second'] == 'undefined':
                ops[1].newdatasets = None
            if case['order']:
                if case['second'] == 'p':
                    ops[0].newdatasets, ops[1].newdatasets = None, ops[0].newdatasets
                ops = ops[::-1]
            path = os.path.join(root, 'c.nc')
            rec.step()
            try:
                with quiet():
                    cat.build_module.build(Catalogue(datasets=cat.make_datasets(root, system), operations=ops), path, nochecksum=True)
                built = True
            except Exception:
                built = False
            want = case['second'] == 'other'
            require(built == want, 'two operations with outputs p and %s: build %s' % (case['second'], 'succeeded' if built else 'refused'))
            require(os.path.exists(path) == want, 'catalogue file present: %r' % os.path.exists(path))
            rec.outcome((case['second'], built))


class Place(Base):
    """Outputs go to the folder that the definition of their data set names, or to the default folder where it names none."""
    name = 'place'

    def bounds(self, tier):
        return 'all presence patterns of %d days x data set with folder, none, empty x default folder given or not' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        n = 2 if tier == 'quick' else 3
        for present in subsets(names(FLAT, range(n))):
            for own in ('named', 'none', 'empty'):
                for default in (False, True):
                    yield dict(present=present, own=own, default=default, n=n)

    def run(self, case, rec):
        import os
        from mc.core import require
        from mc.env import quiet
        from eumopps.catalogue.catalogue import Catalogue
        with scratch() as root:
            system = dict(start=START, data={'x': [[FLAT, case['present']]]}, ops=[
                dict(name='op1', step=['daily', 0, case['n']], inputs={'a': ['x', 0, 'file', 'skip']}, out=['p', 0, OUT, 1]),
                dict(name='op2', step=['daily', 0, case['n']], inputs={'a': ['p', 0, 'file', 'allowed']}, out=None)])
            cat.make_files(root, system)
            ops = [cat.make_operation(root, system, op) for op in system['ops']]
            if case['own'] != 'named':
                ops[0].newdatasets[0].path = None if case['own'] == 'none' else ''
            default = os.path.join(root, 'elsewhere') if case['default'] else None
            path = os.path.join(root, 'c.nc')
            rec.step()
            try:
                with quiet():
                    cat.build_module.build(Catalogue(datasets=cat.make_datasets(root, system), operations=ops), path, nochecksum=True, pathdefault=default)
                built = True
            except Exception:
                built = False
            folder = os.path.join(root, 'p') if case['own'] == 'named' else default
            require(built == (folder is not None), 'output folder %s, default folder %r: build %s' % (case['own'], case['default'], 'succeeded' if built else 'refused'))
            require(os.path.exists(path) == built, 'catalogue file present: %r' % os.path.exists(path))
            if built:
                runs, outputs = cat.model(root, system)
                place = lambda value: value.replace(os.path.join(root, 'p') + os.sep, folder + os.sep) if isinstance(value, str) else value
                for op, wants in zip(system['ops'], runs):
                    for index, want in enumerate(wants):
                        rec.step()
                        cat.compare_run(system, op, index, cat.run_operation(path, op, index), {k: place(v) for k, v in want.items()})
            rec.state((tuple(case['present']), case['own'], case['default'], built))
            rec.outcome((case['own'], case['default'], built))


HARNESSES = [Chain(), Shared(), Folders(), Later(), Clash(), Place()]
ASSUMPTIONS = ['steps start at midnight']
