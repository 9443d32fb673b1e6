"""C04: saving and reloading a catalogue or configuration object loses and alters nothing."""
import datetime
import io
import itertools
import os

import numpy

from mc import bags, cat
from mc.core import Harness, require, Violation
from mc.env import scratch, quiet
from mc.props import c01

from eumopps.netcdfobjects import netcdfobjects
from eumopps.jsonobjects import jsonobjects
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF, CatalogueWriterNetCDF
from eumopps.catalogue.fileio.formatjson import CatalogueReaderJSON, CatalogueWriterJSON

T1, T2, T3 = datetime.datetime(1850, 1, 1), datetime.datetime(2000, 2, 29, 23, 59, 59), datetime.datetime(1849, 12, 31, 12)


# -- values written as plain data, so that they can be stored in replay files ----------------------------------------

def make(x):
    """['int', 3] | ['str', 's'] | ['time', n] | ['none'] | ['list', ...] | ['bag', {k: x}] | ['other', {}] | ['dict', {}]"""
    kind = x[0]
    if kind == 'none':
        return None
    if kind in ('int', 'float', 'str'):
        return x[1]
    if kind == 'np':
        return numpy.int64(x[1])
    if kind == 'bool':
        return bool(x[1])
    if kind == 'time':
        return [T1, T2, T3][x[1]]
    if kind == 'list':
        return [make(y) for y in x[1:]]
    if kind == 'dict':
        return dict((k, make(v)) for k, v in x[1].items())
    return dict(bag=bags.Bag, other=bags.Other)[kind](**dict((k, make(v)) for k, v in x[1].items()))


def trimmed(items):
    items = list(items)
    while items and items[-1] in (None, '', []):
        items.pop()
    return items


class Real(object):
    """A number with a fraction: not the same as the whole number of the same value."""
    def __init__(self, value):
        self.value = float(value)

    def __eq__(self, other):
        return isinstance(other, Real) and self.value == other.value

    def __hash__(self):
        return hash(('real', self.value))

    def __repr__(self):
        return 'float %r' % self.value


def normal(x, inlist=False):
    """Canonical form. Documented simplifications of the formats: absent, None, and lists of nothing but gaps are the same;
    a gap in a list of strings is an empty string; rows of a table of strings or numbers end at their last element."""
    if x is None or isinstance(x, (str, datetime.datetime)):
        return x
    if isinstance(x, (bool, numpy.bool_, int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        return Real(x)
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, dict):
        return ('dict', tuple(sorted((k, normal(v)) for k, v in x.items() if normal(v) is not None)))
    if isinstance(x, (list, tuple)):
        items = [normal(v) for v in x]
        if all(i is None for i in items):
            return None
        if any(isinstance(i, str) for i in items):
            items = ['' if i is None else i for i in items]
            if all(i == '' for i in items) and inlist:
                return None
        rows = [i for i in items if isinstance(i, tuple) and i and i[0] == 'list']
        if rows and all(i is None or isinstance(i, tuple) and i[0] == 'list' for i in items) or any(isinstance(v, (list, tuple)) for v in x):
            items = [('list', tuple(trimmed(i[1]))) if i is not None else ('list', ()) for i in items]
            if not any(i[1] for i in items):
                return None
        return ('list', tuple(items))
    if hasattr(x, '__dict__'):
        return (x.__class__.__module__ + '.' + x.__class__.__name__,
                tuple(sorted((k, normal(v)) for k, v in x.__dict__.items() if normal(v) is not None)))
    raise Violation('loaded value of unexpected type %s: %r' % (type(x), x))


normal_ = normal


def difference(a, b, where=''):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and a[0] == b[0]:
        if a[0] == 'list':
            if len(a[1]) != len(b[1]):
                return '%s: list %r became %r' % (where, a[1], b[1])
            for n, (p, q) in enumerate(zip(a[1], b[1])):
                d = difference(p, q, '%s[%d]' % (where, n))
                if d:
                    return d
        else:
            p, q = dict(a[1]), dict(b[1])
            for k in sorted(set(p) | set(q)):
                d = difference(p.get(k), q.get(k), '%s.%s' % (where, k))
                if d:
                    return d
    return '%s: %r became %r' % (where, a, b)


def roundtrip(obj, fmt, folder):
    path = os.path.join(folder, 'o.' + fmt)
    with quiet():
        if fmt == 'nc':
            CatalogueWriterNetCDF().save(path, obj)
            return CatalogueReaderNetCDF().load(path)
        CatalogueWriterJSON().save(path, obj)
        return CatalogueReaderJSON().load(path)


def columns(x):
    """Canonical form of objects stored as columns, in which a gap in a column of strings is an empty string."""
    if isinstance(x, bags.Bag):
        return (x.__class__.__name__, tuple(sorted((k, columns(v)) for k, v in x.__dict__.items() if columns(v) is not None)))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((k, columns(v)) for k, v in x.items() if columns(v) is not None)))
    if isinstance(x, list):
        items = [columns(v) for v in x]
        return ('list', tuple(items if any(isinstance(i, tuple) for i in items) else trimmed(items))) if any(i is not None for i in items) else None
    return None if isinstance(x, str) and x == '' else normal_(x)


def check_roundtrip(obj, fmt, folder, rec, normal=None):
    normal = normal or normal_
    before = normal(obj)
    rec.step()
    loaded = roundtrip(obj, fmt, folder)
    require(normal(obj) == before, lambda: 'saving changed the object in memory: %s' % difference(before, normal(obj)))
    after = normal(loaded)
    require(after == before, lambda: '%s: %s' % (fmt, difference(before, after)))
    rec.step()
    again = normal(roundtrip(loaded, fmt, folder))
    require(again == before, lambda: '%s, second cycle: %s' % (fmt, difference(before, again)))
    rec.state(('value', fmt, before))
    rec.outcome(before)
    return True


I = lambda n: ['int', n]
S = lambda s: ['str', s]
N = ['none']
SCALARS = [N, I(0), I(1), I(-5), I(2 ** 53 + 1), ['np', 7], ['float', 0.0], ['float', -2.5], ['float', 1.0e-300], S(''), S('a'), S('longer text, with_%Y/'), S(' x ')]
TIMES = [['time', 0], ['time', 1], ['time', 2]]
LISTS = [['list'], ['list', I(4)], ['list', I(4), I(0), I(-1)], ['list', N, I(4)], ['list', I(2 ** 53 + 1), N, I(-2 ** 62)],  ['list', I(4), N, I(6)], ['list', I(0), N], ['list', N, N],
         ['list', ['float', 0.5]], ['list', ['float', 0.5], N, ['float', 0.0]], ['list', ['float', 3.0]],
         ['list', S('p')], ['list', S('p'), S('longer'), S('')], ['list', S(''), S('q')], ['list', N, S('q')],
         ['list', ['time', 1]], ['list', ['time', 1], ['time', 2], ['time', 0]], ['list', N, ['time', 1]], ['list', ['time', 1], N, ['time', 0]],
         ]
TABLES = [['list', ['list', I(1), I(2), I(3)]], ['list', ['list', I(1), I(2), I(3)], ['list', I(4)]], ['list', ['list', I(0), I(0), I(-1)], ['list'], ['list', I(4), I(5), I(6), I(7), I(8), I(9)]],
          ['list', ['list', I(1), N, I(3)]], ['list', ['list', N, I(3)], ['list', I(2), I(1)]],
          ['list', ['list', ['float', 0.5]], ['list', ['float', 0.0], ['float', 1.5]]],
          ['list', ['list', S('s')]], ['list', ['list', S('s'), S('tt')], ['list', S('uuu')]], ['list', ['list', S('s')], ['list'], ['list', S(''), S('w')]]]
OBJECTS = [['dict', {}], ['dict', {'k': I(0)}], ['bag', {}], ['bag', {'k': S('v'), 'z': N}], ['bag', {'k': ['time', 1]}], ['bag', {'k': ['list', I(1), N]}],
           ['bag', {'k': ['dict', {'l': I(1)}]}], ['bag', {'t': ['time', 2], 'k': ['bag', {'m': ['list', S('a'), S('b')]}]}]]
OBJECTLISTS = [['list', ['bag', {}]], ['list', ['bag', {'k': I(0)}], ['bag', {'k': I(1)}]], ['list', ['dict', {'k': I(0)}], ['dict', {'k': I(1)}]],
               ['list', ['bag', {'k': I(0)}], ['other', {'k': I(1)}]], ['list', ['other', {'k': I(0)}], ['bag', {'k': I(1)}]],
               ['list', ['bag', {'k': I(0)}], ['bag', {'j': I(1)}]], ['list', ['bag', {'k': I(0)}], ['bag', {'k': I(3), 'j': I(1)}]],
               ['list', ['bag', {'k': I(0), 'j': I(2)}], ['bag', {'k': I(1)}]], ['list', ['bag', {'k': N}], ['bag', {'k': I(1)}]],
               ['list', ['bag', {'k': I(1)}], ['dict', {'k': I(2)}]], ['list', ['dict', {'k': I(1)}], ['bag', {'k': I(2)}]],
               ['list', ['bag', {'k': ['bag', {'m': I(0)}]}], ['bag', {'k': ['other', {'m': I(1)}]}]],
               ['list', ['bag', {'k': I(0)}], ['bag', {'k': ['bag', {'m': I(1)}]}]]]
VALUES = SCALARS + TIMES + LISTS + TABLES + OBJECTS + OBJECTLISTS


class Members(Harness):
    """Objects with two members, every pair of values from the alphabet, at every place an object can stand."""
    name = 'members'
    chunk = 64

    PLACES = ['root', 'member', 'dictmember', 'listitem']

    def bounds(self, tier):
        return 'all pairs of %d values (scalars, times, lists and tables with gaps, objects, object lists) x %d places x 2 formats' % (len(VALUES), len(self.PLACES))

    def cases(self, tier):
        for place in self.PLACES:
            for fmt in ('nc', 'json'):
                for a in VALUES:
                    if fmt == 'json' and 'np' in repr(a):
                        continue
                    for b in (VALUES if tier != 'quick' or place in ('root', 'member') else [N] + VALUES[3::6]):
                        if fmt == 'json' and 'np' in repr(b):
                            continue
                        if tier == 'quick' and place != 'member' and VALUES.index(a) < VALUES.index(b):
                            continue
                        yield dict(place=place, fmt=fmt, a=a, b=b)

    def run(self, case, rec):
        # a member called count, as operations have, next to the ones that vary
        inner = {'a': case['a'], 'ab': case['b']}   # one name begins with the other
        place = case['place']
        tree = dict(root=['bag', inner], rootdict=['dict', inner], member=['bag', {'x': ['bag', inner], 'name': S('n')}],
                    dictmember=['bag', {'x': ['dict', inner]}], listitem=['bag', {'x': ['list', ['bag', {'a': N, 'ab': N}], ['bag', inner]]}])[place]
        with scratch() as folder:
            check_roundtrip(make(tree), case['fmt'], folder, rec, columns if place == 'listitem' and case['fmt'] == 'nc' else None)


class Columns(Harness):
    """Lists of equal objects (stored as columns): every combination of gaps and values in up to 3 (thorough 4) objects x 2 members."""
    name = 'columns'
    chunk = 64
    ALPHABETS = dict(int=[N, I(0), I(-7)], str=[N, S('a'), S('longer')], time=[N, ['time', 1], ['time', 2]], float=[N, ['float', 0.0], ['float', 2.5]],
                     ints=[N, ['list', I(0)], ['list', I(1), N, I(3)]],
                     tags=[N, ['list'], ['list', S('p')], ['list', S('p'), S('qq')]])

    def bounds(self, tier):
        return 'lists of 1..%d objects, all value/gap patterns of two members over all pairs of 6 member types' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        for kind in ('bag', 'dict'):
            for p, q in itertools.combinations(sorted(self.ALPHABETS), 2):
                for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                    for column in itertools.product(self.ALPHABETS[p], repeat=n):
                        for other in itertools.product(self.ALPHABETS[q], repeat=n):
                            yield dict(kind=kind, items=[[a, b] for a, b in zip(column, other)])

    def run(self, case, rec):
        tree = ['bag', {'rows': ['list'] + [[case['kind'], {'a': a, 'b': b}] for a, b in case['items']]}]
        with scratch() as folder:
            check_roundtrip(make(tree), 'nc', folder, rec, columns)


class Trees(Harness):
    """Every nesting of objects, lists and leaves to depth 3."""
    name = 'trees'
    chunk = 64

    def bounds(self, tier):
        return 'all trees of objects/dictionaries/lists to depth 3, leaves int/str/time/gap'

    @staticmethod
    def grow(leaves, inner):
        for kind in ('bag', 'dict', 'other'):
            for a in leaves + inner:
                yield [kind, {'a': a}]
        for kind in ('bag', 'dict'):
            for a in leaves + inner:
                for b in inner:
                    yield [kind, {'a': a, 'c': b}]
        for a in inner:
            yield ['list', a]
            for b in inner:
                yield ['list', a, b]

    def cases(self, tier):
        leaves = [I(0), S('s'), ['time', 1], N]
        level1 = [['bag', {'a': I(2)}], ['other', {'a': I(2)}], ['dict', {'a': S('d')}], ['bag', {}], ['dict', {'a': ['list', I(1), N, I(2)]}]]
        level2 = [t for t in self.grow(leaves, level1)]
        seen = []
        for t in level2:
            yield dict(tree=['bag', {'x': t}])
            if t[0] != 'list':
                seen.append(t)
        keep = seen if tier != 'quick' else seen[::5]
        for t in self.grow([], keep[::4] if tier == 'quick' else keep[::3]):
            yield dict(tree=['bag', {'x': t}])

    def run(self, case, rec):
        if any_list_of_lists(case['tree']):
            return
        with scratch() as folder:
            obj = make(case['tree'])
            for fmt in ('nc', 'json'):
                check_roundtrip(obj, fmt, folder, rec)


def any_list_of_lists(x):
    if x[0] == 'list':
        return any(y[0] == 'list' and any(z[0] in ('bag', 'dict', 'other') for z in y[1:]) or any_list_of_lists(y) for y in x[1:])
    if x[0] in ('bag', 'dict', 'other'):
        return any(any_list_of_lists(y) for y in x[1].values())
    return False


class Defaults(Harness):
    """Objects whose constructor has defaults: every combination of values, including zero-like ones that differ from the default."""
    name = 'defaults'

    def bounds(self, tier):
        return 'all combinations of zero-like and other values of 6 members with constructor defaults, 2 formats'

    def cases(self, tier):
        for number, text, flag, items, ratio, when in itertools.product([0, 3, 4], ['', 'preset', 'x'], [False, True, 0, 1], [None, [0], [1, 2]], [0.0, 0.5], [None, 0, 1]):
            yield dict(number=number, text=text, flag=flag, items=items, ratio=ratio, when=when)

    def run(self, case, rec):
        obj = bags.WithDefaults(**dict(case, when=None if case['when'] is None else [T1, T2][case['when']]))
        with scratch() as folder:
            check_roundtrip(bags.Bag(inner=obj, items=[obj, obj]), 'json', folder, rec)
            if not isinstance(case['flag'], bool):
                check_roundtrip(bags.Bag(inner=obj, items=[obj, obj]), 'nc', folder, rec)


class Descriptions(Harness):
    """Catalogue definitions (as JSON) and built catalogues (as NetCDF), every presence pattern of input files."""
    name = 'catalogues'
    chunk = 4

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'every presence pattern of %d daily files x 4 policies x file/list x function/class, archive members, two chained operations' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        days = 3 if tier == 'quick' else 4
        for present in itertools.product((0, 1), repeat=days):
            for policy in ('allowed', 'skip'):
                for style in ('function', 'class'):
                    yield dict(days=days, present=present, policy=policy, style=style)

    def run(self, case, rec):
        names = [n for n, p in zip(c01.names(c01.DAILY, range(case['days'])), case['present']) if p]
        system = dict(start=c01.START, data={'x': [[c01.DAILY, names], [['other_%Y%m%d.bin'], ['other_20000101.bin']]]}, ops=[
            dict(name='one', step=['daily', 0, case['days']], inputs={'a': ['x', 0, 'file', case['policy']], 'b': ['x', 1, 'list', 'allowed']},
                 out=['p', 1, ['p_%Y%m%d.bin'], 2], extras=['stepindex', 'steptime', 'timestamp', 'catalogue'] if case['style'] == 'function' else [], style=case['style']),
            dict(name='two', step=['once'], inputs={}, out=None, style='function')])
        with scratch() as root:
            cat.make_files(root, system)
            definition = cat.definition(root, system)
            check_roundtrip(definition, 'json', root, rec)
            path = os.path.join(root, 'c.nc')
            cat.build(root, system, path, definition)
            with quiet():
                loaded = CatalogueReaderNetCDF().load(path)
            before, after = normal(definition), normal(loaded)
            require(before == after, lambda: 'catalogue: %s' % difference(before, after))
            check_roundtrip(loaded, 'nc', root, rec)
            for op in ('one', 'two'):
                with quiet():
                    operation = CatalogueReaderNetCDF().load_operation(path, op)
                whole = [o for o in loaded.operations if o.name == op][0]
                require(normal(operation) == normal(whole), lambda: 'operation loaded on its own: %s' % difference(normal(whole), normal(operation)))
            rec.outcome(after)


HARNESSES = [Members(), Columns(), Trees(), Defaults(), Descriptions()]
ASSUMPTIONS = ['times have whole seconds (resolution of the format)', 'text is ASCII', 'lists hold one kind of element']
