"""C06: concurrent checksum computation is complete and does not depend on the schedule."""
import itertools
import os

from mc import sched, cat
from mc.core import Harness, require
from mc.env import scratch, quiet, touch

from eumopps.catalogue import dataset as dataset_module
from eumopps.catalogue import checksum as checksum_module
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset, CatalogueFileEntry
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF

FILES = (dataset_module.__file__, checksum_module.__file__)


def crc_table():
    table = []
    for n in range(256):
        c = n << 24
        for _ in range(8):
            c = ((c << 1) ^ 0x04C11DB7) & 0xffffffff if c & 0x80000000 else (c << 1) & 0xffffffff
        table.append(c)
    return table


TABLE = crc_table()


def posix_cksum(data):
    c = 0
    for b in data:
        c = ((c << 8) & 0xffffffff) ^ TABLE[(c >> 24) ^ b]
    n = len(data)
    while n:
        c = ((c << 8) & 0xffffffff) ^ TABLE[(c >> 24) ^ (n & 0xff)]
        n >>= 8
    return c ^ 0xffffffff


def content(index):
    return b'' if index == 1 else (b'content %d\n' % index) * (index + 1)


def filename(i):
    """Names with spaces, quotes and other characters a shell would notice, too."""
    return {2: 'e 002 .bin ', 4: "e'00\"4$(x).bin", 5: '*5;6&.bin', 6: 'e%006.bin\t'}.get(i, 'e%03d.bin' % i)


def prepare(root, kinds, sub=''):
    """kinds: one letter per entry: f file, m missing, d directory, n no permission to matter for root so unused."""
    entries = []
    for i, kind in enumerate(kinds):
        name = os.path.join(sub, filename(i))
        path = os.path.join(root, name)
        if kind == 'f':
            touch(path, content(i))
        elif kind == 'd':
            os.makedirs(path)
        entries.append(CatalogueFileEntry(name=name))
    return entries


def text(value):
    return value.decode() if isinstance(value, bytes) else value


def check_entries(entries, kinds, names):
    for i, (entry, kind) in enumerate(zip(entries, kinds)):
        require(entry.name == names[i], lambda: 'entry %d is now called %s' % (i, entry.name))
        if kind == 'f':
            require(entry.checksum is not None, lambda: 'entry %d of %d has no checksum' % (i, len(kinds)))
            require(int(text(entry.checksum)) == posix_cksum(content(i)), lambda: 'entry %d has checksum %s' % (i, entry.checksum))
            require(int(entry.size) == len(content(i)), lambda: 'entry %d has size %s' % (i, entry.size))
        else:
            require(entry.checksum is None and entry.size is None, lambda: 'entry %d cannot be read but has checksum %s size %s' % (i, entry.checksum, entry.size))


class Schedules(Harness):
    """Every schedule of the worker threads up to the preemption bound, switching at every line / bytecode instruction."""
    name = 'schedules'
    chunk = 1
    timeout = 600
    STRIPES = 8

    def bounds(self, tier):
        return 'entries/threads 2/2, 3/2, 3/3, 4/3: all schedules with <= 2 (two entries%s) or 1 preemptions at lines, <= 1 at bytecode instructions' % ('' if tier == 'quick' else ', three entries on two threads')

    def cases(self, tier):
        plans = [('ff', 2, 'line', 2), ('fm', 2, 'line', 1), ('fff', 2, 'line', 1), ('mff', 3, 'line', 1), ('ff', 2, 'opcode', 1)]
        if tier != 'quick':
            plans += [('mf', 2, 'line', 2), ('fff', 2, 'line', 2), ('ffmf', 3, 'line', 1), ('fff', 3, 'opcode', 1)]
        for kinds, threads, grain, bound in plans:
            for stripe in range(self.STRIPES):
                yield dict(kinds=kinds, threads=threads, grain=grain, bound=bound, stripe=stripe)

    def run(self, case, rec):
        saved = getattr(dataset_module, 'CHECKSUM_NUM_THREADS', 64)
        dataset_module.CHECKSUM_NUM_THREADS = case['threads']
        kinds = case['kinds']
        try:
            with scratch() as root:
                prepare(root, kinds)

                def make():
                    entries = [CatalogueFileEntry(name=filename(i)) for i in range(len(kinds))]
                    subset = CatalogueDataSubset(layout=None, matches=entries)
                    names = [e.name for e in entries]

                    def check(s):
                        # what the caller sees at the moment compute_checksum returned
                        check_entries(subset.matches, kinds, names)
                        rec.state(('schedule', case['kinds'], case['grain'], tuple(s.summary())))
                        rec.outcome(tuple(str(e.checksum) for e in subset.matches))

                    snapshot = {}

                    def function():
                        subset.compute_checksum(root)
                        snapshot['entries'] = [(e.name, e.checksum, e.size) for e in subset.matches]

                    def check_snapshot(s):
                        require('entries' in snapshot, 'compute_checksum did not return')
                        copies = []
                        for name, checksum, size in snapshot['entries']:
                            copies.append(CatalogueFileEntry(name=name, checksum=checksum, size=size))
                        check_entries(copies, kinds, names)
                        check(s)
                    return function, check_snapshot

                executions, decisions, diverged = sched.explore(make, FILES, case['bound'], case['grain'] == 'opcode', (case['stripe'], self.STRIPES))
                rec.executions += executions - 1
                rec.step(decisions)
                if diverged:
                    rec.outcome('diverged')
        finally:
            dataset_module.CHECKSUM_NUM_THREADS = saved


class Ranges(Harness):
    """Split of the entries between threads: every number of entries and threads; each entry handled exactly once."""
    name = 'ranges'
    chunk = 8

    def bounds(self, tier):
        return 'entries 0..%d x thread limits 1..%d, instrumented entries' % ((40, 12) if tier == 'quick' else (150, 70))

    def cases(self, tier):
        most, threads = (40, 12) if tier == 'quick' else (150, 70)
        for limit in range(1, threads + 1):
            yield dict(limit=limit, totals=[0, most])
        yield dict(limit=None, totals=[60, 70] if tier == 'quick' else [0, 200])
        yield dict(limit=None, totals=[126, 130])

    def run(self, case, rec):
        saved = getattr(dataset_module, 'CHECKSUM_NUM_THREADS', 64)
        if case['limit'] is not None:
            dataset_module.CHECKSUM_NUM_THREADS = case['limit']
        limit = case['limit'] or saved
        import threading

        class Counted(object):
            def __init__(self):
                self.calls = []
                self.checksum = None

            def compute_checksum(self, path):
                self.calls.append(threading.get_ident())
                Counted.workers.add(threading.current_thread())
        try:
            for total in range(case['totals'][0], case['totals'][1] + 1):
                rec.step()
                Counted.workers = set()
                entries = [Counted() for _ in range(total)]
                subset = CatalogueDataSubset(layout=None, matches=entries)
                subset.compute_checksum('folder')
                counts = [len(e.calls) for e in subset.matches]
                require(counts == [1] * total, lambda: '%d entries, %d threads: entries handled %s times' % (total, limit, counts))
                require(case['limit'] is not None or len(Counted.workers) <= 64, lambda: '%d entries: %d threads used, at most 64 are documented' % (total, len(Counted.workers)))
                rec.state((limit, total, len(Counted.workers)))
                rec.outcome((limit, total))
        finally:
            dataset_module.CHECKSUM_NUM_THREADS = saved


class Kinds(Harness):
    """Every arrangement of readable, missing and unreadable entries, in one or two subsets, through the catalogue build."""
    name = 'kinds'
    chunk = 8

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'all arrangements of file/missing/directory over 1..%d entries; whole data sets found by search, saved and reloaded' % (3 if tier == 'quick' else 5)

    def cases(self, tier):
        for n in range(1, 4 if tier == 'quick' else 6):
            for kinds in itertools.product('fmd', repeat=n):
                yield dict(kinds=''.join(kinds), via='subset')
        for a in range(0, 4):
            for b in range(0, 4):
                yield dict(a=a, b=b, via='build')

    def run(self, case, rec):
        with scratch() as root:
            rec.step()
            if case['via'] == 'subset':
                entries = prepare(root, case['kinds'])
                subset = CatalogueDataSubset(layout=None, matches=list(entries))
                dataset = CatalogueDataSet(name='d', path=root, subsets=[subset])
                dataset.checksum()
                check_entries(subset.matches, case['kinds'], [filename(i) for i in range(len(case['kinds']))])
                rec.outcome(case['kinds'])
                return
            folder = os.path.join(root, 'x')
            os.makedirs(folder)
            want = {}
            for k, count in (('a', case['a']), ('b', case['b'])):
                for i in range(count):
                    name = '%s_200001%02d.bin' % (k, i + 1)
                    touch(os.path.join(folder, name), content(i) + k.encode())
                    want[name] = content(i) + k.encode()
            system = dict(start='20000101', data={'x': [[['a_%Y%m%d.bin'], []], [['b_%Y%m%d.bin'], []]]}, ops=[])
            path = os.path.join(root, 'c.nc')
            cat.build(root, system, path, nochecksum=False)
            with quiet():
                loaded = CatalogueReaderNetCDF().load(path)
            got = {}
            for s in loaded.datasets[0].subsets:
                for m in s.matches:
                    got[m.name] = (int(text(m.checksum)), int(m.size))
            expected = {n: (posix_cksum(d), len(d)) for n, d in want.items()}
            require(got == expected, lambda: 'catalogue records %s, expected %s' % (got, expected))
            rec.outcome((case['a'], case['b']))


HARNESSES = [Schedules(), Ranges(), Kinds()]
ASSUMPTIONS = ['switches inside the operating system or the cksum program are not controlled: the files are not modified meanwhile']
