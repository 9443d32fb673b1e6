"""C07: data set search finds exactly the files that follow the naming rules."""
import calendar
import datetime
import io
import itertools
import os
import tarfile

from mc import cat
from mc.core import Harness, require
from mc.env import scratch, quiet, touch

from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.namepatterns import NameCandidate, nested_search_patterns
from eumopps.catalogue.step import StepDaily
from eumopps.catalogue.storage import DataStorageFiles, DataStorageTar, DataStorageTarGZip

WIDTH = dict(Y=4, m=2, d=2, H=2, M=2, S=2)


# -- reference matcher (hand-written backtracking, no regular expressions) ------------------------------------------

def tokens(pattern):
    result, i = [], 0
    while i < len(pattern):
        if pattern[i] == '%' and i + 1 < len(pattern):
            result.append(pattern[i:i + 2])
            i += 2
        else:
            result.append(pattern[i])
            i += 1
    return result


def parse(toks, name, known):
    """First (greedy) way in which a beginning of name follows the tokens: (fields, rest) or None."""
    if not toks:
        return dict(known), name
    tok, rest = toks[0], toks[1:]
    if len(tok) == 2:
        key = tok[1]
        if key in 'abc' and key.upper() in known:
            text = known[key.upper()].lower()
            return parse(rest, name[len(text):], known) if name.startswith(text) else None
        if key in known:
            text = known[key]
            return parse(rest, name[len(text):], known) if name.startswith(text) else None
        if key in WIDTH:
            text = name[:WIDTH[key]]
            if len(text) == WIDTH[key] and all(c in '0123456789' for c in text):
                return parse(rest, name[len(text):], dict(known, **{key: text}))
            return None
        for n in range(len(name), -1, -1):
            found = parse(rest, name[n:], dict(known, **{key: name[:n]}))
            if found is not None:
                return found
        return None
    if not name:
        return None
    if tok == '?' or tok == name[0]:
        return parse(rest, name[1:], known)
    return None


def expect(patterns, name):
    """None | ('error',) | ('entry', time, tags)"""
    rest, known = name, {}
    for p in patterns:
        found = parse(tokens(p), rest, known)
        if found is None:
            return None
        known, rest = found
    tags = []
    for key in 'ABC':
        if key not in known:
            break
        tags.append(known[key])
    numbers = {k: int(v) for k, v in known.items() if k in WIDTH}
    if not numbers:
        return ('entry', None, tags)
    try:
        t = datetime.datetime(numbers['Y'], numbers.get('m', 1), numbers.get('d', 1) if 'm' in numbers else 1, numbers.get('H', 0), numbers.get('M', 0), numbers.get('S', 0))
    except ValueError:
        return ('error',)
    return ('entry', t, tags)


def check_dataset(root, subsets_patterns, names, rec):
    """Search root (which holds exactly names) with the real code and compare."""
    dataset = CatalogueDataSet(name='d', path=root, subsets=[CatalogueDataSubset(layout=DataStorageFiles(patterns=list(p))) for p in subsets_patterns])
    with quiet():
        dataset.search()
        dataset.search()    # a repeated search finds the same again
    rec.step(len(names) * len(subsets_patterns))
    matched = set()
    for patterns, subset in zip(subsets_patterns, dataset.subsets):
        want = {n: expect(patterns, n) for n in names}
        matched |= set(n for n in names if want[n] is not None)
        got = [m.name for m in subset.matches]
        require(len(got) == len(set(got)), lambda: 'duplicate entries for %s: %s' % (patterns, sorted(got)))
        entries = {m.name: ('entry', m.time, list(m.tags)) for m in subset.matches}
        for n in names:
            w = want[n] if want[n] is not None and want[n][0] == 'entry' else None
            require(entries.get(n) == w, lambda: 'patterns %s, file %s: found as %s, expected %s' % (patterns, n, entries.get(n), w))
        require(set(entries) <= set(names), lambda: 'entries for files that do not exist: %s' % (set(entries) - set(names)))
        errors = sorted(subset.value_errors)
        bad = sorted(n for n in names if want[n] == ('error',))
        require(errors == bad, lambda: 'patterns %s: impossible times reported for %s, expected %s' % (patterns, errors, bad))
        rec.outcome(tuple(sorted(entries)))
    non = sorted(dataset.non_matching)
    require(non == sorted(set(names) - matched), lambda: 'files reported as not matching: %s, expected %s' % (non, sorted(set(names) - matched)))
    rec.state((tuple(map(tuple, subsets_patterns)), tuple(sorted(names))))


PATTERNS = {
    'flat': (['d_%Y%m%d.bin'], [dict(Y='2000', m='02', d='29'), dict(Y='1999', m='12', d='31')]),
    'nested': (['%Y/', 'd_%Y%m%d.bin'], [dict(Y='2000', m='02', d='29'), dict(Y='1999', m='12', d='31')]),
    'deep': (['x/%Y/%m/%d/', 'g_%Y%m%d_%H%M%S.nc'], [dict(Y='2003', m='01', d='02', H='23', M='59', S='58')]),
    'repeat': (['%Y/%m/g%Y%m%d%H.nc'], [dict(Y='2003', m='01', d='02', H='11')]),
    'monthly': (['m_%Y%m.txt.gz'], [dict(Y='2003', m='07')]),
    'yearly': (['%Y/', 'all_%Y.nc'], [dict(Y='2003')]),
    'joined': (['data/%Y', 'd_%Y%m%d.bin'], [dict(Y='2003', m='02', d='01')]),
    'static': (['a.b.c'], [{}]),
    'wild': (['%Y/', 's_??_%m.bin'], [dict(Y='2003', m='04')]),
    'tags': (['site_%A/', '%A_%B_%Y.dat'], [dict(A='ENA', B='c1', Y='2003'), dict(A='v1.0', B='q', Y='2004')]),
    'gap': (['%A_%C_%Y.dat'], [dict(A='x', C='c1', Y='2003')]),
    'lower': (['%A_%B/', '%a-%C-%B.%Y%m%d.cdf'], [dict(A='ENA', B='C1', C='met', Y='2003', m='05', d='06')]),
}


def spell(patterns, fields):
    text = ''.join(patterns)
    for k, v in fields.items():
        text = text.replace('%' + k, v).replace('%' + k.lower(), v.lower()) if k in 'ABC' else text.replace('%' + k, v)
    return text.replace('?', 'z')


def mutants(name, alphabet):
    yield name
    for i in range(len(name)):
        yield name[:i] + name[i + 1:]
        yield name[:i] + name[i].swapcase() + name[i + 1:]
        for c in alphabet:
            yield name[:i] + c + name[i + 1:]
            yield name[:i] + c + name[i:]


def storable(names):
    """Names that can exist together in one directory tree."""
    kept = {}
    for n in names:
        if n != os.path.normpath(n) or n.startswith(('/', '..')) or n in kept or n == '.':
            continue
        parents = []
        p = os.path.dirname(n)
        while p:
            parents.append(p)
            p = os.path.dirname(p)
        if any(q in kept for q in parents) or any(k.startswith(n + '/') for k in kept):
            continue
        kept[n] = True
    return list(kept)


class Mutants(Harness):
    """Every one-character change of correctly named files."""
    name = 'one-character-changes'
    chunk = 1

    def bounds(self, tier):
        return '%d pattern sets; each deletion, change of case, and replacement and insertion of one character from %s at each position of each correct name' % (len(PATTERNS), self.alphabet(tier))

    def alphabet(self, tier):
        return '03x./' if tier == 'quick' else '019aE.-_/%'

    def cases(self, tier):
        for kind in sorted(PATTERNS):
            for n in range(len(PATTERNS[kind][1])):
                yield dict(kind=kind, base=n, alphabet=self.alphabet(tier))

    def run(self, case, rec):
        patterns, bases = PATTERNS[case['kind']]
        name = spell(patterns, bases[case['base']])
        require(expect(patterns, name) is not None, 'harness: %s should follow %s' % (name, patterns))
        # text after the end of the pattern is left open by the naming rules: not part of the space
        follow = [n for n in mutants(name, case['alphabet']) if not continues(patterns, n)]
        names = storable(follow)
        with scratch() as root:
            for n in names:
                touch(os.path.join(root, n))
            check_dataset(root, [patterns], names, rec)
        # and each change as the only file next to the correct one
        for other in names:
            pair = storable([name, other])
            candidates = [NameCandidate(n) for n in pair]
            found = sorted(e.name for e in nested_search_patterns(patterns, candidates))
            rec.step()
            require(found == sorted(n for n in pair if expect(patterns, n) is not None), lambda: 'among %s found %s' % (pair, found))


def continues(patterns, name):
    rest, known = name, {}
    for p in patterns:
        found = parse(tokens(p), rest, known)
        if found is None:
            return False
        known, rest = found
    return bool(rest)


class Together(Harness):
    """Every subset of a pool of names (right, wrong, colliding tags, impossible dates) x several data subsets at once."""
    name = 'directory-contents'
    chunk = 16
    POOLS = [
        ([['%Y/', 'd_%Y%m%d.bin'], ['%Y/', 'e_%Y%m%d.bin']],
         ['2000/d_20000229.bin', '2000/e_20000229.bin', '2001/d_20010229.bin', '2000/d_20010101.bin', 'd_20000101.bin', '2000/f_20000101.bin', 'x/2000/d_20000103.bin', '2001/e_20011231.bin']),
        ([['%A_%B/', '%a-%B.%Y.cdf']],
         ['EN_AC1/en-AC1.2000.cdf', 'ENA_C1/ena-C1.2000.cdf', 'ENA_C1/en-AC1.2000.cdf', 'EN_AC1/ena-C1.2001.cdf', 'E_NAC1/e-NAC1.2000.cdf', 'ENA_C1/ena-C1.2001.cdf', 'ENA_C1/ENA-C1.2002.cdf']),
        ([['%A/', '%A_%Y.dat'], ['%A/', 'q_%A.dat']],
         ['v1.0/v1.0_2000.dat', 'v1x0/v1x0_2000.dat', 'v1.0/v1x0_2000.dat', 'v1x0/v1.0_2001.dat', 'v1.0/q_v1.0.dat', 'v1x0/q_v1.0.dat', 'a/b_2000.dat']),
        ([['h_%Y%m%d%H%M%S.nc'], ['h_%Y%m%d.nc'], ['h_%Y.nc']],
         ['h_20000101000000.nc', 'h_20000101240000.nc', 'h_20001301000000.nc', 'h_20000101.nc', 'h_20000100.nc', 'h_2000.nc', 'h_0000.nc', 'h_200001.nc']),
    ]

    def bounds(self, tier):
        return 'all %ssubsets of %d pools of 7-8 names' % ('' if tier != 'quick' else '(up to 3 or all but 1 members) ', len(self.POOLS))

    def cases(self, tier):
        for p, (patterns, pool) in enumerate(self.POOLS):
            for n in range(len(pool) + 1):
                if tier == 'quick' and 3 < n < len(pool) - 1:
                    continue
                for chosen in itertools.combinations(range(len(pool)), n):
                    yield dict(pool=p, chosen=list(chosen))

    def run(self, case, rec):
        patterns, pool = self.POOLS[case['pool']]
        names = [pool[i] for i in case['chosen']]
        with scratch() as root:
            for n in names:
                touch(os.path.join(root, n))
            os.makedirs(os.path.join(root, 'emptydir'))
            check_dataset(root, patterns, names, rec)


class Inverse(Harness):
    """Name generation and parsing are inverse: every day of whole years."""
    name = 'generate-parse'
    chunk = 1
    SETS = [['d_%Y%m%d.bin'], ['%Y/', 'd_%Y%m%d.bin'], ['x/%Y/%m/', 'd_%Y%m%d_%H%M%S.nc'], ['%d-%m-%Y.nc'], ['a?b/%Y/', '%Y%m%d.nc'], ['%Y/%m/%d/', 'all.nc']]

    def bounds(self, tier):
        return 'every day of %s x %d pattern sets' % ('1850, 1900, 1999, 2000, 2015, 2100' if tier == 'quick' else '1850-2020', len(self.SETS))

    def cases(self, tier):
        years = [1850, 1900, 1999, 2000, 2015, 2100] if tier == 'quick' else range(1850, 2021)
        for y in years:
            for k in range(len(self.SETS)):
                yield dict(year=y, set=k)

    def run(self, case, rec):
        patterns = self.SETS[case['set']]
        start = datetime.datetime(case['year'], 1, 1)
        step = StepDaily(start, datetime.datetime(case['year'], 12, 31))
        days = 366 if calendar.isleap(case['year']) else 365
        require(step.count() == days, lambda: 'count %d' % step.count())
        made = []
        for i in range(days):
            rec.step()
            entry = step.create_output_entry(patterns, i)
            t = start + datetime.timedelta(days=i)
            want = os.path.join(*[p.replace('%Y', '%04d' % t.year).replace('%m', '%02d' % t.month).replace('%d', '%02d' % t.day).replace('%H', '00').replace('%M', '00').replace('%S', '00') for p in patterns])
            require(entry.name == want and entry.time == t, lambda: 'day %s is named %s at %s, expected %s' % (t, entry.name, entry.time, want))
            made.append(entry)
        subset = CatalogueDataSubset(layout=DataStorageFiles(patterns=patterns))
        candidates = [NameCandidate(e.name.replace('?', 'z')) for e in made]
        subset.search('unused', candidates)
        got = {m.name: m.time for m in subset.matches}
        require(len(subset.matches) == days, lambda: '%d of %d generated names were found' % (len(subset.matches), days))
        for e in made:
            require(got.get(e.name.replace('?', 'z')) == e.time, lambda: '%s generated for %s, parsed as %s' % (e.name, e.time, got.get(e.name)))
        rec.outcome(days)


class Archives(Harness):
    """Contents of tar archives: every subset of archives and of members."""
    name = 'archives'
    chunk = 8
    MEMBERS = ['in/ist_20000229_0100.nc', 'in/ist_20000230_0100.nc', 'in/other.txt', 'ist_20000229_0100.nc', 'in/ist_20000301_2359.nc']

    def bounds(self, tier):
        return 'all subsets of %d members, plain and compressed, next to every subset of non-archives' % len(self.MEMBERS)

    def cases(self, tier):
        for kind in ('tar', 'gz'):
            for n in range(len(self.MEMBERS) + 1):
                for chosen in itertools.combinations(self.MEMBERS, n):
                    for second in (None, [], [self.MEMBERS[0]]):
                        yield dict(kind=kind, members=list(chosen), second=second)

    def run(self, case, rec):
        archives = {'A/ist_20000101.tz': case['members']}
        if case['second'] is not None:
            archives['A/ist_20000102.tz'] = case['second']
        with scratch() as root:
            os.makedirs(os.path.join(root, 'A'))
            touch(os.path.join(root, 'A/notes.txt'))
            for name, members in archives.items():
                with tarfile.open(os.path.join(root, name), 'w:gz' if case['kind'] == 'gz' else 'w') as archive:
                    for m in members:
                        info = tarfile.TarInfo(m)
                        info.size = 3
                        archive.addfile(info, io.BytesIO(b'abc'))
            layout = (DataStorageTarGZip if case['kind'] == 'gz' else DataStorageTar)('A/ist_%Y%m%d.tz', 'in/ist_%Y%m%d_%H%M.nc')
            dataset = CatalogueDataSet(name='d', path=root, subsets=[CatalogueDataSubset(layout=layout)])
            rec.step()
            with quiet():
                dataset.search()
            subset = dataset.subsets[0]
            matches, errors, unused = [], [], []
            for name, members in archives.items():
                for m in members:
                    outcome = expect(['in/ist_%Y%m%d_%H%M.nc'], m)
                    if outcome is None:
                        unused.append(name + ':' + m)
                    elif outcome[0] == 'error':
                        errors.append(m)
                    else:
                        matches.append((name + ':' + m, outcome[1]))
            got = sorted((m.name, m.time) for m in subset.matches)
            require(got == sorted(matches), lambda: 'archive entries %s, expected %s' % (got, sorted(matches)))
            got = sorted(n for group in subset.archive_unused for n in group)
            require(got == sorted(unused), lambda: 'unused archive members %s, expected %s' % (got, sorted(unused)))
            require(sorted(subset.value_errors) == sorted(errors), lambda: 'impossible times %s, expected %s' % (subset.value_errors, errors))
            require(dataset.non_matching == ['A/notes.txt'], lambda: 'not matching: %s' % dataset.non_matching)
            rec.outcome((len(matches), len(errors), len(unused)))


HARNESSES = [Mutants(), Together(), Inverse(), Archives()]
ASSUMPTIONS = ['text after the end of a pattern is left open (the shipped descriptors rely on this)']
