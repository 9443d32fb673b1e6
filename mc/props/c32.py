"""C32: submitted jobs run every operation exactly once, after the stages they depend on.

The submission programs run for real against a stand-in for the batch system that records what it is given; every
element of every job array is then run with the real job script, and the command it issues is run against a real
catalogue whose operations only record their index.
"""
import contextlib
import datetime
import importlib.util
import itertools
import os
import re
import shutil
import subprocess

from mc import cat, runmodules
from mc.core import Harness, require
from mc.env import scratch, quiet

import eumopps
from eumopps.catalogue import commandrun as commandrun_module
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eustace.postprocess import operation_count

SRC = os.path.dirname(os.path.dirname(os.path.abspath(eumopps.__file__)))
ADVANCED = os.path.join(SRC, 'roses/fullstace/advanced_standard')

BSUB = '''#!/bin/sh
S=%(root)s
n=$(cat $S/next)
echo $((n+1)) > $S/next
if [ "$n" = "$(cat $S/fail)" ]; then echo "Request aborted" >&2; exit 255; fi
mkdir $S/jobs/$n
for a in "$@"; do printf '%%s\\0' "$a"; done > $S/jobs/$n/args
env -0 > $S/jobs/$n/env
cat > $S/jobs/$n/script
echo "Job <$n> is submitted to queue <short-serial>."
'''
PYTHON = '''#!/bin/sh
S=%(root)s
case "$2" in
  *commandcount) n=$(cat $S/counts/$4); if [ "$5" = --batchsize ]; then n=$(( (n + $6 - 1) / $6 )); fi; echo $n;;
  *operation_count) cat $S/months;;
  *) for a in "$@"; do printf '%%s\\0' "$a"; done >> $S/runs; printf '\\n' >> $S/runs;;
esac
'''


class Cluster(object):
    """The stand-in batch system."""

    def __init__(self, root, folder):
        self.root = os.path.join(root, 'cluster')
        self.scripts = os.path.join(root, 'scripts')
        os.makedirs(os.path.join(self.root, 'jobs'))
        os.makedirs(os.path.join(self.root, 'counts'))
        os.makedirs(os.path.join(self.root, 'bin'))
        os.makedirs(os.path.join(self.root, 'work'))
        shutil.copytree(folder, self.scripts)
        for name in os.listdir(self.scripts):
            path = os.path.join(self.scripts, name)
            if name.endswith('.sh'):
                with open(path) as f:
                    text = f.read()
                text = re.sub(r'/(work|gws|group_workspaces)/', self.root + '/work/', text)
                with open(path, 'w') as f:
                    f.write(text)
        for name, text in dict(bsub=BSUB, python=PYTHON, module='#!/bin/sh\n', python2='#!/bin/sh\nexec %(root)s/bin/python "$@"\n').items():
            path = os.path.join(self.root, 'bin', name)
            with open(path, 'w') as f:
                f.write(text % dict(root=self.root))
            os.chmod(path, 0o755)
        self.write('next', '99999998')
        self.write('fail', 'none')

    def write(self, name, text):
        with open(os.path.join(self.root, name), 'w') as f:
            f.write(text + '\n')

    @contextlib.contextmanager
    def active(self):
        """Submissions made inside reach the stand-in."""
        path, folder = os.environ.get('PATH', ''), os.getcwd()
        os.environ['PATH'] = os.path.join(self.root, 'bin') + ':' + path
        os.environ['USER'] = 'tester'
        os.chdir(self.scripts)
        try:
            yield
        finally:
            os.environ['PATH'] = path
            os.chdir(folder)

    def jobs(self):
        result = []
        for number in sorted(os.listdir(os.path.join(self.root, 'jobs')), key=int):
            folder = os.path.join(self.root, 'jobs', number)
            args = open(os.path.join(folder, 'args')).read().split('\0')[:-1]
            env = dict(item.split('=', 1) for item in open(os.path.join(folder, 'env')).read().split('\0') if '=' in item)
            result.append(Job(self, number, args, env, open(os.path.join(folder, 'script')).read()))
        return result

    def shell(self, script, *args):
        with self.active():
            done = subprocess.run(['bash', os.path.join(self.scripts, script)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        require(done.returncode == 0, lambda: '%s failed: %s' % (script, done.stderr[-300:]))
        return done.stdout


class Job(object):
    def __init__(self, cluster, number, args, env, script):
        self.cluster, self.number, self.env, self.script = cluster, number, env, script
        name, self.wait = None, ''
        for i, a in enumerate(args):
            if a == '-J':
                name = args[i + 1]
            if a == '-w':
                self.wait = args[i + 1]
        match = re.match(r'^(.*?)(?:\[(\d+)-(\d+)\])?$', name or '')
        require(name and match, lambda: 'job submitted as %r' % (args,))
        self.name = match.group(1)
        self.elements = range(int(match.group(2)), int(match.group(3)) + 1) if match.group(2) else [0]
        condition = self.wait.strip()
        require(not condition or re.match(r'^done\(\d+\)( *&& *done\(\d+\))*$', condition), lambda: 'job waits for %r' % condition)
        self.needs = set(re.findall(r'\d+', condition))

    def run(self, element):
        """Commands one element of the array issues, in order."""
        log = os.path.join(self.cluster.root, 'runs')
        if os.path.exists(log):
            os.remove(log)
        environ = dict(self.env, LSB_JOBINDEX=str(element), LSB_JOBID=self.number)
        with self.cluster.active():
            done = subprocess.run(['bash', '-c', self.script], env=environ, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        require(done.returncode == 0, lambda: 'job script failed: %s' % done.stderr[-300:])
        if not os.path.exists(log):
            return []
        return [line.split('\0')[:-1] for line in open(log).read().split('\n')[:-1]]


def submission_module(name, scripts):
    spec = importlib.util.spec_from_file_location('submission_' + name, os.path.join(ADVANCED, name + '.py'))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def build_catalogue(root, counts):
    s = dict(start='20000101', data={}, ops=[dict(name=name, step=['daily', 0, n], inputs={}, out=None, extras=['stepindex']) for name, n in counts])
    path = os.path.join(root, 'catalogue.nc')
    cat.make_files(root, s)
    cat.build(root, s, path)
    return path


def issued(command, catalogue, name):
    """Arguments of the run command, checked to be for this catalogue and operation."""
    require(command[:2] == ['-m', 'eumopps.catalogue.commandrun'], lambda: 'job runs %r' % (command,))
    positional = []
    options = {}
    rest = iter(command[2:])
    for a in rest:
        if a in ('--use_batch_size', '--batch'):
            options[a[2:]] = int(next(rest))
        elif not a.startswith('--'):
            positional.append(a)
    require(len(positional) == 3 and os.path.realpath(positional[0]) == os.path.realpath(catalogue) and positional[1] == name, lambda: 'job runs %r' % (command,))
    index = int(positional[2])
    if 'use_batch_size' in options:
        require(0 <= index < options['use_batch_size'], lambda: 'index %d in a batch of %d' % (index, options['use_batch_size']))
        return index + options['use_batch_size'] * options.get('batch', 0)
    return index


def executed(command):
    """Indexes of the operations the real run command executes."""
    del runmodules.LOG[:]
    with quiet():
        commandrun_module.main(command[2:])
    return [parameters['stepindex'] for kind, parameters in runmodules.LOG]


def run_all(rec, jobs, catalogue, name, n, real):
    ran = []
    for job in jobs:
        for element in job.elements:
            for command in job.run(element):
                rec.step()
                number = issued(command, catalogue, name)
                if real:
                    done = executed(command)
                    require(done == ([number] if 0 <= number < n else []), lambda: 'command %r executed %r' % (command, done))
                if 0 <= number < n:
                    ran.append(number)
                else:
                    require(number >= n, lambda: 'command %r is for operation %d' % (command, number))
        rec.state(tuple(ran))
    require(sorted(ran) == list(range(n)), lambda: 'operations run by the jobs: %r, of %d operations' % (sorted(ran), n))


class Submit(Harness):
    """submit_eumopps_jobs: every count and batch size, job scripts and commands run for real."""
    name = 'submit'
    chunk = 2

    def bounds(self, tier):
        return 'operation counts 1..%d, batch sizes 1..count+1, both submission programs and every job script they name' % (5 if tier == 'quick' else 9)

    def setup(self):
        cat.setup()

    def cases(self, tier):
        for n in range(1, 6 if tier == 'quick' else 10):
            for b in range(1, n + 2):
                for module in ('lsf_submission', 'lsf_submission_group'):
                    yield dict(module=module, n=n, batch=b, script='lsf_commandrun.sh')
        for script in ('lsf_commandrun_tall.sh', 'lsf_commandrun_solver.sh', 'lsf_commandrun_solver_climatology.sh', 'lsf_commandrun_solver_large_scale.sh', 'lsf_commandrun_solver_large_scale_high_memory.sh'):
            for n, b in ((1, 1), (5, 2), (4, 3)):
                yield dict(module='lsf_submission', n=n, batch=b, script=script)

    def run(self, case, rec):
        with scratch() as root:
            cluster = Cluster(root, ADVANCED)
            catalogue = build_catalogue(root, [('other', 4), ('stage', case['n'])])
            module = submission_module(case['module'], cluster.scripts)
            with cluster.active(), quiet():
                ids = module.submit_eumopps_jobs(catalogue, 'stage', wait_options='done(7)', lsf_script=case['script'], eumopps_batchsize=case['batch'], output_directory=root)
            jobs = cluster.jobs()
            require([str(i) for i in ids] == [j.number for j in jobs], lambda: 'returned job numbers %r' % (ids,))
            require(all('7' in j.needs for j in jobs), 'a job does not wait for what it was told to')
            require(len(set(j.name for j in jobs)) == len(jobs), 'two submissions of one stage have the same name')
            run_all(rec, jobs, catalogue, 'stage', case['n'], True)
            rec.outcome(len(jobs))


class Grouped(Harness):
    """submit_eumopps_jobs_grouped: several operations in each job, several jobs in each submission."""
    name = 'grouped'
    chunk = 2

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'operation counts 1..%d, 1-3 jobs per submission, 1-3 operations per job' % (9 if tier == 'quick' else 14)

    def cases(self, tier):
        for n in range(1, 10 if tier == 'quick' else 15):
            for jobs in (1, 2, 3):
                for tasks in (1, 2, 3):
                    yield dict(n=n, jobs=jobs, tasks=tasks)

    def run(self, case, rec):
        with scratch() as root:
            cluster = Cluster(root, ADVANCED)
            catalogue = build_catalogue(root, [('other', 4), ('stage', case['n'])])
            cluster.write('counts/stage', str(case['n']))
            module = submission_module('lsf_submission_group', cluster.scripts)
            with cluster.active(), quiet():
                ids = module.submit_eumopps_jobs_grouped(catalogue, 'stage', wait_options='', lsf_script='lsf_commandrun_group.sh', jobs_per_lsfbatch=case['jobs'], tasks_per_job=case['tasks'], output_directory=root)
            jobs = cluster.jobs()
            require([str(i) for i in ids] == [j.number for j in jobs], lambda: 'returned job numbers %r' % (ids,))
            require(all(len(j.elements) <= case['jobs'] for j in jobs), 'submission of more jobs than asked for')
            run_all(rec, jobs, catalogue, 'stage', case['n'], case['n'] <= 5)
            rec.outcome(len(jobs))


class Refused(Harness):
    """A submission that fails, and a stage that does not exist, are reported."""
    name = 'refused'
    chunk = 2

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'each of 3 submissions failing in turn'

    def cases(self, tier):
        for function in ('lsf_submission.submit_eumopps_jobs', 'lsf_submission_group.submit_eumopps_jobs', 'lsf_submission_group.submit_eumopps_jobs_grouped'):
            for failing in (0, 1, 2):
                yield dict(function=function, failing=failing)
            yield dict(function=function, failing=None)

    def run(self, case, rec):
        with scratch() as root:
            cluster = Cluster(root, ADVANCED)
            catalogue = build_catalogue(root, [('stage', 3)])
            name, function = case['function'].split('.')
            module = submission_module(name, cluster.scripts)
            if case['failing'] is not None:
                cluster.write('fail', str(99999998 + case['failing']))
            options = dict(jobs_per_lsfbatch=1, tasks_per_job=1) if 'grouped' in function else dict(eumopps_batchsize=1)
            try:
                with cluster.active(), quiet():
                    getattr(module, function)(catalogue, 'stage' if case['failing'] is not None else 'absent', lsf_script='lsf_commandrun.sh', output_directory=root, **options)
                refused = False
            except Exception:
                refused = True
            rec.step()
            require(refused, 'a failed submission is taken for a success' if case['failing'] is not None else 'a stage that does not exist is taken for submitted')
            require(len(cluster.jobs()) == (case['failing'] or 0), 'jobs submitted after a failure')
            rec.outcome(refused)


def closure(jobs):
    needs = {j.number: set(j.needs) for j in jobs}
    for j in jobs:          # numbers grow, so dependencies come first
        for n in list(needs[j.number]):
            needs[j.number] |= needs.get(n, set())
    return needs


def check_stages(rec, jobs, expected, initial):
    """expected: list of stages in order, each (name, number of elements)."""
    groups = []
    for job in jobs:
        name = job.env['EUMOPPS_MODULENAME']
        if not groups or groups[-1][0] != name:
            groups.append((name, []))
        groups[-1][1].append(job)
    rec.state(tuple((name, tuple((j.number, tuple(sorted(j.needs))) for j in members)) for name, members in groups))
    require([name for name, members in groups] == [name for name, n in expected], lambda: 'stages submitted: %r, called for: %r' % ([name for name, m in groups], [name for name, n in expected]))
    needs = closure(jobs)
    before = set(initial)
    for name, members in groups:
        for j in members:
            rec.step()
            missing = before - needs[j.number]
            require(not missing, lambda: 'a job of %s can start before job %s of an earlier stage has finished (it waits for %r)' % (name, sorted(missing), j.wait))
        before |= set(j.number for j in members)
    return groups, before


@contextlib.contextmanager
def counted(counts):
    """Counts without a catalogue file."""
    original = CatalogueReaderNetCDF.operationcount
    CatalogueReaderNetCDF.operationcount = lambda self, pathname, modulename, batchsize=1: -(-counts(modulename) // batchsize)
    try:
        yield
    finally:
        CatalogueReaderNetCDF.operationcount = original


FLAGS = ('climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve', 'output_grid')


class Stages(Harness):
    """Iterations: all selections of stages, each stage with one or several submissions."""
    name = 'stages'
    chunk = 4

    def bounds(self, tier):
        return 'all 64 selections of stages, iterations 0-2 with the final one in, before or after the range, both submission programs; 1-3 submissions in each stage'

    def cases(self, tier):
        ranges = [(0, 0, 0), (0, 1, 1), (0, 1, 0), (1, 1, 2)] if tier == 'quick' else [(0, 0, 0), (0, 0, 2), (0, 1, 1), (1, 2, 2), (0, 2, 2), (0, 2, 1)]
        for module in ('lsf_submission', 'lsf_submission_group'):
            for selection in itertools.product((True, False), repeat=6):
                if not any(selection):
                    continue
                for first, last, final in ranges:
                    if (first, last) != (0, 0) and tier == 'quick' and sum(selection) not in (5, 6):
                        continue
                    yield dict(module=module, selection=list(selection), first=first, last=last, final=final, wait='' if sum(selection) % 2 else 'done(7)')
            for iteration in (None, 3):
                yield dict(module=module, optimisation=iteration, wait='done(7)')
                yield dict(module=module, optimisation=iteration, wait='')
            yield dict(module=module, single=True, wait='')
            for local in (False, True):
                for prior in (False, True):
                    for grid in (False, True):
                        yield dict(module=module, iteration=2, local=local, prior=prior, grid=grid, wait='done(7)')

    def stage_names(self, i, flags, final, local=False):
        names = []
        for part in ('climatology', 'large_scale'):
            if flags[part + '_input']:
                names.append('%s_input_%d' % (part, i))
            if flags[part + '_solve']:
                names.append('%s_solve_%d' % (part, i))
                if final:
                    names.append('%s_solve_prior_sample_%d' % (part, i))
        if flags['local_input_and_solve']:
            names.append('%slocal_input_and_solve_%d' % ('nonstationary_' if local else '', i))
        return names

    def run(self, case, rec):
        def counts(name):
            return 1 if 'solve_' in name and 'input' not in name else 3000 if 'local' in name else 733
        with scratch() as root:
            cluster = Cluster(root, ADVANCED)
            module = submission_module(case['module'], cluster.scripts)
            catalogue = os.path.join(root, 'catalogue.nc')
            returned = None
            with counted(counts), cluster.active(), quiet():
                if 'optimisation' in case:
                    suffix = '' if case['optimisation'] is None else '_%d' % case['optimisation']
                    names = [n + suffix for n in ('split_local_component', 'input_summaries_create', 'input_summaries_merge')]
                    returned = module.eustace_optimisation(case['optimisation'], cataloguefilename=catalogue, wait_options=case['wait'])
                elif 'single' in case:
                    names = ['climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve', 'output_grid']
                    module.eustace_single_iteration()
                elif 'iteration' in case:
                    names = self.stage_names(2, dict.fromkeys(FLAGS, True), case['prior'], case['local'])
                    if case['grid']:
                        names.append('output_grid_2')
                    returned = module.eustace_iteration(2, cataloguefilename=catalogue, wait_options=case['wait'], grid_output=case['grid'], run_prior_sample=case['prior'], local_hyperparameters=case['local'])
                else:
                    flags = dict(zip(FLAGS, case['selection']))
                    names = []
                    for i in range(case['first'], case['last'] + 1):
                        names += self.stage_names(i, flags, i == case['final'])
                        if i == case['final'] and flags['output_grid']:
                            names.append('output_grid_%d' % i)
                    module.eustace_multi_iteration(first_iteration=case['first'], last_iteration=case['last'], final_iteration=case['final'], cataloguefilename=catalogue, wait_options=case['wait'], **flags)
            jobs = cluster.jobs()
            initial = set(re.findall(r'\d+', case['wait']))
            groups, finished = check_stages(rec, jobs, [(n, counts(n)) for n in names], initial)
            for name, members in groups:
                elements = [e for j in members for e in j.elements]
                if 'EUMOPPS_NTASKS' in members[0].env:
                    tasks = int(members[0].env['EUMOPPS_NTASKS'])
                    require(elements == list(range(1, -(-counts(name) // tasks) + 1)), lambda: '%s submitted as elements %r...' % (name, elements[:5]))
                else:
                    require(elements == list(range(1, counts(name) + 1)), lambda: '%s submitted as elements %r...' % (name, elements[:5]))
            if returned is not None and groups:
                require(set(re.findall(r'\d+', returned)) >= set(j.number for j in groups[-1][1]), lambda: 'the condition returned for later stages is %r' % returned)
            rec.outcome((len(groups), len(jobs)))


SHELL = {'advanced': (ADVANCED, 'runlsf.sh', 366), 'solver': (ADVANCED, 'runlsf_solver.sh', 1),
         'diagnostic': (os.path.join(SRC, 'roses/fullstace/diagnosticgrid'), 'runlsf.sh', 366),
         'rawbinary': (os.path.join(SRC, 'roses/fullstace/rawbinary'), 'runlsf_rawbinary.sh', 1000),
         'locationpointers': (os.path.join(SRC, 'roses/fullstace/rawbinary'), 'runlsf_locationpointers.sh', None)}


class Shell(Harness):
    """The shell submission programs: every array element run."""
    name = 'shell'
    chunk = 1
    timeout = 400

    def bounds(self, tier):
        return 'operation counts around multiples of the batch size of each program'

    def cases(self, tier):
        for kind, (folder, script, batch) in SHELL.items():
            if kind == 'solver':
                counts = (1, 2, 5)
            elif batch is None:
                counts = (1, 2, 30)
            elif batch == 1000:
                counts = (1, 1001) if tier == 'quick' else (1, 999, 1000, 1001, 2000)
            else:
                counts = (1, 366, 367) if tier == 'quick' else (1, 2, 365, 366, 367, 731, 732, 733)
            for n in counts:
                yield dict(kind=kind, n=n)
        if True:
            for n in (366, 367) if tier == 'quick' else (365, 366, 367, 732, 733):
                yield dict(kind='default', n=n)
            for n in (2000, 2001) if tier == 'quick' else (1999, 2000, 2001, 4001):
                yield dict(kind='default_group', n=n)

    def run(self, case, rec):
        n = case['n']
        with scratch() as root:
            catalogue = os.path.join(root, 'catalogue.nc')
            open(catalogue, 'w').close()
            folder, script, batch = SHELL.get(case['kind'], (ADVANCED, None, None))
            cluster = Cluster(root, folder)
            cluster.write('counts/stage', str(n))
            if script is None:
                module = submission_module('lsf_submission_group' if 'group' in case['kind'] else 'lsf_submission', cluster.scripts)
                with counted(lambda name: n), cluster.active(), quiet():
                    if 'group' in case['kind']:
                        module.submit_eumopps_jobs_grouped(catalogue, 'stage', lsf_script='lsf_commandrun_group.sh')
                    else:
                        module.submit_eumopps_jobs(catalogue, 'stage')
                jobs = cluster.jobs()
            else:
                third = '--allow_unversioned_code' if 'rawbinary' in folder else 'done(7)'
                cluster.shell(script, catalogue, 'stage', third)
                jobs = cluster.jobs()
                if third == 'done(7)':
                    require(all('7' in j.needs for j in jobs), 'a job does not wait for what it was told to')
            run_all(rec, jobs, catalogue, 'stage', n, False)
            rec.outcome(len(jobs))


class ShellIterations(Harness):
    """The shell program for all iterations."""
    name = 'shell-iterations'
    chunk = 1

    def bounds(self, tier):
        return '1 or 2 submissions for each input stage'

    def cases(self, tier):
        for n in (1, 366, 367, 733):
            for local in (1, 367):
                yield dict(n=n, local=local)

    def run(self, case, rec):
        with scratch() as root:
            catalogue = os.path.join(root, 'catalogue.nc')
            open(catalogue, 'w').close()
            cluster = Cluster(root, ADVANCED)
            expected = []
            for i in range(3):
                for stage, n in (('climatology_input', case['n']), ('climatology_solve', 1), ('large_scale_input', case['n']), ('large_scale_solve', 1), ('local_input_and_solve', case['local'])):
                    expected.append(('%s_%d' % (stage, i), n))
            expected.append(('output_grid', case['local']))
            for name, n in expected:
                cluster.write('counts/' + name, str(n))
            cluster.shell('runlsf_iterations.sh', catalogue)
            jobs = cluster.jobs()
            groups, finished = check_stages(rec, jobs, expected, set())
            for (name, members), (_, n) in zip(groups, expected):
                elements = [e for j in members for e in j.elements]
                require(elements == list(range(1, n + 1)), lambda: '%s submitted as elements %r...' % (name, elements[:5]))
            rec.outcome(len(jobs))


class Months(Harness):
    """Monthly batches of post-processing."""
    name = 'months'
    chunk = 1

    def bounds(self, tier):
        return 'all start years 1848-2030 x 1-5 year periods (and the whole period); reference times with and without time of day'

    def cases(self, tier):
        for start in range(1848, 2031):
            yield dict(start=start, spans=[1, 2, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 20])
        yield dict(start=1850, spans=[166])

    def run(self, case, rec):
        for span in case['spans']:
            start, end = case['start'], case['start'] + span - 1
            count = operation_count.operation_count(start, end)
            for kind in (datetime.datetime, datetime.date):
                days = []
                for i in range(count):
                    rec.step()
                    batch = operation_count.operation_dates(kind(start, 1, 1), i)
                    require(len(set((d.year, d.month) for d in batch)) == 1, lambda: 'batch %d from %d holds days of several months' % (i, start))
                    days += [(d.year, d.month, d.day) for d in batch]
                first, last = datetime.date(start, 1, 1), datetime.date(end, 12, 31)
                expected = [first + datetime.timedelta(days=k) for k in range((last - first).days + 1)]
                require(days == [(d.year, d.month, d.day) for d in expected], lambda: 'days in the batches of %d-%d are not those of the period' % (start, end))
                rec.state((start, end, len(days)))
            rec.outcome(count)


POST = {'submit_location_flags.sh': 'cell_percentile_threshold', 'submit_mask_apply.sh': 'apply_mask', 'submit_masking_calendar.sh': 'calendar_check',
        'submit_masking_window.sh': 'window_check', 'submit_merge_flag_files.sh': 'merge_flag_files', 'submit_outlier_flagging.sh': 'outlier_check',
        'submit_outlier_window.sh': 'outlier_window_check', 'submit_threshold_flags.sh': 'threshold_check'}


class PostProcess(Harness):
    """Post-processing submissions: every element run, the days of its month taken from the arguments it passes."""
    name = 'postprocess'
    chunk = 1

    def bounds(self, tier):
        return 'every submission program x periods of 1-2 years'

    def cases(self, tier):
        for script in sorted(POST):
            for start, end in ((1999, 2000),) if tier == 'quick' else ((1850, 1850), (1899, 1900), (1999, 2000), (2003, 2004)):
                yield dict(script=script, start=start, end=end)
        yield dict(script='submit_cell_percentile_calculation.sh', start=None, end=None)

    def run(self, case, rec):
        with scratch() as root:
            cluster = Cluster(root, os.path.join(SRC, 'eustace/postprocess/lsf'))
            if case['start'] is None:
                cluster.write('months', '360')
                cluster.shell(case['script'])
                months = []
                for job in cluster.jobs():
                    for element in job.elements:
                        for command in job.run(element):
                            rec.step()
                            require(command[1] == 'eustace.postprocess.cell_percentile_calculation', lambda: 'job runs %r' % (command,))
                            months.append(int(command[command.index('--month_number') + 1]))
                require(sorted(months) == list(range(1, 13)), lambda: 'months processed: %r' % months)
                rec.state(tuple(months))
                return
            cluster.write('months', str(operation_count.operation_count(case['start'], case['end'])))
            cluster.shell(case['script'], str(case['start']), str(case['end']), 'done(7)')
            days = []
            for job in cluster.jobs():
                require('7' in job.needs, 'a job does not wait for what it was told to')
                for element in job.elements:
                    commands = job.run(element)
                    require(len(commands) == 1, lambda: 'element runs %d commands' % len(commands))
                    command = commands[0]
                    rec.step()
                    require(command[:2] == ['-m', 'eustace.postprocess.' + POST[case['script']]], lambda: 'job runs %r' % (command[:2],))
                    options = dict(zip(command[2::2], command[3::2]))
                    reference = datetime.datetime.strptime(options['--reference_time_string'], '%Y-%m-%d')
                    days += [d.date() for d in operation_count.operation_dates(reference, int(options['--operation_index']))]
                    rec.state(days[-1])
            first, last = datetime.date(case['start'], 1, 1), datetime.date(case['end'], 12, 31)
            require(sorted(days) == [first + datetime.timedelta(days=k) for k in range((last - first).days + 1)], 'days processed are not those of the period')
            rec.outcome(len(days))


HARNESSES = [Months(), Submit(), Grouped(), Refused(), Stages(), Shell(), ShellIterations(), PostProcess()]
