"""
C15: output files carry the computed data, under the documented names.

Space: (A) all small shapes of one and two variable functions x alphabet of special
values x containers, through a user subclass of Correlation; (B) all classes x ways
of selecting particles x output modes (default, patterns, bare file name, disabled,
standard output, over an older file), deviations over the setup.  The complete set of
files in the folder, their headers and contents are compared with the computed data.
"""
import itertools
import math
import os
import shutil
import numpy
from mc.build import ALL, ONE_BODY_TIME, FOURIER_TIME, TWO_BODY, ONLY_3D, K1, make, arguments, cls
from mc.engine import Check as Base, Violation, deviations
from mc.env import scratch_root
from mc.worlds import World

VALUES = [0.0, 1.0, -2.5, 1.23456789e-7, -9.87654321e12, float('nan'), float('inf'), 1e-300, 0.1 + 0.2]
SYMBOL = {'msd': 'msd', 'vacf': 'vacf', 'alpha2': 'alpha2', 'qst': 'qst', 'qt': 'qt', 'chi4': 'chi4qs', 'chi4opt': 'chi4qs',
          'fskt': 'fskt', 'fsktlegacy': 'fskt', 'fkt': 'fkt', 'gr': 'gr', 'grlegacy': 'gr', 'sk': 'sk', 'skfast': 'sk', 'ba': 'ba',
          'ik': 'ik', 's4kt': 's4kt', 'user': 'user'}
SHORT = {'msd': 'dr^2(t)', 'vacf': 'Z(t)', 'alpha2': 'alpha_2(t)', 'qst': 'Q_s(t)', 'qt': 'Q(t)', 'chi4': 'chi_4(t)',
         'chi4opt': 'chi_4(t)', 'fskt': 'F_s(k,t)', 'fsktlegacy': 'F_s(k,t)', 'fkt': 'F(k,t)', 'gr': 'g(r)', 'grlegacy': 'g(r)',
         'sk': 'S(k)', 'skfast': 'S(k)', 'ba': 'D(theta)', 'ik': 'I(k)', 's4kt': 'S_4(t,k)'}
LONG = {'dr^2(t)': 'mean square displacement', 'Z(t)': 'velocity autocorrelation', 'alpha_2(t)': 'non-Gaussian parameter',
        'Q_s(t)': 'self overlap', 'Q(t)': 'collective overlap', 'chi_4(t)': 'dynamic susceptibility of self overlap',
        'F_s(k,t)': 'self intermediate scattering function', 'F(k,t)': 'intermediate scattering function',
        'g(r)': 'radial distribution function', 'S(k)': 'structure factor', 'D(theta)': 'bond angle distribution',
        'I(k)': 'spectral density', 'S_4(t,k)': '4-point dynamic structure factor from self overlap',
        'Q^u(t)': 'Average of self overlap, not normalized', 'Q_2^u(t)': 'Variance of self overlap, not normalized'}
PATTERNS = {
    'default': None,
    'symbol': '{trajectory.filename}.{symbol}.{tag}',
    'nested': '{folder}/sub/deep/{symbol}_{tag}.dat',
    'fixed': '{folder}/out.{tag}.txt',
    'long': '{folder}/{long_name}_{tag_description}.dat',
    'short': '{folder}/{short_name}.{tag}',
    'parent': '{trajectory.filename}/{symbol}.{tag}',
    'odd': '{folder}/run..2/out--x__y._/{symbol}.{tag}.dat',
    'bare': '{symbol}.{tag}.out',
    'none': None,
    'memory': None,
    'memory-path': '{folder}/m.{symbol}.{tag}',
    'link': '{folder}/links/{symbol}.{tag}.dat',
    'stdout': '/dev/stdout',
    'older': None,
}


def tidy(path):
    """Empty fields leave no doubled or dangling punctuation in the file name"""
    folder, name = os.path.split(path)
    for x in '._-':
        name = name.replace(x * 2, x).strip(x)
    return os.path.join(folder, name)


def parse(text):
    """Comments and rows of a columnar file"""
    comments, rows = [], []
    for line in text.split('\n'):
        if line.startswith('#'):
            if rows:
                raise Violation('comment after the data: %s' % line)
            comments.append(line)
        elif line:
            rows.append([float(x) for x in line.split()])
    if text and not text.endswith('\n'):
        raise Violation('the last line is not complete')
    return comments, rows


def agree(x, y):
    """Equal within the printed precision"""
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= 6e-6 * abs(x) + 1e-305


def plain(x):
    if isinstance(x, (list, tuple, numpy.ndarray)):
        return [plain(y) for y in x]
    return float(x)


def expected_rows(corr):
    grid, value = plain(corr.grid), plain(corr.value)
    if grid and isinstance(grid[0], list):
        return [[x, y, value[i][j]] for i, x in enumerate(grid[0]) for j, y in enumerate(grid[1])]
    if len(grid) != len(value):
        raise Violation('%d values for %d entries of the grid' % (len(value), len(grid)))
    return [[x, y] for x, y in zip(grid, value)]


class Check(Base):

    pid = 'C15'
    technique = ('exhaustive enumeration of bounded shapes, values, classes and output modes, run on the real code in a scratch '
                 'folder whose complete content is compared with the expected one')
    bounds = ('A: all 1D functions of 1..4 points and 2D ones of 1..3 x 1..4 points, all assignments of 9 special values with at most '
              '2 (1D: 3) deviating entries, 3 containers; B: 17 classes x 8 ways to select particles x 15 output modes x do / compute+write, '
              'plus <=2 (thorough: 3) deviations in the trajectory and in the sizes of the grids')
    assumptions = ['values are printed with 6 significant digits', 'doubled or dangling . _ - are removed from the file name']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        sizes = [(n,) for n in (1, 2, 3, 4)] + [(n, m) for n in (1, 2, 3) for m in (1, 2, 3, 4)]
        for size in sizes:
            cells = int(numpy.prod(size))
            depth = 3 if len(size) == 1 else 2
            for container in ('list', 'tuple', 'array'):
                for case in deviations({i: list(range(len(VALUES))) for i in range(cells)}, min(depth, cells)):
                    if container != 'list' and sum(1 for x in case.values() if x) > 1:
                        continue
                    yield {'part': 'A', 'size': list(size), 'container': container, 'values': [case[i] for i in range(cells)]}
        axes = {
            'output': list(PATTERNS),
            'select': ['all', 'partial', 'filter', 'Filter', 'weight', 'partial-weight', 'two', 'tag'],
            'how': ['do', 'write', 'twice', 'noanalyze'],
            'comments': [None, '# note: extra comment\n'],
            'layout': ['AABABBABAB', 'AAAABB', 'AB' * 10, 'AACBBCAABBCC'],
            'species': ['letters', 'C', 'F'],
            'frames': [4, 2, 3, 7],
            'steps': ['lin10', 'lin1', 'log3'],
            'timestep': [1.0, 0.005],
            'kgrid': [2, 1, 3],
            'tgrid': ['all', 'array', 'two', 'tuple'],
            'name': ['traj.world', 'a.b/traj.world', 'traj'],
        }
        quick = {'layout', 'species', 'frames', 'steps', 'timestep', 'kgrid', 'tgrid', 'name', 'comments'}
        for name in ALL:
            for case in deviations(axes, 3):
                dev = [k for k in axes if case[k] != axes[k][0]]
                if len(dev) == 3 and not self.thorough and (len(quick & set(dev)) > 0):
                    continue
                if 'weight' in case['select'] and name not in ('sk', 'skfast', 'ik'):
                    continue
                if case['select'] == 'two' and name not in TWO_BODY:
                    continue
                if name == 'ik' and case['select'] not in ('all', 'tag', 'weight'):
                    continue
                yield dict(case, part='B', class_=name)
        for output in PATTERNS:
            for layout in ('AABABBABAB', 'AB' * 16, 'AABBCCABC' * 2):
                for frames in (2, 4):
                    yield {'part': 'C', 'output': output, 'layout': layout, 'frames': frames}

    def folder(self):
        path = os.path.join(self.tmp, 'case-%d' % os.getpid())
        if os.path.exists(path):
            shutil.rmtree(path)
        os.mkdir(path)
        return path

    def elsewhere(self):
        """Another folder, empty at first"""
        path = os.path.join(self.tmp, 'elsewhere-%d' % os.getpid())
        os.makedirs(path, exist_ok=True)
        return path

    def run(self, case):
        if os.path.exists(self.elsewhere()):
            shutil.rmtree(self.elsewhere())
        folder = self.folder()
        os.chdir(folder)
        try:
            getattr(self, 'part_' + case['part'].lower())(case, folder)
        finally:
            os.chdir('/')
            shutil.rmtree(folder)

    def listing(self, folder):
        out = {}
        for root, _, files in os.walk(folder):
            for f in files:
                path = os.path.join(root, f)
                with open(path) as fh:
                    out[os.path.relpath(path, folder)] = fh.read()
        return out

    def data(self, what, text, rows):
        comments, got = parse(text)
        if len(got) != len(rows) or any(len(x) != len(y) for x, y in zip(got, rows)) or \
           not all(agree(a, b) for x, y in zip(rows, got) for a, b in zip(x, y)):
            raise Violation('%s contains %s instead of %s' % (what, str(got)[:300], str(rows)[:300]))
        self.compared += 1
        return comments

    # Arbitrary shapes and values

    def part_a(self, case, folder):
        import atooms.postprocessing.correlation as module
        world = World(layout='AAABB', frames=2)
        size = case['size']
        array = numpy.array([VALUES[i] for i in case['values']]).reshape(size)

        def pack(x):
            if case['container'] == 'array':
                return numpy.array(x)
            if case['container'] == 'tuple' and not (x and isinstance(x[0], list)):
                return tuple(x)
            return x

        x = [0.5 + 1.25 * i for i in range(size[0])]
        if len(size) == 2:
            y = [0.125 * (i + 1)**2 for i in range(size[1])]

        class User(module.Correlation):
            symbol = 'user'
            short_name = 'f(x)' if len(size) == 1 else 'f(x,y)'
            long_name = 'user function'
            phasespace = 'pos'

            def _compute(self):
                self.grid = pack(x) if len(size) == 1 else [pack(x), pack(y)]
                self.value = pack(array.tolist())

            def analyze(self):
                self.analysis['maximum'] = 2.5
                self.analysis['undefined'] = None

        corr = User(world.trajectory(os.path.join(folder, 't')), None)
        corr.do()
        self.calls += 1
        files = self.listing(folder)
        if list(files) != ['t.pp.user']:
            raise Violation('files %s instead of t.pp.user' % sorted(files))
        rows = expected_rows(corr)
        if len(size) == 1:
            wanted = [[a, b] for a, b in zip(x, array.tolist())]
        else:
            wanted = [[a, b, array[i, j]] for i, a in enumerate(x) for j, b in enumerate(y)]
        self.data('user file', files['t.pp.user'], wanted)
        self.header('user file', files['t.pp.user'], 'user function', 'f(x)' if len(size) == 1 else 'f(x,y)', 'the whole system',
                    {'maximum': 2.5, 'undefined': None})
        if len(size) == 1:
            new = User(world.trajectory(os.path.join(folder, 't')), None)
            new.read()
            got = [[a, b] for a, b in zip(plain(new.grid), plain(new.value))]
            if len(got) != len(wanted) or not all(agree(a, b) for p, q in zip(wanted, got) for a, b in zip(p, q)):
                raise Violation('read() gives %s instead of %s' % (got, wanted))
        if sum(1 for i in case['values'] if i) < 2:
            # The path given by the user, whether or not the trajectory is on disk
            for filename in (None, os.path.join(folder, 't')):
                path = os.path.join(folder, 'given', '{symbol}.{tag}')
                User(world.trajectory(filename), None, output_path=path).do()
                files = self.listing(os.path.join(folder, 'given'))
                shutil.rmtree(os.path.join(folder, 'given'))
                if list(files) != ['user']:
                    raise Violation('files %s instead of user' % sorted(files))
                self.data('user file', files['user'], wanted)
        if len(rows) != len(wanted):
            raise Violation('%d rows instead of %d' % (len(rows), len(wanted)))
        self.outcome('A', tuple(size), case['values'])

    def header(self, what, text, long_name, short_name, description, analysis, comments=None):
        lines, _ = parse(text)
        title = [x for x in lines if x.startswith('# title:')]
        if len(title) != 1 or short_name not in title[0] or long_name not in title[0] or description not in title[0]:
            raise Violation('title of %s is %s: expected %s, %s, %s' % (what, title, long_name, short_name, description))
        variables = short_name.split('(')[1].strip(')').split(',')
        columns = '# columns: %s' % ', '.join(variables + [short_name])
        if columns not in lines:
            raise Violation('%s has no line %s: %s' % (what, columns, lines))
        for key, value in analysis.items():
            found = [x for x in lines if x.startswith('# %s: ' % key)]
            if (value is None) != (len(found) == 0):
                raise Violation('%s: analysis %s is %s, header %s' % (what, key, value, found))
            if value is None:
                continue
            if not isinstance(value, dict):
                if len(found) != 1 or not agree(float(value), float(found[0].split(': ')[1])):
                    raise Violation('%s: analysis %s is %s, header %s' % (what, key, value, found))
            elif len(found) != 1 or any(('%g' % v)[:4] not in found[0] for v in value.values() if v is not None and 1e-3 < v < 1e5):
                raise Violation('%s: analysis %s is %s, header %s' % (what, key, value, found))
        if comments and comments.strip() not in lines:
            raise Violation('%s: comments are missing: %s' % (what, lines))

    # All classes and output modes

    def setup_object(self, case, folder, filename):
        """Object, and the correlation functions that write a file, with the expected tags"""
        import atooms.postprocessing as pp
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.filter import Filter
        from atooms.postprocessing.helpers import filter_species
        name, select = case['class_'], case['select']
        world = World(layout=case['layout'], frames=case['frames'], steps=case['steps'], timestep=case['timestep'],
                      species=case['species'], masses='mixed')
        labels = sorted({str(x) for s in world.species for x in s})
        th = world.trajectory(filename)
        radius = None
        if name == 'ik':
            radius = world.write_xyz(os.path.join(folder, 'radius.xyz'))
        total = world.total_time()
        tgrid = [0.0, total * 0.3, total * 0.6, total]
        if case['tgrid'] == 'two':
            tgrid = [0.0, total]
        kgrid = [K1, 1.42 * K1, 2 * K1][:case['kgrid']]
        args, kwargs = arguments(name, world, tgrid, radius)
        if 'kgrid' in kwargs:
            kwargs['kgrid'] = kgrid
        for key in ('tgrid', 'kgrid'):
            if key in kwargs and case['tgrid'] == 'array':
                kwargs[key] = numpy.array(kwargs[key])
            elif key in kwargs and case['tgrid'] == 'tuple':
                kwargs[key] = tuple(kwargs[key])
        tags, descriptions = {None: ''}, {None: 'the whole system'}
        if select.startswith('partial'):
            c = Partial(cls(name), labels, th, *args, **kwargs)
            parts = c.partial
            if cls(name).nbodies == 1:
                tags = {x: str(x) for x in labels}
                descriptions = {x: 'species %s' % x for x in labels}
            else:
                tags = {(x, y): '%s-%s' % (x, y) for x in labels for y in labels}
                descriptions = {k: 'species pair ' + v for k, v in tags.items()}
            if set(parts) != set(tags):
                raise Violation('partials %s instead of %s' % (list(parts), list(tags)))
        else:
            c = cls(name)(th, *args, **kwargs)
            parts = {None: c}
        if select == 'filter':
            c.add_filter(filter_species, labels[0])
        elif select == 'two':
            c.add_filter(filter_species, labels[0])
            c.add_filter(filter_species, labels[1])
        elif select == 'Filter':
            c = parts[None] = Filter(c, 'mass > 0.1')
            tags, descriptions = {None: 'mass>0.1'}, {None: 'mass > 0.1'}
        elif select == 'tag':
            c.tag, c.tag_description = 'my_tag', 'my description'
            tags, descriptions = {None: 'my_tag'}, {None: 'my description'}
        elif 'weight' in select:
            c.add_weight(field='charge')
            tags = {k: (v + '.charge_') for k, v in tags.items()}
            descriptions = {k: v + ' with charge field' for k, v in descriptions.items()}
        for part in parts.values():
            part.comments = case['comments']
        return c, parts, tags, descriptions

    def part_b(self, case, folder):
        import atooms.postprocessing.core as core
        mode = case['output']
        filename = None if mode.startswith('memory') else os.path.join(folder, case['name'])
        if mode == 'bare':
            filename = case['name']
        c, parts, tags, descriptions = self.setup_object(case, folder, filename)
        name = case['class_']
        pattern = PATTERNS[mode] or core.pp_output_path
        pattern = pattern.replace('{folder}', folder)
        if mode == 'none':
            c.output_path = None
        elif PATTERNS[mode]:
            c.output_path = pattern

        def path(corr, key, symbol):
            p = pattern.replace('{trajectory.filename}', str(filename)).replace('{symbol}', symbol)
            p = p.replace('{short_name}', corr.short_name).replace('{long_name}', LONG[corr.short_name].replace(' ', '_'))
            p = p.replace('{tag_description}', descriptions[key].replace(' ', '_')).replace('{tag}', tags[key])
            return os.path.relpath(tidy(p), folder if mode != 'bare' else '.')

        def wanted():
            out = {}
            if mode in ('none', 'memory', 'stdout'):
                return out
            for key, part in parts.items():
                out[path(part, key, SYMBOL[name])] = part, key, SHORT[name]
                if name.startswith('chi4'):
                    for other, symbol, short in ((part.average, 'qsu', 'Q^u(t)'), (part.variance, 'q2su', 'Q_2^u(t)')):
                        p = path(other, key, symbol)
                        if p not in out:
                            out[p] = other, key, short
                if name in FOURIER_TIME and (case['how'] != 'noanalyze'):
                    out[path(part, key, SYMBOL[name]) + '.tau'] = part, key, 'tau'
            return out

        before = self.listing(folder)
        if mode == 'older':
            for p in wanted():
                if os.path.dirname(p):
                    os.makedirs(os.path.join(folder, os.path.dirname(p)), exist_ok=True)
                with open(os.path.join(folder, p), 'w') as fh:
                    fh.write('# title: older\n' + '1.0 2.0\n' * 5000)

        if mode == 'link':
            # The outputs are links to files elsewhere, some of which exist
            self.links = {}
            for i, p in enumerate(sorted(wanted())):
                os.makedirs(os.path.join(folder, os.path.dirname(p)), exist_ok=True)
                target = os.path.join(self.elsewhere(), 'target-%d' % i)
                if i % 2 == 0:
                    with open(target, 'w') as fh:
                        fh.write('# title: older\n' + '1.0 2.0\n' * 500)
                os.symlink(target, os.path.join(folder, p))
                self.links[p] = target

        def calculate():
            if case['how'] == 'do':
                c.do()
            elif case['how'] == 'twice':
                c.do()
                c.do()
            else:
                c.compute()
                if case['how'] == 'write':
                    for part in parts.values():
                        part.analyze()
                c.write()
            self.calls += 1

        if mode == 'stdout':
            text = self.capture(calculate)
        else:
            text = self.capture(calculate)
            if text:
                raise Violation('unexpected output: %s' % text[:200])
        after = self.listing(folder)
        for f in before:
            if after.pop(f, None) != before[f]:
                raise Violation('%s was modified' % f)
        expected = wanted()
        if set(after) != set(expected):
            raise Violation('files %s instead of %s' % (sorted(after), sorted(expected)))
        if mode == 'link':
            for p, target in self.links.items():
                if not os.path.islink(os.path.join(folder, p)) or os.readlink(os.path.join(folder, p)) != target:
                    raise Violation('the link %s was replaced' % p)
            if sorted(os.listdir(self.elsewhere())) != sorted(os.path.basename(x) for x in self.links.values()):
                raise Violation('files %s next to the target of the links' % os.listdir(self.elsewhere()))
        for p, (corr, key, short) in expected.items():
            if short == 'tau':
                self.tau(p, after[p], corr)
                continue
            self.data(p, after[p], expected_rows(corr))
            self.header(p, after[p], LONG[short], short, descriptions[key], corr.analysis, corr.comments)
        if mode == 'stdout':
            self.stdout(case, text, parts, descriptions)
        elif expected and name not in FOURIER_TIME + ['s4kt']:
            self.reread(case, folder, filename, expected, pattern if PATTERNS[mode] else None)
        self.outcome(name, case['select'], mode, sorted(after))

    def tau(self, p, text, corr):
        comments, rows = parse(text)
        tau = corr.analysis['relaxation times tau']
        rows_ = [[k] if t is None else [k, t] for k, t in tau.items()]
        self.data(p, text, rows_)
        if sorted(x[0] for x in rows_) != sorted(plain(corr.grid[0])):
            raise Violation('%s: relaxation times for %s' % (p, rows_))
        if '# columns: k, tau(k)' not in comments:
            raise Violation('%s: header %s' % (p, comments))

    def stdout(self, case, text, parts, descriptions):
        """All tables, one after the other"""
        blocks = {}
        for block in text.split('# title: ')[1:]:
            block = '# title: ' + block
            blocks.setdefault(block.split('\n')[0], []).append(block)
        n = 0
        for key, part in parts.items():
            todo = [(part, SHORT[case['class_']])]
            if case['class_'].startswith('chi4'):
                todo += [(part.average, 'Q^u(t)'), (part.variance, 'Q_2^u(t)')]
            for corr, short in todo:
                n += 1
                title = [x for x in blocks if short in x and descriptions[key] in x and LONG[short] in x]
                if len(title) != 1:
                    raise Violation('titles for %s %s on the standard output: %s' % (short, key, list(blocks)))
                if case['how'] == 'twice' and len(blocks[title[0]]) != 2:
                    raise Violation('%d tables instead of 2' % len(blocks[title[0]]))
                self.data('stdout', blocks[title[0]][-1], expected_rows(corr))
        if len(blocks) != n:
            raise Violation('tables on the standard output: %s' % list(blocks))

    def reread(self, case, folder, filename, expected, pattern):
        c, parts, _, _ = self.setup_object(case, folder, filename)
        if pattern:
            c.output_path = pattern
        for key, part in parts.items():
            done = [x for x, k, s in expected.values() if k == key and s == SHORT[case['class_']]][0]
            rows = expected_rows(done)
            part.read()
            got = [[a, b] for a, b in zip(plain(part.grid), plain(part.value))]
            if len(got) != len(rows) or not all(agree(a, b) for p, q in zip(rows, got) for a, b in zip(p, q)):
                raise Violation('read() gives %s instead of %s' % (got, rows))
            self.compared += 1

    @staticmethod
    def capture(func):
        """What func() writes to the standard output"""
        import sys
        r, w = os.pipe()
        sys.stdout.flush()
        saved = os.dup(1)
        os.dup2(w, 1)
        os.close(w)
        import fcntl
        fcntl.fcntl(r, 1031, 1 << 20)
        try:
            func()
            sys.stdout.flush()
        finally:
            os.dup2(saved, 1)
            os.close(saved)
            chunks = []
            while True:
                x = os.read(r, 1 << 20)
                if not x:
                    break
                chunks.append(x)
            os.close(r)
        return b''.join(chunks).decode()

    # The bond angle distribution with default cutoffs leaves no other files

    def part_c(self, case, folder):
        import atooms.postprocessing as pp
        import atooms.postprocessing.core as core
        mode = case['output']
        if mode in ('stdout', 'older', 'bare'):
            return
        world = World(layout=case['layout'], frames=case['frames'], L=4.0)
        filename = None if mode.startswith('memory') else os.path.join(folder, 'traj')
        c = pp.BondAngleDistribution(world.trajectory(filename), dtheta=20.0)
        pattern = PATTERNS[mode]
        if mode == 'none':
            c.output_path = None
        elif pattern:
            c.output_path = pattern.replace('{folder}', folder)
        try:
            c.do()
        except (KeyError, IndexError):
            # Not enough particles to define the cutoffs
            return
        self.calls += 1
        files = self.listing(folder)
        n = 0 if mode in ('none', 'memory') else 1
        if len(files) != n:
            raise Violation('files %s' % sorted(files))
        for p in files:
            self.data(p, files[p], expected_rows(c))
            self.header(p, files[p], c.long_name, 'D(theta)', 'the whole system', c.analysis)
            number = len(set(case['layout']))**2
            if sum('cutoff' in x for x in files[p].split('\n')) != number:
                raise Violation('cutoff distances in the header of %s: %s' % (p, files[p][:500]))
