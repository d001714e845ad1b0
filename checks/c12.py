"""
C12: a filtered correlation is the correlation of the selected particles; Partial
gives what the filters give; partial results recombine into the total one.

Space: (A) all assignments of up to 3 species to 5 (6) particles x all functions x
all species lists of Partial; (B) all boolean filters over an alphabet of
attributes x all functions x configurations within a bound of deviations; (C)
pairs of filters for two-body functions, in presence of third particles which
must not matter, and sum rules.
"""
import copy
import itertools
import numpy
from mc.build import ALL, TWO_BODY, STATIC, ONLY_3D, make, arguments, cls as get_class, observe
from mc.engine import Check as Base, Violation, deviations
from mc.worlds import World, close

NAMES = [n for n in ALL if n != 'ik']

# Expression, and what it means
CONDITIONS = [
    ('species == "A"', lambda p: p.species == 'A'),
    ('species != "A"', lambda p: p.species != 'A'),
    ("species == 'B'", lambda p: p.species == 'B'),
    ('mass > 1.2', lambda p: p.mass > 1.2),
    ('mass == 1.0', lambda p: p.mass == 1.0),
    ('radius <= 0.35', lambda p: p.radius <= 0.35),
    ('species == "A" and mass > 1.2', lambda p: p.species == 'A' and p.mass > 1.2),
    ('species == "B" or radius < 0.33', lambda p: p.species == 'B' or p.radius < 0.33),
    ('not species == "A"', lambda p: not p.species == 'A'),
    ('not (species == "A" or mass > 1.2)', lambda p: not (p.species == 'A' or p.mass > 1.2)),
    ('tagged % 2 == 0', lambda p: p.tagged % 2 == 0),
    ('mass * radius < 0.5', lambda p: p.mass * p.radius < 0.5),
    # These vary from frame to frame
    ('position[0] > 0', lambda p: p.position[0] > 0),
    ('position[0] > 0 and species == "A"', lambda p: p.position[0] > 0 and p.species == 'A'),
    ('charge < 0.3', lambda p: p.charge < 0.3),
    ('abs(velocity[1]) < 0.5', lambda p: abs(p.velocity[1]) < 0.5),
]


def subset(world, keep):
    """The world with the particles satisfying a condition only"""
    sub = copy.copy(world)
    for key in ('pos', 'unw', 'vel', 'species', 'index'):
        setattr(sub, key, list(getattr(world, key)))
    for f in range(world.frames):
        p = world.system(f).particle
        which = [i for i in range(len(p)) if keep(p[i])]
        sub.pos[f] = world.pos[f][which]
        sub.unw[f] = world.unw[f][which]
        sub.vel[f] = world.vel[f][which]
        sub.species[f] = [world.species[f][i] for i in which]
        sub.index[f] = [world.index[f][i] for i in which]
    return sub


def constant(world):
    return all(x == world.index[0] for x in world.index)


def populated(*worlds):
    return all(len(w.pos[f]) not in (0, w.ndim) for w in worlds for f in range(w.frames))


def pick(system, keep, negate=False):
    """A filter callback with arguments"""
    s = copy.copy(system)
    s.particle = [p for p in system.particle if bool(keep(p)) != negate]
    return s


class Check(Base):

    pid = 'C12'
    bounds = ('A: all assignments of species {A,B,C} to 5 particles in 3D (thorough: also 6 in 3D, 5 in 2D) x 16 functions x Partial over 5 '
              'lists of species; B: 16 conditions (expression and callback) x 16 functions x all configurations with <=1 (thorough: 2) '
              'deviations over 8 axes; C: all pairs of 7 conditions x 6 two-body functions x configurations with <=1 (2) deviations')
    assumptions = ['no group is empty or has as many particles as there are dimensions (atooms does not dump those)',
                   'the selection does not change in time for functions of time (and is not based on positions, which may be unfolded)', 'the species present in the first frame are all there are for angles', 'the spectral density accepts no filters',
                   'rounding below 1e-8']

    def cases(self):
        for n, ndim in ((5, 3), (6, 3), (5, 2)) if self.thorough else ((5, 3), ):
            for layout in itertools.product('ABC', repeat=n):
                if layout[0] == 'A':
                    yield {'part': 'A', 'layout': ''.join(layout), 'ndim': ndim}
        axes = {
            'ndim': [3, 2],
            'layout': ['AABABBABAB', 'ABAABBBACCBA'],
            'frames': [3, 1, 5],
            'steps': ['lin10', 'log3'],
            'cell': ['cubic', 'ortho', 'long', 'var'],
            'storage': ['center', 'corner', 'unfolded_attr', 'images'],
            'nvar': ['none', 'swap', 'gc'],
            'norigins': ['default', -1, '1', 2],
            'cache': [False, True],
            'seed': [0, 1],
        }
        for case in deviations(axes, 2 if self.thorough else 1):
            for name in NAMES:
                if self.valid(name, case):
                    yield dict(case, part='B', name=name)
                    if name in TWO_BODY:
                        yield dict(case, part='C', name=name)

    @staticmethod
    def valid(name, case):
        if case['ndim'] != 3 and name in ONLY_3D + ['skfast']:
            return False
        if name not in STATIC and (case['nvar'] != 'none' or case['cell'] == 'var'):
            return False
        return True

    def world(self, case):
        return World(ndim=case['ndim'], layout=case['layout'], frames=case['frames'], steps=case['steps'], cell=case['cell'],
                     nvar=case['nvar'], seed=case['seed'], masses='mixed', unfolded_attr=case['storage'] == 'unfolded_attr',
                     origin='corner' if case['storage'] == 'corner' else 'center',
                     images=1 if case['storage'] == 'images' else 0)

    def run(self, case):
        if case['part'] == 'A':
            return self.species(case)
        world = self.world(case)
        extra = {} if case['norigins'] == 'default' else {'norigins': case['norigins']}
        if case['part'] == 'B':
            return self.conditions(case, world, extra)
        self.two(case, world, extra)

    def get(self, corr):
        corr.compute()
        self.calls += 1
        return observe(corr)

    def same(self, what, a, b):
        if not self.equal(a, b):
            raise Violation('%s: %s instead of %s' % (what, a, b))
        self.compared += 1

    @staticmethod
    def equal(a, b):
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and all(Check.equal(x, y) for x, y in zip(a, b))
        return close(a, b, rtol=1e-7, atol=1e-8)

    def species(self, case):
        from atooms.postprocessing.partial import Partial
        world = World(ndim=case['ndim'], layout=case['layout'], frames=3, amp=0.15)
        present = sorted(set(case['layout']))
        sub = {x: subset(world, lambda p, x=x: p.species == x) for x in present}
        ok = [x for x in present if populated(sub[x])]
        lists = [present, present[::-1], present[:1], present[-1:], present[1:] + present[:1]]
        lists = [list(x) for x in sorted({tuple(x) for x in lists})]
        lists = [x for x in lists if all(y in ok for y in x)]
        for name in NAMES:
            if case['ndim'] != 3 and name in ONLY_3D + ['skfast']:
                continue
            args, kwargs = arguments(name, world)
            if 'tgrid' in kwargs and name.startswith('f') or name == 's4kt':
                kwargs['nk'] = 2
            alone = {x: self.get(get_class(name)(sub[x].trajectory(), *args, **self.own(name, kwargs, sub[x]))) for x in ok
                     if name not in TWO_BODY or name != 'ba'}
            for which in lists:
                partial = Partial(get_class(name), list(which), world.trajectory(), *args, **copy.deepcopy(kwargs))
                partial.compute()
                self.calls += 1
                if name not in TWO_BODY:
                    if set(partial.partial) != set(which):
                        raise Violation('%s: partials %s of species %s' % (name, set(partial.partial), which))
                    for x in which:
                        self.same('%s: partial %s of %s' % (name, x, which), observe(partial.partial[x]), alone[x])
                    continue
                if set(partial.partial) != set(itertools.product(which, which)):
                    raise Violation('%s: partials %s of species %s' % (name, set(partial.partial), which))
                for x, y in itertools.product(which, which):
                    what = '%s: partial %s-%s of %s' % (name, x, y, which)
                    if x == y and name != 'ba':
                        self.same(what, observe(partial.partial[x, x]), alone[x])
                        continue
                    # The pair in absence of other particles
                    pair = subset(world, lambda p: p.species in (x, y))
                    if not populated(pair):
                        continue
                    c = get_class(name)(pair.trajectory(), *args, **self.own(name, kwargs, pair))
                    c.add_filter(pick, lambda p: p.species == x)
                    if x != y:
                        c.add_filter(pick, keep=lambda p: p.species == y)
                    self.same(what, observe(partial.partial[x, y]), self.get(c))
            if ok == present:
                self.sum_rules(name, world, present, args, kwargs)
        self.outcome(case['layout'], len(lists))

    def own(self, name, kwargs, world):
        """The cutoffs depend on the species which are present"""
        kwargs = copy.deepcopy(kwargs)
        if name == 'ba':
            n = len({x for s in world.species for x in s})
            kwargs['rcut'] = [[2.6] * n for _ in range(n)]
        return kwargs

    def sum_rules(self, name, world, present, args, kwargs):
        from atooms.postprocessing.partial import Partial
        kwargs = copy.deepcopy(kwargs)
        if name in ('fskt', 'fsktlegacy', 'fkt'):
            kwargs['normalize'] = False
        if not populated(world):
            return
        n = {x: numpy.mean([len(world.select(f, x)) for f in range(world.frames)]) for x in present}
        total_n = sum(n.values())
        partial = Partial(get_class(name), present, world.trajectory(), *args, **copy.deepcopy(kwargs))
        if name in ('msd', 'vacf', 'qst', 'fskt', 'fsktlegacy'):
            weights = {x: n[x] / total_n for x in present}
        elif name in ('gr', 'grlegacy'):
            weights = {(x, y): n[x] * n[y] / total_n**2 for x in present for y in present}
        elif name in ('sk', 'skfast'):
            weights = {(x, y): (n[x] * n[y])**0.5 / total_n for x in present for y in present}
        elif name == 'fkt':
            weights = {(x, y): 1.0 for x in present for y in present}
        else:
            return
        total = self.get(get_class(name)(world.trajectory(), *args, **copy.deepcopy(kwargs)))
        partial.compute()
        value = 0.0
        for key, w in weights.items():
            grid, y = observe(partial.partial[key])
            if not self.equal(grid, total[0]):
                raise Violation('%s: grid of partial %s: %s instead of %s' % (name, key, grid, total[0]))
            value = value + w * numpy.array(y)
        self.same('%s: sum of the partials' % name, numpy.array(value).tolist(), total[1])

    def conditions(self, case, world, extra):
        from atooms.postprocessing.filter import Filter
        name = case['name']
        for expr, keep in CONDITIONS:
            sub = subset(world, keep)
            if not populated(world, sub):
                continue
            if name not in STATIC and (not constant(sub) or 'position' in expr):
                continue
            if name == 'ba' and any(not set(x) <= set(w.species[0]) for w in (world, sub) for x in w.species):
                continue
            kwargs = dict(arguments(name, world)[1])
            who = '%s filtered by %s' % (name, expr)
            if name == 'ba':
                # The central particles and the neighbors are subsets
                sub_kwargs = self.own(name, kwargs, sub)
            else:
                sub_kwargs = copy.deepcopy(kwargs)
            expected = self.get(get_class(name)(sub.trajectory(), **dict(sub_kwargs, **extra)))
            if name == 'ba' and any(x != x for x in expected[1]):
                continue
            c = make(name, world.trajectory(cache=case['cache']), world, **extra)
            c.add_filter(pick, keep)
            self.same(who + ' (callback)', self.get(c), expected)
            c = make(name, world.trajectory(cache=case['cache']), world, **extra)
            c.add_filter(pick, lambda p: not keep(p), negate=True)
            self.same(who + ' (callback with arguments)', self.get(c), expected)
            c = make(name, world.trajectory(cache=case['cache']), world, **extra)
            if name not in TWO_BODY:
                out = Filter(c, expr)
                if out is not c:
                    raise Violation('Filter() does not return the correlation object')
                self.same(who + ' (expression)', self.get(c), expected)
            else:
                Filter(c, expr + ', ' + expr)
                value = self.get(c)
                d = make(name, world.trajectory(cache=case['cache']), world, **extra)
                d.add_filter(pick, keep)
                d.add_filter(pick, keep)
                self.same(who + ' (two equal expressions)', value, self.get(d))
                if name != 'fkt':
                    self.same(who + ' (two equal expressions)', value, expected)
            self.outcome(expr, expected)

    def two(self, case, world, extra):
        """Two groups"""
        from atooms.postprocessing.filter import Filter
        name = case['name']
        some = [CONDITIONS[i] for i in (0, 1, 2, 3, 7, 10)] + [('True', lambda p: True)]
        if name in STATIC:
            some += [CONDITIONS[13]]
        for (e0, k0), (e1, k1) in itertools.product(some, some):
            s0, s1 = subset(world, k0), subset(world, k1)
            both = subset(world, lambda p: k0(p) or k1(p))
            if not populated(world, s0, s1, both):
                continue
            if name not in STATIC and not (constant(s0) and constant(s1)):
                continue
            if name == 'ba' and any(not set(x) <= set(w.species[0]) for w in (world, both) for x in w.species):
                continue
            c = make(name, world.trajectory(cache=case['cache']), world, **extra)
            Filter(c, e0 + ',' + e1)
            got = self.get(c)
            if name == 'ba' and any(x != x for x in got[1]):
                continue
            # Only these particles matter
            kwargs = self.own(name, arguments(name, world)[1], both)
            c = get_class(name)(both.trajectory(), **dict(kwargs, **extra))
            c.add_filter(pick, keep=k0)
            c.add_filter(pick, keep=k1)
            self.same('%s filtered by %s and %s' % (name, e0, e1), got, self.get(c))
            if name in ('sk', 'skfast'):
                # The weights are those of the particles in each group
                for fluctuations in (False, True):
                    values = []
                    for w, filters in ((world, (k0, k1)), (both, (k0, k1)), (world, None)):
                        c = make(name, w.trajectory(cache=case['cache']), w, **extra)
                        if filters:
                            c.add_filter(pick, keep=k0)
                            c.add_filter(pick, keep=k1)
                        else:
                            Filter(c, e0 + ',' + e1)
                        c.add_weight(field='charge', fluctuations=fluctuations)
                        values.append(self.get(c))
                    self.same('%s weighted and filtered by %s and %s' % (name, e0, e1), values[0], values[1])
                    self.same('%s weighted and filtered by %s and %s' % (name, e0, e1), values[2], values[1])
                    if e0 == e1:
                        c = make(name, s0.trajectory(), s0, **extra)
                        c.add_weight(field='charge', fluctuations=fluctuations)
                        self.same('%s weighted and filtered by %s twice' % (name, e0), values[0], self.get(c))
            if e1 == 'True' and e0 != 'True':
                # One condition: the second group is the whole system
                c = make(name, world.trajectory(cache=case['cache']), world, **extra)
                Filter(c, e0)
                self.same('%s filtered by %s' % (name, e0), self.get(c), got)
            if name not in ('ba', 'fkt'):
                c = make(name, world.trajectory(), world, **extra)
                Filter(c, e1 + ',' + e0)
                self.same('%s: %s and %s exchanged' % (name, e0, e1), got, self.get(c))
            self.outcome(e0, e1, got)
        # A third filter makes no sense, it must not be ignored silently
        c = make(name, world.trajectory(), world, **extra)
        c.add_filter(pick, some[0][1])
        c.add_filter(pick, some[1][1])
        try:
            c.add_filter(pick, some[2][1])
        except ValueError:
            return
        raise Violation('%s: three filters were accepted' % name)
