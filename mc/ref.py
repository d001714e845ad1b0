"""
Reference models: plain, slow definitions of the correlation functions, evaluated
on the exactly known paths of a World.  None of this shares code with /repo.
"""
import math
import numpy


# Time origins and time grid

def block_size(steps):
    """Period of the sampling: 1 for uniform sampling, the number of frames in a block otherwise"""
    n = len(steps)
    if n < 2:
        return 1
    delta = [steps[i + 1] - steps[i] for i in range(n - 1)]
    if all(x == delta[0] for x in delta):
        return 1
    for i in range(1, len(delta)):
        if delta[i] < delta[i - 1] and delta[i] == delta[0]:
            return i
    if delta[0] == delta[-1]:
        return 1
    return n


def interval(norigins, steps, npart):
    """Interval, in frames, between successive time origins"""
    n, b = len(steps), block_size(steps)
    if norigins is None:
        if b == 1:
            s = int(n * npart / 40000.0)
        else:
            s = b
    else:
        x = float(norigins)
        if x < 0:
            s = b
        elif norigins == '1.0':
            s = b
        elif x > 1:
            s = max(1, int(math.floor((n // b) / x))) * b
        elif x == 1:
            s = n
        else:
            s = int(1 / x) * b
    return min(n, max(1, s))


def single_origin(norigins):
    return norigins in ('1', 1)


def separations(steps, offset=True):
    """
    Available time separations (in steps) -> (first frame from which it is
    available within the first block, number of frames)
    """
    n = len(steps)
    out = {}
    for off in range(block_size(steps) if offset else 1):
        for j in range(off, n - off):
            out.setdefault(steps[j] - steps[off], (off, j - off))
    return out


def nearest(available, wanted):
    """Available separations nearest to the requested ones (all, if there are ties)"""
    best = min(abs(x - wanted) for x in available)
    return [x for x in sorted(available) if abs(x - wanted) == best]


def selected(steps, timestep, tgrid, offset=True):
    """Set of separations selected by the requested times (ties: the shorter)"""
    av = separations(steps, offset)
    return {x: av[x] for x in sorted({nearest(av, int(round(t / timestep)))[0] for t in tgrid})}


def time_average(steps, sel, skip, f):
    """
    Average of f(i0, j) over pairs of frames (i0, j) for each selected
    separation, where the origins i0 start from the first possible frame and are
    spaced by `skip` frames
    """
    acc, cnt = {}, {}
    n = len(steps)
    for sep, (off, di) in sel.items():
        i0 = off
        while i0 + di < n:
            dt = steps[i0 + di] - steps[i0]
            acc[dt] = acc.get(dt, 0.0) + f(i0, i0 + di)
            cnt[dt] = cnt.get(dt, 0) + 1
            i0 += skip
    dts = sorted(acc)
    return dts, [acc[t] / cnt[t] for t in dts]


# One-body functions of two frames

def msd(a, b):
    return sum(float(numpy.dot(x - y, x - y)) for x, y in zip(a, b)) / len(a)


def alpha2(a, b):
    d = a.shape[1]
    r2 = [float(numpy.dot(x - y, x - y)) for x, y in zip(a, b)]
    m2 = sum(r2) / len(r2)
    m4 = sum(x**2 for x in r2) / len(r2)
    if m2 < 1e-20:
        return float('nan')  # not defined
    return d / (d + 2.0) * m4 / m2**2 - 1


def vacf(a, b):
    return sum(float(numpy.dot(x, y)) for x, y in zip(a, b)) / len(a)


def self_overlap(a, b, cut):
    return sum(1.0 for x, y in zip(a, b) if float(numpy.dot(x - y, x - y)) < cut**2)


def collective_overlap(a, b, cut):
    return sum(1.0 for x in a for y in b if float(numpy.dot(x - y, x - y)) < cut**2)


# Statics

def minimum_image(dr, side):
    return dr - numpy.rint(dr / side) * side


def shell_volume(a, b, ndim):
    if ndim == 2:
        return math.pi * (b**2 - a**2)
    if ndim == 3:
        return 4 * math.pi / 3 * (b**3 - a**3)
    return math.pi**(ndim / 2.0) / math.gamma(ndim / 2.0 + 1) * (b**ndim - a**ndim)


def pair_distances(a, b, side, same):
    """Distances between all pairs (each pair once if `same`)"""
    out = []
    for i in range(len(a)):
        for j in range(i + 1 if same else 0, len(b)):
            dr = a[i] - b[j]
            if side is not None:
                dr = minimum_image(dr, side)
            out.append(math.sqrt(float(numpy.dot(dr, dr))))
    return out


def rho_k(pos, kvec, weight=None):
    """Fourier transform of the density at wave-vector kvec"""
    z = 0j
    for i in range(len(pos)):
        phase = float(numpy.dot(pos[i], kvec))
        w = 1.0 if weight is None else weight[i]
        z += w * complex(math.cos(phase), math.sin(phase))
    return z


def wavevectors(kgrid, dk, side):
    """
    Shells of wave-vectors commensurate with the cell: for every entry of the
    sorted grid, the vectors within dk of it that do not fit in a previous
    shell.  Empty shells are widened by 20% until they are not.
    """
    k0 = 2 * math.pi / numpy.array(side)
    kgrid = sorted(kgrid)
    if kgrid[0] < 0:
        kgrid[0] = min(k0)
    dk = [float(dk)] * len(kgrid)
    d = len(k0)
    for _ in range(200):
        kmax = kgrid[-1] + dk[-1]
        n = 1 + int(kmax / min(k0))
        axes = [numpy.arange(-n, n + 1)] * d
        grid = numpy.stack(numpy.meshgrid(*axes, indexing='ij'), axis=-1).reshape(-1, d)
        norms = numpy.sqrt(((grid * k0)**2).sum(axis=1))
        norms[norms > kmax * (1 + 1e-12)] = numpy.inf
        shells = []
        for i in range(len(kgrid)):
            inside = numpy.abs(norms - kgrid[i]) < dk[i]
            shells.append([tuple(int(x) for x in v) for v in grid[inside]])
            norms[inside] = numpy.inf
        empty = [i for i in range(len(kgrid)) if not shells[i]]
        if not empty:
            return kgrid, dk, shells
        for i in empty:
            dk[i] *= 1.2
    raise RuntimeError('no wave-vectors found')


def distance_matrix(a, b, side=None):
    """All the distances |a_i - b_j| (minimum image if there is a cell)"""
    dr = a[:, None, :] - b[None, :, :]
    if side is not None:
        dr = minimum_image(dr, numpy.asarray(side))
    return numpy.sqrt((dr**2).sum(axis=2))


def pairs(a, b, side, same):
    """Distances of all the pairs of distinct particles: once if `same`, ordered otherwise"""
    if len(a) == 0 or len(b) == 0:
        return numpy.zeros(0)
    d = distance_matrix(a, b, side)
    if same:
        return d[numpy.triu_indices(len(a), 1)]
    d = d.ravel()
    return d[d > 0.0]


def radial_distribution(frames, edges, ndim, same):
    """
    `frames` is a list of (positions of group 0, positions of group 1, side used for
    minimum images or None, volume)
    """
    hists, n0, n1 = [], [], []
    for a, b, side, volume in frames:
        d = pairs(a, b, side, same)
        hists.append(numpy.array([numpy.sum((d >= edges[k]) & (d < edges[k + 1])) for k in range(len(edges) - 1)]) * volume)
        n0.append(len(a))
        n1.append(len(b))
    shells = numpy.array([shell_volume(edges[k], edges[k + 1], ndim) for k in range(len(edges) - 1)])
    norm = shells * numpy.mean(n0) * numpy.mean(n1) * (0.5 if same else 1.0)
    return numpy.mean(hists, axis=0) / norm
