"""Saved results (save_results / load_results)"""
import os
import shutil
import tempfile
from .common import *

TITLE = 'Saved results load back unchanged, with the data only when asked for'
META = dict(
    title=TITLE,
    statement='Saving any computed statistic and loading the file gives a separate object of the same class whose results, header and settings equal those of '
              'the saved one at the time of saving, whatever happens to that one afterwards; the data are left out of the file unless asked for and then are equal too. '
              'The file has the given name, with the extension .pkl added exactly when missing. Saving never changes the object in memory, which keeps its data, results and '
              'the maps of the caller and can be computed, saved and loaded again.',
    quantifier=dict(over=['inputs', 'histories'], text='all data values within bounds for the listed statistics; save, change, save again and load'),
    why_tests_cant='Tests save a few objects and look at one number of the loaded one; what happens to the object in memory and to later changes is never checked.',
    anchors=dict(files=['turbustat/statistics/base_statistic.py', 'turbustat/statistics/mvc/mvc.py'],
                 mechanism=[dict(name='save_results', where='turbustat/statistics/base_statistic.py:128'),
                            dict(name='load_results', where='turbustat/statistics/base_statistic.py:154'),
                            dict(name='MVC.save_results', where='turbustat/statistics/mvc/mvc.py:200')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'the pickle serializer itself (in symbolic runs a stand-in keeps a deep copy of what it is given per file name; replays use the real one), statistics that are not listed'
ASSUMPTIONS = ['pickle.load of a file returns an object equal to the one last given to pickle.dump for that file']


class FakePickle:
    """dump/load for symbolic values: deep copy at the time of dumping, per file"""

    def __init__(self, real):
        import copy
        self.copy = copy.deepcopy
        self.real = real
        self.store = {}

    def dump(self, obj, f, *a, **k):
        self.store[os.path.realpath(f.name)] = self.copy(obj)
        f.write(b'saved')

    def load(self, f, **k):
        import pickle
        p = os.path.realpath(f.name)
        if p not in self.store:
            raise pickle.UnpicklingError('nothing was saved as ' + p)
        return self.copy(self.store[p])


def make(kind, I):
    """object with symbolic data and its public results"""
    import turbustat.statistics as S
    import astropy.units as u
    if kind == 'mvc':
        maps = [I.arr(n, (3, 3), lo=0, hi=2) for n in ('centroid', 'intensity', 'width')]

        def new():
            v = S.MVC(*maps, header=hdr2())
            v.compute_pspec()
            return v
        return new, maps, ('ps2D', 'shape'), ('centroid', 'moment0', 'linewidth')
    if kind == 'pspec':
        x = I.arr('x', (3, 4), lo=-2, hi=2)

        def new():
            v = S.PowerSpectrum(x, header=hdr2(), distance=250 * u.pc)
            v.compute_pspec()
            return v
        return new, [x], ('ps2D', 'distance'), ('data',)
    if kind == 'vcs':
        x = I.arr('x', (3, 2, 2), lo=-2, hi=2)

        def new():
            v = S.VCS(x, header=hdr3())
            v.compute_pspec()
            return v
        return new, [x], ('ps1D', 'freqs'), ('data',)
    if kind == 'scf':
        x = pack(I, asobj(np.array([[[2., 1., 3.], [1., 3., 2.]], [[3., 2., 2.], [2., 1., 1.]]])))
        x[0, 1, 2], x[1, 0, 1] = I.real('x0', 1, 3), I.real('x1', 1, 3)

        def new():
            v = S.SCF(x, header=hdr3(), size=3)
            v.compute_surface()
            return v
        return new, [x], ('scf_surface', 'roll_lags', 'size'), ('data',)
    if kind == 'pca':
        x = I.arr('x', (2, 2, 2), lo=-1, hi=1)

        def new():
            v = S.PCA((x, hdr3()))
            v.compute_pca(mean_sub=True, n_eigs=2)
            return v
        return new, [x], ('cov_matrix', 'n_eigs', 'eigvals'), ('data',)
    if kind == 'statmoments':
        x = pack(I, asobj(np.arange(16.).reshape(4, 4) % 5))
        x[1, 2], x[3, 0] = I.real('x0', -2, 2), I.real('x1', -2, 2)

        def new():
            v = S.StatMoments(x, header=hdr2(), radius=2 * u.pix)
            v.array_moments()
            return v
        return new, [x], ('mean', 'variance', 'radius'), ('data',)
    if kind == 'pdf':
        x = I.arr('x', (2, 2), lo=0.5, hi=2)

        def new():
            v = S.PDF(x, bins=np.array([0.4, 1.0, 2.1]))
            v.make_pdf()
            return v
        return new, [x], ('pdf', 'bins'), ()
    if kind == 'bispectrum':
        x = I.arr('x', (4, 4), lo=-1, hi=1)
        y = np.arange(16.).reshape(4, 4) ** 2

        def new():
            z = pack(I, asobj(y))
            z[1, 2] = x[0, 0]
            v = S.Bispectrum(z)
            v.compute_bispectrum(nsamples=1)
            return v
        return new, [x], ('bispectrum', 'bicoherence'), ('data',)
    raise ValueError(kind)


def arrval(x):
    return x.value if hasattr(x, 'unit') else x


def same(I, label, a, b):
    I.true(label + ' present', (a is None) == (b is None))
    if a is None:
        return
    if hasattr(a, 'unit') or hasattr(b, 'unit'):
        I.true(label + ' unit', getattr(a, 'unit', None) == getattr(b, 'unit', None))
    I.eq(label, arrval(a), arrval(b))


def cp(x):
    return x.copy() if hasattr(x, 'copy') else x


def ob(kind, keep=False, ext=True, again=False, change=False):
    def body(I):
        import contextlib
        import _pickle
        new, inputs, results, datas = make(kind, I)
        snaps = [I.snapshot(x) for x in inputs]
        tmp = tempfile.mkdtemp(prefix='p28-')
        try:
            with contextlib.ExitStack() as st:
                if I.sym:
                    f = FakePickle(_pickle)
                    st.enter_context(I.stub('_pickle.dump', f.dump))
                    st.enter_context(I.stub('_pickle.load', f.load))
                with I.code():
                    v = new()
                    cls = type(v)
                    before = {n: cp(getattr(v, n)) for n in results}
                    olddata = {n: cp(getattr(v, n)) for n in datas}
                    name = os.path.join(tmp, ('outpkl' if keep else 'a.pkl.b') if not ext else 'res.pkl')
                    full = name if ext else name + '.pkl'
                    v.save_results(name, keep_data=keep) if keep else v.save_results(name)
                    files = sorted(os.listdir(tmp))
                    if again:
                        v.save_results(os.path.join(tmp, 'other'))
                        w2 = cls.load_results(os.path.join(tmp, 'other.pkl'))
                    mem = {n: cp(getattr(v, n)) for n in results + datas}
                    if change:
                        for n in results:
                            r = getattr(v, n)
                            if isinstance(r, np.ndarray) and not hasattr(r, 'unit') and r.flags.writeable:
                                r += 1.0
                        for x in inputs:
                            x += 1.0
                    w = cls.load_results(full)
                    got = {n: getattr(w, n) for n in results + datas}
                    hd = (getattr(v, 'header', None), getattr(w, 'header', None))
            I.true('one file of the given name', files == [os.path.basename(full)])
            I.true('same class', type(w) is cls and w is not v)
            if hd[0] is not None:
                I.true('header', hd[1] is not None and hd[0].tostring() == hd[1].tostring())
            for n in results:
                same(I, 'loaded ' + n, got[n], before[n])
                same(I, n + ' in memory', mem[n], before[n])
                if again:
                    same(I, 'second file ' + n, getattr(w2, n), before[n])
            for n in datas:
                same(I, n + ' in memory', mem[n], olddata[n])
                if keep:
                    same(I, 'loaded ' + n, got[n], olddata[n])
                else:
                    I.true('%s left out of the file' % n, got[n] is None)
            if not change:
                for i, (x, s) in enumerate(zip(inputs, snaps)):
                    I.unchanged('input %d' % i, x, s)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    nm = '%s%s%s%s%s' % (kind, '-data' if keep else '', '' if ext else '-noext', '-again' if again else '', '-changed' if change else '')
    return Ob(nm, body, 'all data values within [-2,3] of the listed small shape; names with and without extension')


def obligations(tier):
    o = []
    for k in ('pspec', 'mvc', 'vcs', 'scf', 'pca', 'statmoments', 'pdf', 'bispectrum'):
        o += [ob(k), ob(k, keep=True, ext=False, again=True)]
    for k in ('pspec', 'mvc', 'scf'):
        o += [ob(k, change=True), ob(k, keep=True, change=True), ob(k, ext=False)]
    if tier == 'thorough':
        for k in ('vcs', 'pca', 'statmoments', 'bispectrum'):
            o += [ob(k, change=True), ob(k, keep=True, change=True, again=True)]
    return o
