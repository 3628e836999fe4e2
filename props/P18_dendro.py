"""Dendrogram statistics"""
import contextlib

from props.common import *

TITLE = 'Dendrogram statistics count and compare the features at every branch contrast'
META = dict(
    title=TITLE,
    statement='For every data set and increasing list of minimum contrasts, the dendrogram is built at the first and pruned to '
              'each further contrast in turn, and the number and peak values of its structures are recorded per contrast. The '
              'feature-number slope and its robust error are those of the least-squares line of log number on log contrast from the '
              'position of largest local scatter on, ignoring contrasts with fewer than two features, and the histograms use '
              'the given or default bins at every contrast. Distances compare both data sets at the same contrasts: the mean '
              'Hellinger distance of standardised peak values on common bins below the cutoff, and the error-weighted slope '
              'difference, leaving the option sets given by the caller as they were.',
    quantifier=dict(over=['inputs', 'histories'], text='all dendrograms (arbitrary structures per contrast), feature numbers and values within bounds'),
    why_tests_cant='One pair of cubes is pinned; recomputing a given object at other contrasts, rows with different bin numbers '
                   'or option sets for the second data set are never run.',
    anchors=dict(files=['turbustat/statistics/dendrograms/dendro_stats.py', 'turbustat/statistics/dendrograms/mecdf.py'],
                 mechanism=[dict(name='Dendrogram_Stats.compute_dendro', where='turbustat/statistics/dendrograms/dendro_stats.py:130'),
                            dict(name='Dendrogram_Stats.fit_numfeat', where='turbustat/statistics/dendrograms/dendro_stats.py:252'),
                            dict(name='Dendrogram_Distance', where='turbustat/statistics/dendrograms/dendro_stats.py:455')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'the dendrogram algorithm of astrodendro itself, more than 6 contrasts, loading and plotting'
ASSUMPTIONS = ['astrodendro is replaced by an arbitrary dendrogram with given structures at each contrast']


class Struct(object):
    def __init__(self, v):
        self.vmax = v


class FakeD(object):
    """levels: one list of peak values per contrast"""

    def __init__(self, levels):
        self.levels, self.i, self.pruned = levels, 0, []

    def prune(self, min_delta=0, **k):
        self.pruned.append(min_delta)
        self.i += 1

    @property
    def all_structures(self):
        return [Struct(v) for v in self.levels[self.i]]

    def __len__(self):
        return len(self.levels[self.i])


def make(D, **k):
    from turbustat.statistics import Dendrogram_Stats
    k.setdefault('min_deltas', np.array(D))
    return Dendrogram_Stats(np.arange(12.0).reshape(3, 4), header=hdr2(), **k)


def compute_ob(sizes, given, periodic=False, cube=False):
    def body(I):
        from turbustat.statistics import Dendrogram_Stats
        lv = [list(asobj(I.arr('v%d' % i, n, lo=0, hi=5))) for i, n in enumerate(sizes)]
        dl = [0.1 * (i + 1) for i in range(len(sizes))]
        fd = FakeD(lv)
        seen, nb = [], []
        data = I.arr('d', (2, 3, 2) if cube else (3, 2), lo=0, hi=5)
        s = I.snapshot(data)

        class D(object):
            @staticmethod
            def compute(d, **k):
                seen.append((d, k))
                return fd

        def pn(axes):
            nb.append(list(axes) if np.ndim(axes) else [axes])
            return ('periodic', nb[-1])
        with contextlib.ExitStack() as st:
            if not given:
                st.enter_context(I.stub('astrodendro.Dendrogram', D))
                st.enter_context(I.stub('astrodendro.periodic_neighbours', pn))
            st.enter_context(I.code())
            t = Dendrogram_Stats(data, header=hdr3() if cube else hdr2(), min_deltas=np.array(dl),
                                 dendro_params=dict(min_npix=7, min_value=0.3))
            t.compute_dendro(dendro_obj=fd if given else None, periodic_bounds=periodic)
        I.unchanged('data', data, s)
        I.true('numbers', [int(e) for e in asobj(t.numfeatures).ravel()] == list(sizes))
        I.true('contrasts', len(t.values) == len(sizes))
        for i, v in enumerate(t.values):
            I.eq('peaks %d' % i, v, np.array(lv[i], dtype=object) if lv[i] else np.zeros(0))
        I.true('pruned', [float(e) for e in fd.pruned] == dl[1:])
        if not given and seen:
            d, k = seen[0]
            I.eq('data', d, data)
            I.true('parameters', float(k.get('min_delta')) == dl[0] and k.get('min_value') == 0.3 and k.get('min_npix') == 7)
            if periodic:
                I.true('periodic axes', len(nb) == 1 and sorted(nb[0]) == ([1, 2] if cube else [0, 1]) and k.get('neighbours') == ('periodic', nb[0]))
            else:
                I.true('neighbours', k.get('neighbours') is None)
    return Ob('compute-%s-%s%s%s' % (list(sizes), 'given' if given else 'built', '-periodic' if periodic else '', '-cube' if cube else ''), body,
              'any peaks of %s structures' % (list(sizes),))


def deltas_ob():
    def body(I):
        d = I.arr('d', 3, lo=0.1, hi=2)
        ok = bool(d[0] < d[1]) and bool(d[1] < d[2])
        with I.code():
            t = make([0.1, 0.2])
        for nm, v in (('array', d), ('list', list(asobj(d)))):
            if not ok:
                def f(v=v):
                    t.min_deltas = v
                I.raises('not increasing (%s)' % nm, ValueError, f)
                continue
            with I.code():
                t.min_deltas = v
            I.eq('deltas from %s' % nm, t.min_deltas, d)
        with I.code():
            t.min_deltas = d[0]
            one = t.min_deltas
            n = make(None, min_deltas=None, dendro_params=dict(min_delta=0.25))
        I.eq('single', one, np.array([d[0]], dtype=object))
        I.eq('from the parameters', n.min_deltas, np.array([0.25]))
        I.raises('bad name', ValueError, make, None, min_deltas='other')
    return Ob('deltas', body, 'any three contrasts in [0.1,2]')


def auto_ob(nan):
    def body(I):
        from turbustat.statistics import Dendrogram_Stats
        x = I.split(I.arr('x', (2, 2), lo=-1, hi=5, nan='sym' if nan else False))
        mv, md = I.real('v', lo=-0.5, hi=1), I.real('m', lo=0.05, hi=0.4)
        v = [e for e in asobj(x).ravel() if not bool(isnan(e))]
        v = [e for e in v if bool(e > mv)]
        I.assume(len(v) > 0)
        mx = v[0]
        for e in v[1:]:
            if bool(e > mx):
                mx = e
        I.assume(mx - mv > md + 0.1)
        with I.code():
            t = Dendrogram_Stats(x, header=hdr2(), dendro_params=dict(min_value=mv, min_delta=md, min_npix=3), num_deltas=4)
        for k in range(4):
            I.eq('delta %d' % k, asobj(t.min_deltas)[k], md + (mx - mv - md) * (k / 4.0))
        I.true('number', t.min_deltas.shape == (4,))
    return Ob('auto%s' % ('-nan' if nan else ''), body, 'any 2x2 map, minimum value and contrast')


def hists_ob(sizes, bins, min_number):
    def body(I):
        lv = []
        for i, n in enumerate(sizes):
            v = asobj(np.linspace(0.0, 4.0, n) if n else np.zeros(0))
            if n > 2:
                v[1] = I.real('v%d' % i, lo=0.1, hi=3.9)
            lv.append(v)
        A.OPTS['hist_decide'] = True
        with I.code():
            t = make([0.1 * (i + 1) for i in range(len(sizes))])
            I.plant(t, '_values', [pack(I, v) for v in lv])
            kw = {} if bins is None else dict(bins=bins)
            t.make_hists(min_number=min_number, **kw)
        I.true('one per contrast', len(t.hists) == len(sizes))
        for i, n in enumerate(sizes):
            c, h = asobj(t.hists[i][0]), asobj(t.hists[i][1])
            if n < min_number:
                I.true('too few %d' % i, c.size == 0 and h.size == 0)
                continue
            nb = bins or int(math.sqrt(n))
            I.true('bins %d' % i, c.shape == (nb,) and h.shape == (nb,))
            if c.shape != (nb,) or h.shape != (nb,):
                continue
            ed = [4.0 * k / nb for k in range(nb + 1)]
            if n > 2:
                for e in ed:
                    I.assume(abs(lv[i][1] - e) > 1e-5)
            for k in range(nb):
                I.eq('centre %d %d' % (i, k), c[k], (ed[k] + ed[k + 1]) / 2)
                I.eq('count %d %d' % (i, k), h[k], float(sum(bool(e >= ed[k] - 1e-9) and (bool(e < ed[k + 1] - 1e-9) or k == nb - 1) for e in lv[i])))
    return Ob('histograms-%s-%s-%d' % (list(sizes), bins, min_number), body, 'one free peak per contrast')


def spread(v):
    m = mean(v)
    return mean([(e - m) * (e - m) for e in v])


def window_ob(n, size, documented=False):
    def body(I):
        from turbustat.statistics.dendrograms.dendro_stats import std_window
        y = I.arr('y', n, lo=0, hi=5)
        Y = list(asobj(y))
        h = (size - 1) // 2
        full = [spread(Y[i - h:i + h + 1]) for i in range(h, n - h)]
        part = [spread(Y[i - h:i + h]) for i in range(h, n - h)]
        k = I.real('k', lo=0, hi=len(full) - 1, integer=True)
        kk = next((j for j in range(len(full)) if bool(k == j)), 0)
        for j in range(len(full)):
            if j != kk:
                I.assume(full[kk] > full[j] + 1e-3)
                if not documented:
                    I.assume(part[kk] > part[j] + 1e-3)
        with I.code():
            r = std_window(y, size=size)
            r2, s = std_window(y, size=size, return_results=True)
        I.eq('break position', float(r), float(kk + h))
        I.true('results', bool(r2 == r) and s.shape == (n - size + 1,))
    return Ob('window-%d-%d%s' % (n, size, '-documented' if documented else ''), body, 'any %d values in [0,5]%s' % (
        n, '' if documented else ', scatter largest at the same place with and without the last element of each window'))


def fit_ob(nums, free, size):
    """slope from the break on"""
    def body(I):
        dl = [0.1 * 2**i for i in range(len(nums))]
        v = asobj(np.array(nums, dtype=float))
        for k in free:
            v[k] = I.real('n%d' % k, lo=max(2.0, nums[k] - 0.4), hi=nums[k] + 0.4)
        keep = [k for k in range(len(nums)) if nums[k] > 1]
        h = (size - 1) // 2
        ref = [spread([float(nums[j]) for j in keep][i - h:i + h + 1]) for i in range(h, len(keep) - h)]
        b = int(np.argmax(ref)) + h
        sel = keep[b:]
        xs = [math.log10(dl[k]) for k in sel]
        ys = [log10(v[k]) for k in sel]
        with I.code():
            t = make(dl)
            I.plant(t, '_numfeatures', pack(I, v))
            t.fit_numfeat(size=size)
            p, e = t.tail_slope, t.tail_slope_err
            bp, fv = t.break_pos, t.fitvals
        I.eq('break', bp, dl[keep[b]])
        I.eq('fitted contrasts', fv[0], np.array(xs))
        for k in range(len(sel)):
            I.eq('fitted number %d' % k, asobj(fv[1])[k], ys[k])
        a0, b0 = slope_ols(xs, ys)
        I.eq('slope', p, b0)
        n = len(xs)
        if n > 2:
            X = np.array([[1.0, x] for x in xs])
            pinv = np.linalg.pinv(X)
            H = np.einsum('ij,ji->i', X, pinv)
            var = total([(ys[i] - a0 - b0 * xs[i]) * (ys[i] - a0 - b0 * xs[i]) * float(pinv[1, i]**2 / (1 - H[i])**2) for i in range(n)])
            I.eq('error', e * e, var, tol=1e-5)
    return Ob('fit-%s-%d' % (list(nums), size), body, 'feature numbers %s with %s free within 0.4' % (list(nums), list(free)))


def planted(I, n, vals, slope=1.0, err=1.0, dl=None):
    t = make(dl or [0.1 * (i + 1) for i in range(len(n))])
    I.plant(t, '_numfeatures', np.array(n))
    I.plant(t, '_values', vals)
    I.plant(t, '_tail_slope', slope)
    I.plant(t, '_tail_slope_err', err)
    return t


def num_ob():
    def body(I):
        from turbustat.statistics import Dendrogram_Distance
        s, e = I.arr('s', 2), I.arr('e', 2, lo=0.1, hi=2)
        dl = np.array([0.1, 0.2, 0.3])
        with I.code():
            a, b = planted(I, [9, 8, 3], [[], [], []], s[0], e[0]), planted(I, [9, 9, 2], [[], [], []], s[1], e[1])
            a.min_deltas = b.min_deltas = dl
            d = Dendrogram_Distance(a, b, min_deltas=dl, min_features=5)
            d.numfeature_stat()
            r = Dendrogram_Distance(b, a, min_deltas=dl, min_features=5)
            r.numfeature_stat()
        D = d.num_distance
        I.le('sign', 0.0, D)
        I.eq('distance', D * D * (e[0] * e[0] + e[1] * e[1]), (s[0] - s[1]) * (s[0] - s[1]), tol=1e-5)
        I.eq('symmetric', D, r.num_distance)
        I.true('cutoff', int(d.cutoff) == 1)
        I.raises('too few features', ValueError, Dendrogram_Distance, a, b, min_deltas=dl, min_features=50)
    return Ob('distance-number', body, 'any slopes and errors')


def hist_dist_ob(n1, n2, nbins, cutoff):
    """distance of the standardised peaks; standardisation left out"""
    def body(I):
        from turbustat.statistics import Dendrogram_Distance
        L = len(n1)
        dl = np.array([0.1 * (i + 1) for i in range(L)])
        V1, V2 = [], []
        for i in range(L):
            a, b = asobj(np.linspace(0.0, 4.0, n1[i])), asobj(np.linspace(0.0, 4.0, n2[i])**2 / 4.0)
            if i < 2:
                a[1] = I.real('a%d' % i, lo=0.1, hi=3.9)
            if i == 0:
                b[1] = I.real('b%d' % i, lo=0.1, hi=3.9)
            V1.append(a)
            V2.append(b)
        H = []
        nb = [int(math.floor(math.sqrt((p + q) / 2.0))) if nbins is None else nbins for p, q in zip(n1, n2)]
        for i in range(cutoff):
            ed = [4.0 * k / nb[i] for k in range(nb[i] + 1)]
            for q in (V1[i][1], V2[i][1]):
                for e in ed:
                    I.assume(abs(q - e) > 1e-5)

            def h(v):
                c = [sum(bool(e >= ed[k] - 1e-9) and (bool(e < ed[k + 1] - 1e-9) or k == nb[i] - 1) for e in v) for k in range(nb[i])]
                return [k / float(sum(c)) for k in c]
            H.append((h(V1[i]), h(V2[i])))
        seen = []

        def st(x, **k):
            seen.append(x)
            return x
        A.OPTS['hist_decide'] = True
        with I.stub('turbustat.statistics.stats_utils.standardize', st), I.code():
            a = planted(I, n1, [pack(I, v) for v in V1])
            b = planted(I, n2, [pack(I, v) for v in V2])
            a.min_deltas = b.min_deltas = dl
            d = Dendrogram_Distance(a, b, min_deltas=dl, min_features=2, **({} if nbins is None else dict(nbins=nbins)))
            d.histogram_stat()
        if len(seen) != 2 * cutoff:
            I.true('cutoff', not seen or int(d.cutoff) == cutoff)
            return
        I.eq('distance', d.histogram_distance, sum(math.sqrt(0.5 * sum((math.sqrt(p) - math.sqrt(q))**2 for p, q in zip(*h))) for h in H) / cutoff)
        for i in range(cutoff):
            for nm, m, hh in (('1', d.mecdf1, H[i][0]), ('2', d.mecdf2, H[i][1])):
                for k in range(nb[i]):
                    I.eq('ecdf %s %d %d' % (nm, i, k), asobj(m)[i, k], sum(hh[:k + 1]))
    return Ob('distance-histogram-%s-%s-%s' % (list(n1), list(n2), nbins), body, 'two free peaks in the first contrast, one in the second, in [0.1,3.9]', max_paths=900)


def rerun_ob(kind):
    def body(I):
        from turbustat.statistics import Dendrogram_Distance, Dendrogram_Stats
        dl = np.array([0.1, 0.2, 0.3])
        calls = []

        def run(self, **k):
            calls.append((self, np.array(self.min_deltas), dict(k)))
            I.plant(self, '_numfeatures', np.array([9, 8, 3]))
            I.plant(self, '_tail_slope', s)
            I.plant(self, '_tail_slope_err', 1.0)
        s = I.real('s')
        k1 = dict(show_progress=False, verbose=True, fit_kwargs={'size': 3})
        k2 = dict(periodic_bounds=True, make_hists=True)
        c1, c2 = dict(k1), dict(k2)
        saved = Dendrogram_Stats.run
        Dendrogram_Stats.run = run
        try:
            with I.code():
                x = np.arange(12.0).reshape(3, 4)
                if kind == 'data':
                    a, b = (x, hdr2()), (x + 1, hdr2())
                else:
                    od = {'deltas': [0.1, 0.2, 0.4], 'length': [0.1, 0.2], 'norun': [0.1, 0.2, 0.3]}[kind]
                    a, b = (make(od) if kind == 'norun' else planted(I, [9] * len(od), [[]] * len(od), dl=od) for _ in range(2))
                d = Dendrogram_Distance(a, b, min_deltas=dl, min_features=5, dendro_kwargs=k1, dendro2_kwargs=k2)
                d.numfeature_stat()
        finally:
            Dendrogram_Stats.run = saved
        I.true('options as given', k1 == c1 and k2 == c2)
        I.true('both run', len(calls) == 2 and calls[0][0] is d.dendro1 and calls[1][0] is d.dendro2)
        if len(calls) != 2:
            return
        for i, (o, q, k) in enumerate(calls):
            I.eq('contrasts %d' % i, q, dl)
            I.true('options %d' % i, k.get('verbose') is False and k.get('make_hists') is False)
        I.true('options of the first', calls[0][2].get('fit_kwargs') == {'size': 3} and 'periodic_bounds' not in calls[0][2])
        I.true('options of the second', calls[1][2].get('periodic_bounds') is True and 'fit_kwargs' not in calls[1][2])
        I.eq('distance', d.num_distance, 0.0)
    return Ob('rerun-%s' % kind, body, 'any slope')


def inputs_ob(params, default):
    def body(I):
        from turbustat.statistics import Dendrogram_Distance, Dendrogram_Stats
        dl = np.logspace(-2.5, 0.5, 100) if default else np.array([0.1, 0.2, 0.3])
        calls = []
        s = I.real('s')

        def run(self, **k):
            calls.append((self, np.array(self.min_deltas), dict(self.dendro_params or {}), k))
            I.plant(self, '_numfeatures', np.array([900] * (len(dl) - 1) + [3]))
            I.plant(self, '_tail_slope', s if len(calls) == 1 else 2 * s)
            I.plant(self, '_tail_slope_err', 1.0)
        p = {'none': None, 'both': dict(min_value=0.3), 'each': [dict(min_value=0.3), dict(min_value=0.5, min_npix=4)]}[params]
        want = {'none': [None, None], 'both': [p, p], 'each': p}[params]
        saved = Dendrogram_Stats.run
        Dendrogram_Stats.run = run
        try:
            with I.code():
                x = np.arange(12.0).reshape(3, 4)
                d = Dendrogram_Distance((x, hdr2()), (x + 1, hdr2()), dendro_params=p, dendro_kwargs=dict(periodic_bounds=True), **({} if default else dict(min_deltas=dl)))
                d.numfeature_stat()
        finally:
            Dendrogram_Stats.run = saved
        I.true('both run', len(calls) == 2 and calls[0][0] is d.dendro1 and calls[1][0] is d.dendro2)
        if len(calls) != 2:
            return
        for i, (o, q, pp, k) in enumerate(calls):
            I.eq('contrasts %d' % i, q, dl)
            I.true('options %d' % i, k.get('periodic_bounds') is True)
            if want[i] is not None:
                I.true('building options %d' % i, all(pp.get(n) == v for n, v in want[i].items()) and ('min_npix' in want[i] or pp.get('min_npix') != 4))
            I.eq('data %d' % i, np.asarray(o.data), np.arange(12.0).reshape(3, 4) + i)
        I.eq('distance', d.num_distance * d.num_distance * 2.0, s * s, tol=1e-6)
    return Ob('inputs-%s%s' % (params, '-default' if default else ''), body, 'any slope')


def both_ob():
    def body(I):
        from turbustat.statistics import Dendrogram_Distance
        s, e = I.arr('s', 2), I.arr('e', 2, lo=0.1, hi=2)
        dl = np.array([0.1, 0.2, 0.3])
        V = [[np.linspace(0, 4, n)**p for n in N] for N, p in (((6, 5, 4), 1), ((5, 5, 3), 2))]

        def pair():
            a, b = (planted(I, [len(v) for v in V[i]], V[i], s[i], e[i]) for i in range(2))
            a.min_deltas = b.min_deltas = dl
            return a, b
        with I.code():
            d = Dendrogram_Distance(*pair(), min_deltas=dl, min_features=2)
            d.distance_metric()
            h = Dendrogram_Distance(*pair(), min_deltas=dl, min_features=2)
            h.histogram_stat()
        got = [getattr(d, n, None) for n in ('histogram_distance', 'num_distance')]
        I.true('both distances set', got[0] is not None and got[1] is not None)
        if got[0] is None or got[1] is None:
            return
        I.eq('histogram distance', got[0], h.histogram_distance)
        I.eq('number distance', got[1] * got[1] * (e[0] * e[0] + e[1] * e[1]), (s[0] - s[1]) * (s[0] - s[1]), tol=1e-5)
    return Ob('distance-both', body, 'any slopes and errors')


def mecdf_ob(nan):
    def body(I):
        from turbustat.statistics.dendrograms.mecdf import mecdf
        h = I.arr('h', (2, 3), lo=0.1, hi=2)
        if nan:
            h[1, 2] = float('nan')
        s = I.snapshot(h)
        with I.code():
            m = asobj(mecdf(h))
        I.unchanged('rows', h, s)
        for i in range(2):
            n = 2 if nan and i == 1 else 3
            tot = total([h[i, k] for k in range(n)])
            for k in range(n):
                I.eq('ecdf %d %d' % (i, k), m[i, k] * tot, total([h[i, j] for j in range(k + 1)]))
    return Ob('mecdf%s' % ('-nan' if nan else ''), body, 'any 2x3 rows')


def obligations(tier):
    obs = [compute_ob((3, 2, 2), True), compute_ob((3, 1, 0), False), compute_ob((2,), False, periodic=True), compute_ob((2, 1), False, periodic=True, cube=True),
           deltas_ob(), auto_ob(False), auto_ob(True),
           hists_ob((6, 5, 4), 3, 5), hists_ob((9, 5), None, 5), hists_ob((5, 4, 3), 2, 1),
           window_ob(5, 3), window_ob(6, 5), window_ob(5, 3, documented=True),
           fit_ob((40, 39, 10, 6, 4, 3), (3, 4), 3), fit_ob((30, 12, 6, 4, 3, 1), (2, 4), 3), fit_ob((50, 45, 20, 9, 7, 3, 2), (5,), 5),
           num_ob(), hist_dist_ob((6, 5, 4), (5, 5, 3), None, 2), hist_dist_ob((9, 5, 4, 2), (9, 4, 3, 3), None, 2), hist_dist_ob((5, 4, 3), (4, 4, 3), 3, 2),
           rerun_ob('data'), rerun_ob('deltas'), rerun_ob('length'), rerun_ob('norun'), inputs_ob('none', True), inputs_ob('both', False), inputs_ob('each', False), both_ob(), mecdf_ob(False), mecdf_ob(True)]
    if tier == 'thorough':
        obs += [window_ob(7, 3), window_ob(7, 5), hists_ob((16, 12, 10), None, 10), compute_ob((5, 4, 3, 2, 1, 0), True)]
    return obs
