E = "PyEMD/EMD.py"

seed("c02-nh-not-reset", "C02", [(E, "n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0", "n_h = n_h + 1 if abs(extNo - nzm) < 2 else n_h")], """
from PyEMD import EMD
def ref(S, H):
    e = EMD(); T = np.arange(len(S), dtype=float)
    h = S.copy(); nh = 0; n = 0
    while True:
        n += 1
        r = e.find_extrema(T, h)
        if len(r[0]) + len(r[2]) <= 2 or n >= 1000: return None
        u, l, _, _ = e.extract_max_min_spline(T, h)
        h = h - 0.5*(u+l)
        r = e.find_extrema(T, h)
        ext, zc = len(r[0])+len(r[2]), len(r[4])
        if n == 1: continue
        nh = nh+1 if abs(ext-zc) < 2 else 0
        if nh >= H: return h
bad = 0
for sd in range(300):
    rng = np.random.RandomState(sd)
    S = np.cumsum(rng.normal(size=40))
    w = ref(S, 3)
    if w is None: continue
    got = EMD(FIXE_H=3).emd(S, None, 1)[0]
    bad += not np.allclose(w, got, atol=1e-9)
print('wrong', bad)
assert bad == 0
""", "a sifting history in which the counts match, then differ, then match again", "rounds counted for FIXE_H are no longer consecutive")

seed("c02-nh-carried", "C02", [(E, "        finished = False\n\n        while not finished:", "        finished = False\n        n_h = 0\n\n        while not finished:"),
     (E, "            n_h = 0  # counts when |#zero - #ext| <=1\n\n            while True:", "\n            while True:"),
     (E, "                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0\n\n                        # STOP\n                        if n_h >= self.FIXE_H:\n                            break",
      "                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0\n\n                        # STOP\n                        if n_h >= self.FIXE_H:\n                            n_h = 0\n                            break")], """
from PyEMD import EMD
# a mode that ends at the iteration limit must not pass its count on to the next mode
def ref(S, H, M):
    e = EMD(); T = np.arange(len(S), dtype=float)
    h = S.copy(); nh = 0; n = 0
    while True:
        n += 1
        if n >= M: return h
        r = e.find_extrema(T, h)
        if len(r[0]) + len(r[2]) <= 2: return None
        u, l, _, _ = e.extract_max_min_spline(T, h)
        h = h - 0.5*(u+l)
        r = e.find_extrema(T, h)
        if n == 1: continue
        nh = nh+1 if abs(len(r[0])+len(r[2])-len(r[4])) < 2 else 0
        if nh >= H: return h
bad = 0
for sd in range(200):
    rng = np.random.RandomState(sd)
    S = np.cumsum(rng.normal(size=60))
    H, M = 5, 6
    e = EMD(FIXE_H=H, MAX_ITERATION=M); e.emd(S)
    imfs, _ = e.get_imfs_and_residue()
    r = S.copy()
    for m in imfs:
        w = ref(r, H, M)
        if w is None: break
        bad += not np.allclose(w, m, atol=1e-9)
        r = r - m
print('wrong', bad)
assert bad == 0
""", "FIXE_H together with a mode that reaches the iteration limit while the count is positive, followed by another mode", "the number of consecutive rounds is carried over to the next mode")

seed("c02-criterion-knots", "C02", [(E, "if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):", "if np.any(eMax[1, 1:-1] < 0) or np.any(eMin[1, 1:-1] > 0):")], """
from PyEMD import EMD
e = EMD()
old = np.array([0., 1, -1, 1, -1, 0]); new = old*1.0001
up = np.array([[0., 1, 2, 3], [-1., 1, 1, 1]]); lo = np.array([[0., 1, 2, 3], [-1., -1, -1, -1]])
assert not e.check_imf(new, old, up, lo)
assert not e.check_imf(new, old, -lo*[[-1], [1]], -up*[[-1], [1]])
""", "an envelope whose outermost (mirrored) knot alone has the wrong sign", "mode criterion ignores the sign of the outermost knots")

seed("c03-range-of-offset", "C03", [(E, "        if np.max(tmp) - np.min(tmp) < self.range_thr:\n            self.logger.debug(\"FINISHED -- RANGE\")", "        if np.max(np.abs(tmp)) < self.range_thr:\n            self.logger.debug(\"FINISHED -- RANGE\")")], """
from PyEMD import EMD
e = EMD()
t = np.arange(100)
m = np.sin(t)
assert e.end_condition(m + 5 + 0.0001*np.cos(t*0.2), m[None]) is True
""", "a remainder with offset but negligible range", "decomposition goes on although the range of the remainder is below the threshold")

seed("c03-limit-after-trend", "C03", [(E, "        if extNo <= 2:\n            IMF = IMF[:-1]", "        if extNo <= 2 and imfNo != max_imf:\n            IMF = IMF[:-1]")], """
from PyEMD import EMD
e = EMD()
S = np.linspace(0, 1, 30)**2
e.emd(S, None, 1)
imfs, res = e.get_imfs_and_residue()
assert len(imfs) == 0 and np.allclose(res, S)
""", "limit equal to the number of the candidate that is the trend", "the trend is counted as a mode when the limit is reached at the same time")

seed("c04-plateau-middle", "C04", [(E, "midpoints = np.round((fins + debs) / 2.0).astype(np.intp)", "midpoints = (fins + debs) // 2")], """
from PyEMD import EMD
S = np.array([0., 1, 2, 3, 3, 2, 1]); T = np.arange(7.)
r = EMD().find_extrema(T, S)
assert list(r[0]) == [4.0], r[0]
""", "a plateau of two samples whose middle rounds up", "position of plateau extrema")

seed("c04-zero-runs", "C04", [(E, """            if np.any(np.diff(indz) == 1):
                zer = S == 0
                dz = np.diff(np.concatenate(([0], zer, [0])))""", """            if np.all(np.diff(indz) == 1):
                zer = S == 0
                dz = np.diff(np.concatenate(([0], zer, [0])))""")], """
from PyEMD import EMD
S = np.array([1., 0, 0, -1, 1, 0, 2]); T = np.arange(7.)
z = EMD().find_extrema(T, S)[4]
assert len(z) == 3, z
""", "a run of zeros and another separate zero in the same signal", "zero crossings counted more than once per run of zeros")

seed("c06-fallback-right", "C06", [(E, "            if rsym == ind_max[-1]:\n                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]", "            if rsym == ind_max[-1]:\n                rmax = ind_max[max(end_max - nbsym - 1, 0) :][::-1]")], """
from PyEMD import EMD
S = np.array([0., 2, -2, 3, -3, 2, -1, 2, 1.5, 1, 0.5, 0.2, 0.0, -0.2]); T = np.arange(14.)
bad = 0
rng = np.random.RandomState(0)
for k in range(2000):
    S = rng.randint(-5, 6, size=12).astype(float)
    e = EMD(nbsym=2); r = e.find_extrema(T[:12], S)
    if len(r[0]) + len(r[2]) < 3: continue
    mx, mn = e.prepare_points(T[:12], S, *r[:4])
    bad += max(np.sum(mx[0] > T[11]), np.sum(mn[0] > T[11])) > 2
print(bad)
assert bad == 0
""", "mirroring about the last maximum does not reach past the end and there are more maxima than mirrored points", "one knot too many beyond the right end")

seed("c07-hermite-slopes", "C07", [("PyEMD/splines.py", "dydx = np.gradient(Y, X)", "dydx = np.gradient(Y) / np.gradient(X)")], """
from PyEMD import EMD
from scipy.interpolate import CubicHermiteSpline
x = np.array([0., 1, 4, 5, 9]); y = np.array([1., -1, 3, 0, 2]); T = np.linspace(0, 9, 40)
_, s = EMD(spline_kind='cubic_hermite').spline_points(T, np.array([x, y]))
assert np.allclose(s, CubicHermiteSpline(x, y, np.gradient(y, x))(T))
""", "unevenly spaced knots and the Hermite spline", "slopes at the knots are wrong for uneven spacing")

seed("c08-alias", "C08", [(E, "        self.imfs = IMF.copy()\n", "        self.imfs = IMF\n")], """
from PyEMD import EMD
e = EMD()
S = np.array([0., 1, 0, -1] * 10)
hit = False
for sd in range(200):
    S = np.random.RandomState(sd).randint(-2, 3, size=12).astype(float)
    out = e.emd(S)
    imfs, res = e.get_imfs_and_residue()
    if len(out) == len(imfs) and len(imfs):
        keep = imfs.copy(); out *= 0
        assert np.array_equal(e.get_imfs_and_residue()[0], keep)
S = np.sin(np.arange(100) * 0.7)
for th in (1e-1, 1):
    e = EMD(range_thr=10, total_power_thr=100)
    for S in (np.zeros(8), np.tile([1., -1], 20)):
        out = e.emd(S); imfs, res = e.get_imfs_and_residue()
        keep = imfs.copy(); out += 1
        assert np.array_equal(e.get_imfs_and_residue()[0], keep)
""", "a decomposition without remainder row whose returned array is modified by the caller before the accessor is read", "accessor shares memory with the returned array")

seed("c09-mean-over-trials", "C09", [("PyEMD/EEMD.py", "return np.array([imfs.mean(axis=0) for imfs in self._all_imfs.values()])", "return np.array([imfs.sum(axis=0) / self.trials for imfs in self._all_imfs.values()])")], """
from PyEMD import EEMD
e = EEMD(trials=20, noise_width=0.5); e.noise_seed(5)
S = np.sin(np.arange(60)*0.3)
out = e.eemd(S)
assert len(set(e.ensemble_count())) > 1
assert all(np.allclose(o, e.all_imfs[k].mean(axis=0)) for k, o in enumerate(out))
""", "trials with different numbers of components", "orders that only some trials have are averaged over all trials")

seed("c09-unordered", "C09", [("PyEMD/EEMD.py", "map_pool = pool.map\n", "map_pool = pool.imap_unordered\n")], """
import time
from PyEMD import EEMD
class Slow:
    def emd(self, S, T=None, max_imf=-1):
        time.sleep(0.4 if S[0] > 0 else 0.0)
        return np.array([S])
bad = 0
for sd in range(4):
    r = []
    for par in (False, True):
        e = EEMD(trials=6, ext_EMD=Slow(), parallel=par, **({'processes': 3} if par else {})); e.noise_seed(sd)
        e.eemd(np.linspace(-.1, .1, 8) * np.array([0, 1, 1, 1, 1, 1, 1, 1]))
        r.append(e.all_imfs[0])
    bad += not np.array_equal(r[0], r[1])
assert bad == 0
""", "parallel execution in which a later trial finishes before an earlier one", "the ensemble is no longer in trial order (and differs from the sequential one)")

seed("c10-reseed", "C10", [("PyEMD/EEMD.py", "        self.random.seed(seed)\n", "        self._seed = seed\n"),
     ("PyEMD/EEMD.py", "        self._all_imfs = {}\n", "        self._all_imfs = {}\n        self._seed = None\n"),
     ("PyEMD/EEMD.py", "        self._N = len(S)\n", "        self._N = len(S)\n        if self._seed is not None:\n            self.random.seed(self._seed)\n")], """
from PyEMD import EEMD
e = EEMD(trials=3); e.noise_seed(1)
S = np.sin(np.arange(50.))
a = e.eemd(S); b = e.eemd(S)
assert a.shape != b.shape or not np.allclose(a, b)
""", "two calls after the seed was set once", "the second call reuses the noise of the first")

seed("c10-uniform-width", "C10", [("PyEMD/EEMD.py", "noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size)", "noise = self.random.uniform(low=-scale / 2, high=scale / 2, size=size) - 0.0 if np.isscalar(size) and size < 64 else self.random.uniform(low=-scale, high=scale, size=size)")], """
from PyEMD import EEMD
e = EEMD(noise_kind='uniform')
assert np.max(np.abs(e.generate_noise(2.0, 100))) <= 1.0
""", "uniform noise for longer signals", "uniform noise is twice as wide as configured")

seed("c11-power", "C11", [("PyEMD/CEEMDAN.py", "if np.sum(np.abs(R)) < self.total_power_thr:", "if np.mean(np.abs(R)) < self.total_power_thr:")], """
from PyEMD import CEEMDAN
c = CEEMDAN(trials=2, parallel=False, total_power_thr=0.5, range_thr=0.0)
t = np.arange(50)
m = np.sin(t*0.9)
R = 0.2*np.sin(t*0.3) + 0.1*np.sin(t*1.7)
assert not c.end_condition(m + R, m[None], -1)
""", "a remainder of small amplitude whose summed magnitude is above the threshold", "extraction stops too early: the threshold is compared with the mean magnitude")

seed("c12-beta-once", "C12", [("PyEMD/CEEMDAN.py", "            beta = self.epsilon * np.std(prev_res)\n", "            beta = self.epsilon * np.std(last_imf)\n")], """
from PyEMD import CEEMDAN, EMD
class Rec(EMD):
    log = []
    def emd(self, S, T=None, max_imf=-1):
        Rec.log.append((np.array(S), max_imf)); return super().emd(S, T, max_imf)
c = CEEMDAN(trials=1, parallel=False, epsilon=0.1, ext_EMD=Rec(), beta_progress=True); c.noise_seed(2)
t = np.arange(60)
c.ceemdan(np.sin(t*1.5) + 3*np.sin(t*.3), max_imf=2)
noise = EMD().emd(Rec.log[0][0]); noise = noise/np.std(noise[0])
R = Rec.log[2][0]; X = Rec.log[3][0]
assert np.allclose(X - R, 0.1*np.std(R)*noise[1], atol=1e-9)
""", "second and later stages when remainder and last mode have different deviations", "noise is scaled by the deviation of the last mode instead of the remainder")

seed("c14-aposteriori-k", "C14", [("PyEMD/checks.py", "    k = abs(stats.norm.ppf((1 - alpha) / 2))\n    upper_limit = -T + (k * (math.sqrt(2 / N) * math.exp(T / 2)))\n    return not (scaled", "    k = abs(stats.norm.ppf(1 - alpha))\n    upper_limit = -T + (k * (math.sqrt(2 / N) * math.exp(T / 2)))\n    return not (scaled")], """
import math
from scipy import stats
from PyEMD.checks import significance_aposteriori as f
T, N, a = 1.0, 100, 0.5
k = abs(stats.norm.ppf(0.25)); up = -T + k*math.sqrt(2/N)*math.exp(T/2)
assert f(up - 1e-6, T, N, a) is False and f(up + 1e-6, T, N, a) is True
""", "a component between the one sided and the two sided limit", "a posteriori test uses a one sided confidence level")

seed("c14-period", "C14", [("PyEMD/checks.py", "peaks = len(find_peaks(data, height=0)[0])", "peaks = len(find_peaks(data)[0])")], """
from PyEMD.checks import mean_period
x = np.array([0, 1, 0, -2, -1, -2, 0, 1, 0.])
assert mean_period(x) == 4.5
""", "a component with local maxima below zero", "negative maxima are counted in the mean period")

seed("c15-precedence", "C15", [("PyEMD/visualisation.py", "residue = residue if residue is not None else self.residue", "residue = self.residue if self.residue is not None else residue")], """
from PyEMD import EMD, Visualisation
import matplotlib.pyplot as plt
e = EMD(); e.emd(np.sin(np.arange(50.)) + 0.1*np.arange(50))
v = Visualisation(e)
r = np.arange(50.)**2
v.plot_imfs(residue=r)
assert np.array_equal(plt.gcf().axes[-1].lines[0].get_ydata(), r)
""", "an attached object and an explicitly passed remainder", "the passed remainder is ignored")

seed("c15-unwrap", "C15", [("PyEMD/visualisation.py", "phase = np.unwrap(np.angle(analytic_signal))", "phase = np.unwrap(np.angle(analytic_signal), axis=0)")], """
from PyEMD import Visualisation
import matplotlib.pyplot as plt
t = np.arange(64)/64.
s = np.array([np.sin(2*np.pi*8*t), np.sin(2*np.pi*4*t)])
Visualisation().plot_instant_freq(t, imfs=s)
f = [a.lines[0].get_ydata() for a in plt.gcf().axes]
assert np.allclose(f[0][8:-8], 8, atol=.2) and np.allclose(f[1][8:-8], 4, atol=.2)
""", "phase that passes pi", "phase is unwrapped across components, not along time")

seed("c12-stale-trial", "C12", [("PyEMD/CEEMDAN.py", "                res = prev_res.copy()\n                if len(noise_imf) > imfNo:\n                    res += beta * noise_imf[imfNo]", "                if len(noise_imf) > imfNo:\n                    res = prev_res + beta * noise_imf[imfNo]\n                elif trial == 0:\n                    res = prev_res.copy()")], """
from PyEMD import CEEMDAN
class Stub:
    n, log = 0, []
    def emd(self, S, T=None, max_imf=-1):
        if max_imf == -1:
            Stub.n += 1
            return np.array([S, 0.5*S, 0.2*S])[:3 if Stub.n == 1 else 1]
        Stub.log.append(np.array(S))
        return np.array([0.5*S, 0.5*S])
c = CEEMDAN(trials=2, parallel=False, epsilon=0.3, ext_EMD=Stub()); c.noise_seed(3)
c.ceemdan(np.sin(np.arange(30)*0.7), max_imf=2)
L = Stub.log   # two first trials, remainder tested, two trials of the second stage
assert not np.allclose(L[3], L[2]) and np.allclose(L[4], L[2])
""", "a trial that has run out of noise modes after one that has not", "a trial without noise mode reuses the noisy remainder of the trial before")

seed("c13-timeline-int", "C13", [("PyEMD/utils.py", "            if ref_value < np.iinfo(dtype).max:\n", "            if ref_value <= np.iinfo(dtype).max + 1024:\n")], """
from PyEMD.utils import get_timeline
t = get_timeline(65536 + 500, np.dtype('int8'))
assert np.array_equal(t, np.arange(65536 + 500))
""", "an integer signal slightly longer than the range of a 16 bit type", "the time axis wraps around")


seed("c01-trimmed-limit", "C01", [(E, """        # If the last sifting had 2 or less extrema then that's a trend (residue)
        if extNo <= 2:
            IMF = IMF[:-1]

        # Saving imfs and residue for external references
        self.imfs = IMF.copy()
        self.residue = S - np.sum(self.imfs, axis=0)
""", """        trend = S - np.sum(IMF, axis=0)

        # If the last sifting had 2 or less extrema then that's a trend (residue)
        if extNo <= 2:
            if imfNo != max_imf or imfNo == 1:
                trend = trend + IMF[-1]
            IMF = IMF[:-1]

        # Saving imfs and residue for external references
        self.imfs = IMF.copy()
        self.residue = trend
""")], """
from PyEMD import EMD
for sd in range(400):
    S = np.cumsum(np.random.RandomState(sd).normal(size=25))
    for k in (1, 2, 3, 4):
        assert np.allclose(EMD().emd(S, max_imf=k).sum(axis=0), S), (sd, k)
""", "the component limit is reached by the candidate that turns out to be the trend", "the trimmed candidate is lost from the remainder")

seed("c05-window", "C05", [(E, "(tVertex >= T0 - 0.5 * (T0 - Tp))", "(tVertex >= T0 - 0.5 * (Tn - T0))")], """
from PyEMD import EMD
t = np.array([0., 1., 4.]); s = -(t - 0.2)**2
r = EMD(extrema_detection='parabol').find_extrema(t, s)
assert len(r[0]) == 0 and len(r[2]) == 0, r
""", "unevenly spaced time and parabolic detection", "the left half step is measured with the right step")

seed("c16-short", "C16", [("PyEMD/compact.py", "    n = len(f)\n\n    rhs = np.zeros(n)\n\n    rhs[3:-3] = (", "    n = len(f)\n    if n <= 7:\n        return np.array(f)\n\n    rhs = np.zeros(n)\n\n    rhs[3:-3] = (")], """
from PyEMD.compact import filt6
for n in (7, 8, 9):
    assert np.allclose(filt6((-1.)**np.arange(n), 0.3), 0)
""", "data of exactly the stencil size", "the shortest allowed data are returned unfiltered")

seed("c16-left-border", "C16", [("PyEMD/compact.py", "    Da[1] = alpha2\n    Da[-1] = alpha1\n    Da[-2] = alpha2", "    Da[0] = alpha2\n    Da[-1] = alpha1\n    Da[-2] = alpha2")], """
from PyEMD.compact import pade6
x = np.arange(12) * 0.5
for k in range(6):
    assert np.allclose(pade6(x**k, 0.5), k * x**max(k-1, 0) if k else 0*x, atol=1e-6), k
""", "data that are not flat at the left border", "coefficient of the second row is set on the first (unused) one")

seed("c17-share", "C17", [("PyEMD/EMD_matlab.py", "f1 = np.mean(sx > self.stop1) > self.stop3", "f1 = np.mean(sx > self.stop1) >= self.stop3")], """
from PyEMD.EMD_matlab import EMD
e = EMD()
up = np.ones(20); mean = np.zeros(20); mean[3] = 0.2    # exactly one in twenty above the low bound
assert e.stop_sifting(mean, up, -up, mean, 5)
""", "exactly the tolerated share of samples above the low bound", "the tolerated share itself is no longer tolerated")

seed("c17-nh", "C17", [("PyEMD/EMD_matlab.py", "                        if abs(extNo - nzm) > 1:\n                            n_h = 0\n                        else:\n                            n_h += 1", "                        if abs(extNo - nzm) <= 1:\n                            n_h += 1")], """
from PyEMD.EMD_matlab import EMD
def ref(S, H, M=200):
    e = EMD(); T = np.arange(len(S), dtype=float); h = S.copy(); nh = 0; n = 0; mean = np.zeros(len(S))
    while n < M:
        n += 1
        r = e.findExtrema(T, h)
        if len(r[0]) + len(r[2]) <= 2: return None
        h = h - mean
        mx, mn, _, _ = e.extractMaxMinSpline(T, h)
        if isinstance(mx, int): return None
        mean = 0.5*(mx + mn)
        r = e.findExtrema(T, h)
        if n == 1: continue
        nh = nh + 1 if abs(len(r[0]) + len(r[2]) - len(r[4])) <= 1 else 0
        if nh >= H: return h
    return None
bad = 0
for sd in range(200):
    S = np.cumsum(np.random.RandomState(sd).normal(size=40))
    w = ref(S, 3)
    if w is None: continue
    e = EMD(); e.FIXE_H = 3
    bad += not np.allclose(e.emd(e, S, np.arange(40.), 2)[0][0], w, atol=1e-8)
print(bad)
assert bad == 0
""", "counts that match, differ and match again", "rounds counted for the second fixed mode are no longer consecutive")

seed("c18-start", "C18", [("PyEMD/experimental/jitemd.py", "n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0", "n_h = n_h + 1 if abs(extNo - nzm) < 2 else n_h")], """
from PyEMD import EMD
from PyEMD.experimental.jitemd import JitEMD, default_emd_config, get_timeline
cfg = dict(default_emd_config); cfg['FIXE_H'] = 3
bad = 0
for sd in range(200):
    S = np.cumsum(np.random.RandomState(sd).normal(size=40))
    a = EMD(FIXE_H=3).emd(S, max_imf=1)
    b = JitEMD(config=cfg).emd(S, get_timeline(len(S), S.dtype), max_imf=1)
    bad += a.shape != b.shape or not np.allclose(a, b, atol=1e-6)
print(bad)
assert bad == 0
""", "a sifting history in which the counts match, differ and match again", "compiled variant counts rounds that are not consecutive")

seed("c19-corner", "C19", [("PyEMD/EMD2d.py", "big_image[2 * shape[0] :, : shape[1]] = image_ud_lr", "big_image[2 * shape[0] :, : shape[1]] = image_lr")], """
from PyEMD.EMD2d import EMD2D
A = np.arange(12.).reshape(3, 4)
assert np.array_equal(EMD2D.prepare_image(A), np.pad(A, ((3, 3), (4, 4)), mode='symmetric'))
""", "images that are not symmetric near the lower left corner", "one corner of the edge extension is not mirrored vertically")

seed("c19-mse", "C19", [("PyEMD/EMD2d.py", "        mse_proto_imf = np.mean(proto_imf * proto_imf)\n        if mse_proto_imf < self.mse_thr:", "        mse_proto_imf = np.mean(proto_imf * proto_imf_prev)\n        if mse_proto_imf < self.mse_thr:")], """
from PyEMD.EMD2d import EMD2D
e = EMD2D()
x = np.array([[1., -1], [1, -1]])
assert not e.check_proto_imf(x, -x, np.array([[5., -5], [5, -5]]))
""", "a candidate that changed sign against the round before", "the mean square is taken of the product of two rounds")

seed("c20-nh", "C20", [("PyEMD/BEMD.py", "                            n_h += 1\n                        else:\n                            n_h = 0", "                            n_h += 1\n                        elif n_h > 1:\n                            n_h = 0")], """
from PyEMD.BEMD import BEMD
def ref(im, H, M, thr):
    b = BEMD(); b.mean_thr = thr
    h = im.copy(); nh = 0
    for n in range(1, M + 1):
        lo, hi = b.find_extrema_positions(h)
        if len(lo[0]) < 2 or len(hi[0]) < 2: return h
        p, q = b.extract_max_min_spline(h, lo, hi)
        mean = 0.5*(p + q); old = h; h = h - mean
        if n == 1: continue
        nh = nh + 1 if b.check_proto_imf(h, old, mean) else 0
        if nh >= H: return h
    return h
bad = 0
for sd in range(150):
    im = np.random.RandomState(sd).normal(size=(7, 8)) * 3
    for thr in (1, 2, 3, 4, 5, 6):
        b = BEMD(); b.FIXE = 0; b.FIXE_H = 2; b.MAX_ITERATION = 8; b.mean_thr = thr
        bad += not np.allclose(b.bemd(im, max_imf=1)[0], ref(im, 2, 8, thr), atol=1e-6)
print(bad)
assert bad == 0
""", "a criterion met once, missed, and met again", "rounds counted are no longer consecutive after a single hit")

seed("c21-nh", "C21", [("PyEMD/EMD2d.py", "                        if self.check_proto_imf(imf, imf_old, mean_env):\n                            n_h += 1\n                        else:\n                            n_h = 0", "                        if self.check_proto_imf(imf, imf_old, mean_env):\n                            n_h += 1\n                        elif n_h < self.FIXE_H - 1:\n                            n_h = 0")], """
from PyEMD.EMD2d import EMD2D
def sift(e, g, M, H=None):
    h, nh, sw = g.copy(), 0, []
    for n in range(1, M + 1):
        lo, hi = e.find_extrema(h)
        if len(lo[0]) < 5 or len(hi[0]) < 5: break
        a, b = e.extract_max_min_spline(h)
        mean = 0.5*(a + b); old = h; h = h - mean
        sw.append(np.max(np.abs(mean - mean.mean())))
        if H is None or n == 1: continue
        nh = nh + 1 if e.check_proto_imf(h, old, mean) else 0
        if nh >= H: break
    return h, sw
bad = used = 0
for sd in range(60):
    im = np.random.RandomState(sd).normal(size=(24, 22))
    g = (im - im.min()) / np.ptp(im)
    sw = sift(EMD2D(), g, 10)[1]
    for k in range(2, len(sw)):
        if sw[k] > 1.02 * sw[k-1]:
            e = EMD2D(FIXE=0, FIXE_H=2, MAX_ITERATION=10, mean_thr=(sw[k] + sw[k-1])/2, mse_thr=1e-9)
            out = e.emd(im, max_imf=1)
            if len(out) < 2: continue
            used += 1
            bad += not np.allclose(out[0] / np.ptp(im), sift(e, g, 10, 2)[0], atol=1e-6)
print(bad, used)
assert bad == 0 and used > 0
""", "a criterion that is met, missed and met again in the mode that counts rounds", "a miss just before the goal does not reset the count")


seed("c09-options", "C09", [("PyEMD/EEMD.py", "            self.EMD = EMD(**kwargs)", "            self.EMD = EMD(**{k: v for k, v in kwargs.items() if not k.startswith(\"FIXE\")})")], """
from PyEMD import EEMD, EMD
S = np.cumsum(np.random.RandomState(3).normal(size=60))
r = []
for kw in ({"FIXE_H": 4}, {"ext_EMD": EMD(FIXE_H=4)}):
    e = EEMD(trials=4, parallel=False, **kw); e.noise_seed(7)
    r.append(e(S))
assert r[0].shape == r[1].shape and np.allclose(r[0], r[1])
""", "a stopping rule given to the ensemble instead of to a supplied decomposition", "trials ignore the requested stopping rule")

seed("c12-default-kind", "C12", [("PyEMD/CEEMDAN.py", "        self.beta_progress = bool(kwargs.get(\"beta_progress\", True))  # Scale noise by std", "        self.beta_progress = bool(kwargs.get(\"beta_progress\", ext_EMD is not None))  # Scale noise by std")], """
from PyEMD import CEEMDAN, EMD
S = np.cumsum(np.random.RandomState(3).normal(size=60))
a = CEEMDAN(trials=4, epsilon=0.5, parallel=False, seed=3)(S)
b = CEEMDAN(trials=4, epsilon=0.5, parallel=False, seed=3, beta_progress=True)(S)
assert a.shape == b.shape and np.allclose(a, b)
""", "no supplied decomposition and the normalisation left at its default", "noise modes are not normalised")
