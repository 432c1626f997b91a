"""Recording stand-ins for the trial decomposition (the `ext_EMD` plug-in point of the ensemble variants)."""
import time
import numpy as np


class Rows:
    """Small integer components that identify the noise they came from."""

    def __init__(self, sig, sleep=0.0, allow_empty=False, maxm=4, few=False):
        self.sig, self.sleep, self.allow_empty, self.maxm, self.few = np.asarray(sig, dtype=float), sleep, allow_empty, maxm, few
        self.calls = []
        self.last = None

    def rows(self, noise, max_imf):
        a = int(abs(float(noise[0])) * 1e5) % 19
        m = 1 + (a * 7 + 3) % self.maxm
        if self.few:
            m = 1 + (a % 5 == 0)
        if max_imf is not None and max_imf > 0:
            m = min(m, max_imf + 1)
        n = len(noise)
        return np.array([[float((a + 5 * k * k + (k + 1) * i * (1 + a % 3)) % 41 - 20) for i in range(n)] for k in range(m)]).reshape(m, n)

    def emd(self, S, T=None, max_imf=-1):
        noise = np.asarray(S, dtype=float) - self.sig
        r = self.rows(noise, max_imf)
        if self.sleep:
            time.sleep(self.sleep * (int(abs(float(noise[-1])) * 1e5) % 5))
        self.last = r
        self.calls.append((np.array(noise), None if T is None else np.array(T), max_imf, r))
        return r.copy()

    __call__ = emd

    def get_imfs_and_trend(self):
        return self.last[:-1].copy(), self.last[-1].copy()

    def get_imfs_and_residue(self):
        return self.last[:-1].copy(), self.last[-1].copy()
