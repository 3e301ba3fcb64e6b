"""Statistical oracles with false-alarm probabilities around 1e-10 per use."""
import numpy as np
from scipy import stats

from harness.core import fail


def check_tails(z, sf, levels, msg, **ctx):
    """Number of values beyond +-level against its binomial law (sf: survival function of one side)."""
    N = z.size
    for lev in levels:
        p = float(sf(lev))
        for side, k in (("above", int(np.sum(z > lev))), ("below -", int(np.sum(z < -lev)))):
            if min(stats.binom.cdf(k, N, p), stats.binom.sf(k - 1, N, p)) < 1e-12:
                fail(f"{msg} ({k} of {N} values {side} {lev}, expected {N * p:.1f})", **ctx)


def check_standard_normal(w, msg, **ctx):
    """w: (steps, dims) array of supposedly iid N(0,1)."""
    w = np.asarray(w, dtype=float)
    N = w.size
    if N < 200:
        return False
    z = w.ravel()
    m = z.mean() * np.sqrt(N)
    if abs(m) > 7:
        fail(msg + ": noise mean is not 0", z=m, N=N, **ctx)
    v = (np.mean(z**2) - 1) / np.sqrt(2 / N)
    if abs(v) > 9:
        fail(msg + ": noise variance is not 1", var=float(np.mean(z**2)), N=N, **ctx)
    if N >= 500:
        p = stats.kstest(z, "norm").pvalue
        if p < 1e-11:
            fail(msg + ": noise is not standard normal (KS)", p=p, N=N, **ctx)
    if N >= 5000:
        check_tails(z, stats.norm.sf, (2.0, 2.5, 3.0, 3.5, 4.0, 4.5), msg + ": noise is not standard normal", **ctx)
    if w.ndim == 2 and w.shape[0] >= 50:
        a = np.sum(w[1:] * w[:-1]) / np.sqrt(w[1:].size)
        if abs(a) > 8:
            fail(msg + ": noise of successive steps is correlated", z=float(a), **ctx)
        d = w.shape[1]
        if d > 1:
            c = (w.T @ w) / np.sqrt(w.shape[0])
            off = c - np.diag(np.diag(c))
            if np.abs(off).max() > 8.5:
                fail(msg + ": noise components are correlated", z=float(np.abs(off).max()), **ctx)
            lag = np.abs(w[1:].T @ w[:-1]).max() / np.sqrt(w.shape[0] - 1)
            if lag > 9:
                fail(msg + ": noise of successive steps is correlated", z=float(lag), **ctx)
            va = (np.mean(w**2, axis=0) - 1) / np.sqrt(2 / w.shape[0])
            if np.abs(va).max() > 11:
                fail(msg + ": noise variance of one component is not 1", z=float(np.abs(va).max()), **ctx)
    return True
