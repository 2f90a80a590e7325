"""Statistical tests with false alarm probabilities far below one per million runs."""
import numpy as np
import scipy.stats as ss

P_MIN = 1e-13
Z = 7.5


def binom_ok(k, n, p, pmin=P_MIN):
    """Is k successes of n plausible for success probability p?"""
    if p <= 0:
        return k == 0
    if p >= 1:
        return k == n
    return ss.binom.cdf(k, n, p) > pmin and ss.binom.sf(k - 1, n, p) > pmin


def counts_ok(counts, probs):
    n = int(np.sum(counts))
    for k, p in zip(counts, probs):
        if not binom_ok(int(k), n, float(min(max(p, 0.0), 1.0))):
            return False, (int(k), n, float(p))
    return True, None


def mean_ok(samples, mu, z=Z, slack=0.0):
    """Sample mean along axis 0 consistent with mu (CLT; for large samples of light tails)."""
    s = np.asarray(samples, dtype=float)
    se = s.std(axis=0, ddof=1) / np.sqrt(len(s))
    d = np.abs(s.mean(axis=0) - mu)
    return bool(np.all(d <= z * se + slack)), float(np.max(d / np.maximum(se, 1e-300)))


def cov_ok(samples, mu, cov, z=Z, slack=0.0):
    """Second moments about the known mean mu consistent with cov."""
    d = np.asarray(samples, dtype=float) - mu
    prod = d[:, :, None] * d[:, None, :]
    return mean_ok(prod.reshape(len(d), -1), np.asarray(cov).reshape(-1), z, slack)


def uniform_ok(v):
    """Kolmogorov-Smirnov test against U(0, 1)."""
    return ss.kstest(v, 'uniform').pvalue > P_MIN


def normal_ok(v):
    return ss.kstest(v, 'norm').pvalue > P_MIN
