"""What quantisation permits: bounds on a decoded scene relative to the scene that was compressed (PLY units)."""
import numpy as np

from gsmc import refs
from gsmc.core import need
from gsmc.data import ATTRS

STEPS = np.array([2047.0, 1023.0, 2047.0])
QSTEP = refs.SQ2 / 1023.0


def chunk_extents(x):
    """Per-row min and max of the row's own 256-Gaussian chunk."""
    lo, hi = np.empty_like(x), np.empty_like(x)
    for c in range(0, len(x), 256):
        s = slice(c, c + 256)
        lo[s], hi[s] = x[s].min(0), x[s].max(0)
    return lo, hi


def _rows(bad, got, want, what, name):
    if bad.any():
        i = int(np.argwhere(bad.reshape(len(bad), -1).any(1))[0][0])
        need(False, f"{what}:{name}", f"row {i}: {name} decoded {np.asarray(got)[i]!r} from {np.asarray(want)[i]!r} ({int(bad.sum())} cells of {bad.size})")


def check_decoded(got, p, what="packed", slack=0.0, k=True):
    """`got` (Plain, decoded) must represent p (Plain, PLY units) within half a quantisation step (+slack steps)."""
    n = len(p)
    for a in ATTRS:
        x, y = getattr(got, a), getattr(p, a)
        need(x.shape == y.shape, f"{what}:{a}:shape", lambda: f"{a} {x.shape} expected {y.shape}")
        need(bool(np.isfinite(x).all()), f"{what}:{a}:finite", lambda: f"{a} decoded to {x[~np.isfinite(x)][:3]}")
    if n == 0:
        return
    half = 0.5 + slack
    for a, st in (("means", STEPS), ("scales", STEPS), ("sh0", np.full(3, 255.0))):
        x = getattr(p, a).astype(np.float64)
        if a == "scales":
            x = np.clip(x, -20, 20)
        lo, hi = chunk_extents(x)
        eps = 3e-7 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-36
        if a == "sh0":     # stored as sh*C0+0.5: float32 rounding of that intermediate
            eps = eps + 4e-7 / refs.C0 * (1 + refs.C0 * np.maximum(np.abs(lo), np.abs(hi)))
        tol = half * (hi - lo) / st + eps
        d = np.abs(getattr(got, a).astype(np.float64) - x)
        _rows(d > tol, getattr(got, a), getattr(p, a), what, a)
    # opacity: half an 8-bit probability step
    pr = refs.sigmoid(p.opacities)
    og = got.opacities.astype(np.float64)
    pg = np.where(og <= -9.9999, 0.0, np.where(og >= 9.9999, 1.0, refs.sigmoid(og)))
    need(bool((np.abs(og) <= 10.0).all()), f"{what}:opacities:range", lambda: f"opacity decoded to {og[np.abs(og) > 10][:3]}")
    _rows(np.abs(pg - pr) > half / 255 + 2e-6, got.opacities, p.opacities, what, "opacities")
    # rotation up to sign
    q = p.quats.astype(np.float64)
    nm = np.linalg.norm(q, axis=1, keepdims=True)
    okq = nm[:, 0] > 1e-6
    q = q / np.where(nm == 0, 1, nm)
    dq = got.quats.astype(np.float64)
    _rows(np.abs(np.linalg.norm(dq, axis=1) - 1) > 1e-5, got.quats, p.quats, what, "quats:norm")
    good = np.zeros(n, bool)
    for s in (1, -1):
        d = np.abs(dq - s * q)
        small = (d <= half * QSTEP + 2e-6).sum(1)
        good |= (d.max(1) <= 3.2 * half * QSTEP + 1e-5) & (small >= 3)
    _rows(~good & okq, got.quats, p.quats, what, "quats")
    if p.k and k:
        x = np.clip(p.shN.astype(np.float64), -127.5 / 32, 127.5 / 32)
        _rows(np.abs(got.shN.astype(np.float64) - x) > half / 32 + 1e-6, got.shN.reshape(n, -1), p.shN.reshape(n, -1), what, "shN")
