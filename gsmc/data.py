"""Plain-array scenes, enumerable value/layout/route choices, and exact comparison."""
import numpy as np

from gsmc.core import need

ATTRS = ("means", "scales", "quats", "opacities", "sh0", "shN")
KS = (0, 3, 8, 15)
DEG = {0: 0, 3: 1, 8: 2, 15: 3}


class Plain:
    """A scene as plain arrays (the oracle): shN is always (N, K, 3)."""

    def __init__(self, means, scales, quats, opacities, sh0, shN, labels=("ply", "ply", "sh"),
                 masks=None, names=None):
        self.means, self.scales, self.quats = means, scales, quats
        self.opacities, self.sh0, self.shN = opacities, sh0, shN
        self.labels = tuple(labels)      # (scales, opacities, sh0)
        self.masks = masks               # None or (N, L) bool
        self.names = names               # None or list[str]

    def __len__(self):
        return len(self.means)

    @property
    def k(self):
        return self.shN.shape[1]

    def arrays(self):
        return [getattr(self, a) for a in ATTRS]

    def copy(self):
        return Plain(*[a.copy() for a in self.arrays()], labels=self.labels,
                     masks=None if self.masks is None else self.masks.copy(),
                     names=None if self.names is None else list(self.names))

    def take(self, idx):
        return Plain(*[a[idx].copy() for a in self.arrays()], labels=self.labels,
                     masks=None if self.masks is None else self.masks[idx].copy(),
                     names=None if self.names is None else list(self.names))

    def table(self):
        """(N, 14+3K) float32 in PLY property order."""
        n, k = len(self), self.k
        out = np.empty((n, 14 + 3 * k), np.float32)
        out[:, 0:3] = self.means
        out[:, 3:6] = self.sh0
        out[:, 6 : 6 + 3 * k] = self.shN.transpose(0, 2, 1).reshape(n, 3 * k)
        o = 6 + 3 * k
        out[:, o] = self.opacities
        out[:, o + 1 : o + 4] = self.scales
        out[:, o + 4 : o + 8] = self.quats
        return out

    @staticmethod
    def from_table(t):
        n, p = t.shape
        k = (p - 14) // 3
        o = 6 + 3 * k
        return Plain(t[:, 0:3].copy(), t[:, o + 1 : o + 4].copy(), t[:, o + 4 : o + 8].copy(),
                     t[:, o].copy(), t[:, 3:6].copy(),
                     t[:, 6:o].reshape(n, 3, k).transpose(0, 2, 1).copy())


# --- values -----------------------------------------------------------------------------

def unique(n, k, salt=0):
    """Every cell a distinct, finite float32 so that any permutation or mix-up shows."""
    p = 14 + 3 * k
    i = np.arange(n * p, dtype=np.int64).reshape(n, p)
    t = (((i * 7 + salt * 13 + 1) % 16777213).astype(np.float64) / 4096.0 - 1000.0 - salt).astype(np.float32)
    # make it look like PLY units to the documented automatic rule: negative scales, wide logits
    o = 6 + 3 * k
    t[:, o + 1 : o + 4] = -np.abs(t[:, o + 1 : o + 4]) - 1.0
    return Plain.from_table(t)


def realistic(n, k, salt=0):
    """Deterministic, distinct, well-conditioned values in PLY units."""
    def w(i, m):  # low-discrepancy in (0,1)
        return np.modf((i + 1) * m + salt * 0.137)[0]
    i = np.arange(n, dtype=np.float64)[:, None]
    j3, j4 = np.arange(3)[None], np.arange(4)[None]
    means = (w(i * 3 + j3, 0.6180339887498949) * 20 - 10)
    scales = -7.0 + 5.5 * w(i * 3 + j3, 0.7548776662466927)
    quats = w(i * 4 + j4, 0.5698402909980532) * 2 - 1
    q = quats / np.maximum(np.linalg.norm(quats, axis=1, keepdims=True), 1e-3)
    op = w(i[:, 0], 0.8191725133961645) * 10 - 5
    sh0 = w(i * 3 + j3, 0.6710436067037893) * 4 - 2
    shn = (w(np.arange(n * k * 3, dtype=np.float64).reshape(n, k, 3), 0.4198765432109) * 2 - 1)
    return Plain(*[np.ascontiguousarray(a, dtype=np.float32) for a in (means, scales, q, op, sh0, shn)])


SPECIALS = np.array([0x00000000, 0x80000000, 0x00000001, 0x80000001, 0x007FFFFF, 0x00800000, 0x3F800000,
                     0xBF800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00001,
                     0x7FC12345, 0x34000000, 0x3F000000, 0x41200000, 0xC1A00000], np.uint32).view(np.float32)


def special(n, k, salt=0):
    """Every special bit pattern rotates through every column."""
    p = 14 + 3 * k
    i = np.arange(n)[:, None] + np.arange(p)[None] + salt
    return Plain.from_table(SPECIALS[i % len(SPECIALS)].reshape(n, p).copy())


# --- memory layouts -----------------------------------------------------------------------

LAYOUTS = ("C", "F", "rev", "step", "cols", "ro", "f64", "be")


def lay(a, layout):
    if layout == "C":
        return np.array(a, order="C", copy=True)
    if layout == "F":
        return np.array(a, order="F", copy=True)
    if layout == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == "step":
        b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
        b[::2] = a
        b[1::2] = 77.5
        return b[::2]
    if layout == "cols":
        if a.ndim == 1:
            b = np.full((len(a), 3), 88.5, a.dtype)
            b[:, 1] = a
            return b[:, 1]
        b = np.full((len(a), a.shape[1] + 3) + a.shape[2:], 88.5, a.dtype)
        b[:, 2 : 2 + a.shape[1]] = a
        return b[:, 2 : 2 + a.shape[1]]
    if layout == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    if layout == "f64":
        return a.astype(np.float64)
    if layout == "be":
        return a.astype(">f4")
    raise KeyError(layout)


def layp(p, layout):
    return Plain(*[lay(a, layout) for a in p.arrays()], labels=p.labels,
                 masks=p.masks, names=p.names)


# --- labels -------------------------------------------------------------------------------

def fmt(labels, k):
    from gsply.gsdata import DataFormat as D
    return {
        "scales": D.SCALES_PLY if labels[0] == "ply" else D.SCALES_LINEAR,
        "opacities": D.OPACITIES_PLY if labels[1] == "ply" else D.OPACITIES_LINEAR,
        "sh0": D.SH0_SH if labels[2] == "sh" else D.SH0_RGB,
        "sh_order": {0: D.SH_ORDER_0, 3: D.SH_ORDER_1, 8: D.SH_ORDER_2, 15: D.SH_ORDER_3}.get(k, D.SH_ORDER_0),
        "means": D.MEANS_RAW, "quats": D.QUATS_RAW,
    }


def labels_of(g):
    """Labels through the public properties; contradictory or absent ones are reported as such."""
    def two(a, b, na, nb):
        return na if (a and not b) else nb if (b and not a) else f"?{a}{b}"
    return (two(g.is_scales_ply, g.is_scales_linear, "ply", "linear"),
            two(g.is_opacities_ply, g.is_opacities_linear, "ply", "linear"),
            two(g.is_sh0_sh, g.is_sh0_rgb, "sh", "rgb"))


def order_of(g):
    o = [i for i, v in enumerate((g.is_sh_order_0, g.is_sh_order_1, g.is_sh_order_2, g.is_sh_order_3)) if v]
    return o[0] if len(o) == 1 else tuple(o)


# --- building library objects -------------------------------------------------------------

def gsdata(p, layout="C", shn_none=False):
    import gsply
    a = [lay(x, layout) for x in p.arrays()]
    if p.k == 0 and shn_none:
        a[5] = None
    masks = None
    if p.masks is not None:
        masks = p.masks.copy()
    return gsply.GSData(*a, _format=fmt(p.labels, p.k), masks=masks,
                        mask_names=None if p.names is None else list(p.names))


def npy(a):
    if a is None:
        return None
    if hasattr(a, "detach"):
        return a.detach().cpu().numpy()
    return np.asarray(a)


def bits(a):
    a = np.ascontiguousarray(a)
    if a.dtype == np.float32:
        return a.view(np.uint32)
    return a


def plain_of(g):
    """Current observable contents of a library scene (array or tensor)."""
    a = [npy(getattr(g, x)) for x in ATTRS]
    n = len(a[0])
    if a[5] is None:
        a[5] = np.zeros((n, 0, 3), a[0].dtype)
    m = npy(g.masks)
    if m is not None and m.ndim == 1:
        m = m[:, None]
    names = g.mask_names
    return Plain(*[np.array(x, copy=True) for x in a], labels=labels_of(g),
                 masks=None if m is None else np.array(m, copy=True), names=None if names is None else list(names))


def same(got, want, what="scene", dtype=np.float32, masks=True, labels=True, nan_ok=False):
    """Exact equality of two Plain scenes (bitwise for float32)."""
    for a in ATTRS:
        x, y = getattr(got, a), getattr(want, a)
        need(x.shape == y.shape, f"{what}:{a}:shape", lambda: f"{a} has shape {x.shape}, expected {y.shape}")
        if dtype is not None:
            need(x.dtype == dtype, f"{what}:{a}:dtype", lambda: f"{a} has dtype {x.dtype}")
        if x.dtype == y.dtype:
            eq = bits(x) == bits(y)
        else:
            eq = (x == y) | ((x != x) & (y != y))
        if not np.all(eq):
            i = tuple(int(v) for v in np.argwhere(~eq)[0])
            need(False, f"{what}:{a}:value", f"{a}{list(i)} is {x[i]!r}, expected {y[i]!r} ({int((~eq).sum())} of {eq.size} differ)")
    if labels:
        need(got.labels == want.labels, f"{what}:labels", lambda: f"labels {got.labels}, expected {want.labels}")
    if masks:
        same_masks(got, want, what)


def same_masks(got, want, what="scene"):
    need((got.masks is None) == (want.masks is None), f"{what}:masks:presence",
         lambda: f"masks {'absent' if got.masks is None else 'present'}, expected the opposite")
    if got.masks is not None:
        need(got.masks.dtype == bool, f"{what}:masks:dtype", lambda: f"masks dtype {got.masks.dtype}")
        need(got.masks.shape == want.masks.shape and bool(np.all(got.masks == want.masks)), f"{what}:masks:value",
             lambda: f"masks {got.masks.astype(int).tolist()[:8]} expected {want.masks.astype(int).tolist()[:8]}")
    need(got.names == want.names, f"{what}:mask_names", lambda: f"mask names {got.names}, expected {want.names}")


def check(g, want, what="scene", **kw):
    same(plain_of(g), want, what, **kw)
    need(len(g) == len(want), f"{what}:len", lambda: f"len {len(g)} expected {len(want)}")
    need(g.get_sh_degree() == DEG.get(want.k), f"{what}:sh_degree",
         lambda: f"get_sh_degree() {g.get_sh_degree()} for {want.k} bands")


def snapshot(g):
    """Everything observable of a scene, for before/after comparison (bitwise)."""
    p = plain_of(g)
    return ([bits(a).tobytes() for a in p.arrays()], [str(a.dtype) for a in p.arrays()], [a.shape for a in p.arrays()],
            None if p.masks is None else (p.masks.tobytes(), npy(g.masks).shape), p.names,
            sorted((k, str(v)) for k, v in g.format_state.items()))
