"""Deterministic workload generators: everything is a function of a JSON spec."""
import numpy as np
import scipy.signal as ss


def rng_of(*key):
    return np.random.default_rng([int(k) & 0xFFFFFFFF for k in key])


def source(rng, kind, T):
    if kind == "white":
        x = rng.standard_normal(T)
    elif kind == "uniform":
        x = rng.uniform(-1, 1, T)
    elif kind == "laplace":
        x = rng.laplace(size=T)
    elif kind == "sparse":
        x = rng.standard_normal(T) * (rng.random(T) < 0.1)
        x[rng.integers(T)] += 1.0
    elif kind == "ar":
        p = rng.uniform(0.3, 0.9)
        th = rng.uniform(0, np.pi)
        x = ss.lfilter([1], [1, -2 * p * np.cos(th), p * p], rng.standard_normal(T + 50))[50:]
    elif kind == "burst":
        env = np.abs(np.sin(np.linspace(0, rng.uniform(1, 9), T) + rng.uniform(0, 3))) ** 2
        x = rng.standard_normal(T) * (env + 1e-3)
    elif kind == "padded":
        x = rng.standard_normal(T)
        n = T // 4
        x[:n] = 0
        x[T - n :] = 0
        if not np.any(x):
            x[T // 2] = 1.0
    elif kind == "impulse":
        x = 0.05 * rng.standard_normal(T)
        x[rng.integers(T)] += rng.choice([-1, 1]) * 3
    elif kind == "ints":
        x = rng.integers(-9, 10, T).astype(float)
        x[0] += 1
    elif kind == "speech":  # strongly coloured
        p = rng.uniform(0.9, 0.97)
        x = ss.lfilter([1], [1, -p], rng.standard_normal(T + 200))[200:]
        x = x * (0.2 + np.abs(np.sin(np.arange(T) / max(T, 1) * 7)))
    else:
        raise ValueError(kind)
    return x


KINDS = ["white", "uniform", "laplace", "sparse", "ar", "burst", "padded", "impulse", "ints"]
KINDS_HARD = KINDS + ["speech"]


def make(spec):
    """spec: seed, batch, n_ref, n_est, T, kind, snr (dB), leak (dB), taps,
    shuffle, scale, dc, rho  ->  (ref, est) float64"""
    rng = rng_of(spec["seed"], 77)
    batch = tuple(spec.get("batch", ()))
    C, M, T = spec["n_ref"], spec["n_est"], spec["T"]
    nb = int(np.prod(batch)) if batch else 1
    ref = np.empty((nb, C, T))
    est = np.empty((nb, M, T))
    kind = spec.get("kind", "white")
    for b in range(nb):
        for c in range(C):
            k = KINDS[rng.integers(len(KINDS))] if kind == "mixed" else kind
            s = source(rng, k, T)
            n = np.linalg.norm(s)
            ref[b, c] = s * (np.sqrt(T) / n if n > 0 else 1.0)
        rho = spec.get("rho", 0.0)
        if rho and C > 1:
            mix = (1 - rho) * np.eye(C) + rho / C
            ref[b] = mix @ ref[b]
        for m in range(M):
            t = rng.standard_normal(T)
            main = ref[b, m % C] if m < C or rng.random() < 0.5 else rng.standard_normal(T)
            taps = spec.get("taps", 1)
            if taps > 1:
                h = rng.standard_normal(taps) * np.exp(-np.arange(taps) / max(1.0, taps / 4))
                h[0] += 2.0
                h /= np.linalg.norm(h)
                main = np.convolve(main, h)[:T]
            leak = 10 ** (spec.get("leak", -10.0) / 20)
            snr = 10 ** (-spec.get("snr", 20.0) / 20)
            g = rng.standard_normal(C) * leak / np.sqrt(C)
            est[b, m] = main + g @ ref[b] + snr * t
        if spec.get("shuffle", True):
            est[b] = est[b][rng.permutation(M)]
    if spec.get("twin"):
        # almost the same element again and again, the best pairing hanging on the difference
        e = spec["twin"]
        t = 10 ** (-spec.get("snr", 20.0) / 20) * rng.standard_normal((M, T))
        for b in range(nb):
            ref[b] = ref[0]
            for m in range(M):
                w = (-1.0) ** np.arange(C) * (1 + e * rng.standard_normal(C))
                est[b, m] = w @ ref[0] + t[0] + e * t[m]
    if spec.get("late"):
        # nothing that the first part of the signals would tell
        h = T - T // 8
        ref[..., h:] = np.roll(ref[..., h:], 1, axis=-2) * -2.0
        est[..., h:] += rng.standard_normal(est[..., h:].shape) * 2.0
        ref[..., h:] += 1.5
        est[..., h:] += 2.5
    if spec.get("tail"):
        # much of the energy within a few samples at both ends
        k = min(spec["tail"], T)
        for x in (ref, est):
            x[..., :k] += rng.standard_normal(x[..., :k].shape) * 0.4 * np.sqrt(T / k)
            x[..., T - k:] += rng.standard_normal(x[..., T - k:].shape) * 0.6 * np.sqrt(T / k)
    sc = spec.get("scale", 0.0)  # decades of per-channel gain
    if sc:
        ref *= 10.0 ** rng.uniform(-sc, sc, (nb, C, 1))
        est *= 10.0 ** rng.uniform(-sc, sc, (nb, M, 1))
    dc = spec.get("dc", 0.0)
    if dc:
        ref += dc * ref.std(-1, keepdims=True) * rng.uniform(-1, 1, (nb, C, 1))
        est += dc * est.std(-1, keepdims=True) * rng.uniform(-1, 1, (nb, M, 1))
    return ref.reshape(batch + (C, T)), est.reshape(batch + (M, T))


def make_cast(spec):
    ref, est = make(spec)
    dt = {"f32": np.float32, "f64": np.float64}[spec.get("dtype", "f64")]
    return ref.astype(dt), est.astype(dt)


L_SMALL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33]
L_MID = [40, 48, 63, 64, 65, 100, 127, 128, 129, 160]
L_BIG = [200, 256, 257, 300, 400, 512]


def pick(rng, xs, p=None):
    return xs[int(rng.choice(len(xs), p=p))]


def cost(c):
    nb = int(np.prod(c["batch"])) if c["batch"] else 1
    return nb * ((c["n_ref"] * c["L"]) ** 3 + c["n_ref"] * c["L"] * c["T"] * 4.0 + 40.0 * c["L"] ** 3)


def long_filters(seed, n=1):
    """filters longer than any in rand_cfg; a few seconds each"""
    k = 0
    for i in range(n):
        for be in ("np", "pt"):
            for L, T, C, M, dt in ((700, 6000, 1, 2, "f64"), (1024, 9000, 1, 1, "f32"), (1025, 5000, 1, 1, "f64"),
                                   (600, 8000, 2, 2, "f64")):
                k += 1
                yield dict(seed=seed * 131 + k, backend=be, dtype=dt, L=L, n_ref=C, n_est=M, batch=[], T=T, kind="white",
                           snr=15.0, leak=-9.0, taps=30)


def huge_signals(seed, n=1):
    """signals of many minutes; sizes on both sides of transform limits"""
    k = 0
    for i in range(n):
        for be in ("np", "pt"):
            for T, L, C, M, dt in ((262145, 6, 2, 2, "f64"), (480000, 3, 2, 2, "f32"), (524289, 2, 2, 1, "f64"),
                                   (1048577, 4, 1, 2, "f64"), (960000, 1, 2, 2, "f64")):
                k += 1
                yield dict(seed=seed * 137 + k, backend=be, dtype=dt, L=L, n_ref=C, n_est=M, batch=[], T=T, kind="white",
                           snr=15.0, leak=-9.0, taps=3, late=True)


def medium_signals(seed, n=24):
    """seconds of sound, several at once, with every option: the sizes of real use"""
    rng = rng_of(seed, 72)
    for i in range(n):
        C = int(pick(rng, [1, 2, 2, 3, 4]))
        yield dict(seed=int(rng.integers(2**31)), backend=("np", "pt")[i % 2], dtype=pick(rng, ["f64", "f32"]),
                   L=int(pick(rng, [1, 2, 8, 16, 32, 100])), n_ref=C, n_est=int(pick(rng, [C, C, 1, 3])),
                   batch=pick(rng, [[], [2], [3], [2, 2], [5]]), T=int(rng.integers(12000, 100000 // C)),
                   kind=pick(rng, ["white", "mixed", "padded", "burst"]), snr=float(pick(rng, [0.0, 15.0, 30.0])), leak=-9.0,
                   taps=4)


def edge_signals(seed, taps=(1, 2, 5, 16), n=1):
    """lengths around multiples of what a block could be, the energy at both ends"""
    rng = rng_of(seed, 71)
    for i in range(n):
        for be in ("np", "pt"):
            for B in (256, 512, 1000, 1024, 2048, 4096, 8192, 16000, 16384):
                for d in range(-2, 8):
                    T = B * int(rng.integers(1, 4 if B > 2000 else 9)) + d
                    L = int(pick(rng, list(taps)))
                    C = int(pick(rng, [1, 2, 2, 3]))
                    yield dict(seed=int(rng.integers(2**31)), backend=be, dtype=("f64", "f32")[d % 3 == 0], L=L, n_ref=C,
                               n_est=int(pick(rng, [C, C, 1, 2])), batch=pick(rng, [[], [], [2]]), T=T, kind="white", snr=15.0,
                               leak=-9.0, taps=min(L, 4), tail=int(pick(rng, [1, 2, 3, 8])))


def rand_cfg(rng, square=False, L=None, dtype=None, backend=None, budget=4e8,
             hard=False, max_c=8, batch=None, min_c=1, kinds=None, T=None):
    """one random configuration; heavy tails in every dimension, bounded cost"""
    for _ in range(200):
        c = {}
        c["seed"] = int(rng.integers(2**31))
        c["backend"] = backend or pick(rng, ["np", "pt"])
        c["dtype"] = dtype or pick(rng, ["f64", "f32"], [0.6, 0.4])
        if L is None:
            g = pick(rng, [L_SMALL, L_MID, L_BIG], [0.72, 0.2, 0.08])
            c["L"] = pick(rng, g)
        else:
            c["L"] = L if not isinstance(L, list) else pick(rng, L)
        cs = [k for k in [1, 2, 3, 4, 5, 6, 7, 8, 10, 12] if min_c <= k <= max_c]
        w = np.array([{1: 2, 2: 6, 3: 4, 4: 3}.get(k, 1) for k in cs], float)
        c["n_ref"] = pick(rng, cs, w / w.sum())
        if square or rng.random() < 0.6:
            c["n_est"] = c["n_ref"]
        else:
            c["n_est"] = pick(rng, cs, w / w.sum())
        if batch is None:
            c["batch"] = pick(rng, [[], [1], [2], [3], [2, 2], [1, 3], [5], [2, 1, 2], [9], [17], [33]],
                              np.array([8, 4, 4, 4, 2, 2, 2, 1, 1, 1, 0.5]) / 29.5)
        else:
            c["batch"] = batch
        t = rng.random()
        if T is not None:
            c["T"] = T
        elif t < 0.15:
            c["T"] = int(pick(rng, [64, 128, 255, 256, 257, 500, 512, 1000, 1024, 2048, 4096]))
        elif t < 0.9:
            c["T"] = int(rng.integers(60, 1500))
        else:
            c["T"] = int(rng.integers(1500, 9000))
        # enough samples that the joint system is well posed
        # extremes of one dimension at a time
        x = rng.random()
        if x < 0.015 and T is None:
            c["T"] = int(pick(rng, [32768, 32769, 48000, 65535, 65536, 65537, 100003, 131072, 131073, 200000, 262145]))
            c["L"] = min(c["L"], 40) if L is None else c["L"]
            c["n_ref"], c["n_est"] = min(c["n_ref"], 3), min(c["n_est"], 3)
            if batch is None:
                c["batch"] = c["batch"] if c["batch"] in ([], [1], [2]) else []
        elif x < 0.025 and max_c >= 8:
            c["n_ref"] = int(pick(rng, [9, 11, 13, 14, 16, 18, 20]))
            c["n_est"] = c["n_ref"] if square or rng.random() < 0.5 else int(pick(rng, [1, 2, 9, 13, 16, 20]))
            c["L"] = min(c["L"], 8) if L is None else c["L"]
        elif x < 0.035 and batch is None:
            c["batch"] = pick(rng, [[64], [65], [100], [128], [257], [16, 16], [4, 5, 6], [512]])
            c["T"] = min(c["T"], 400)
        if c["T"] < 2 * c["n_ref"] * c["L"] + 20:
            c["T"] = int(2 * c["n_ref"] * c["L"] + 20 + rng.integers(0, 200))
        c["kind"] = pick(rng, kinds or ((KINDS_HARD if hard else KINDS) + ["mixed"]))
        if c["dtype"] == "f64":
            c["snr"] = float(pick(rng, [-40, -20, 0, 10, 20, 30, 60]))
            c["leak"] = float(pick(rng, [-60, -40, -20, -10, 0, 6]))
        else:
            c["snr"] = float(pick(rng, [-25, -10, 0, 10, 20, 30]))
            c["leak"] = float(pick(rng, [-30, -20, -10, 0]))
        c["taps"] = int(pick(rng, [1, 1, 2, max(1, c["L"] // 2), c["L"], c["L"] + 3]))
        c["scale"] = float(pick(rng, [0, 0, 1, 2]))
        c["dc"] = float(pick(rng, [0, 0, 0, 0.5, 3]))
        c["rho"] = float(pick(rng, [0, 0, 0, 0.5]))
        if cost(c) <= budget:
            return c
    c.update(L=8, n_ref=2, n_est=2, T=400, batch=[])
    return c
