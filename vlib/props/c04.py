"""C04: the assignment solvers are optimal and terminate on every matrix."""
import numpy as np
from scipy.optimize import linear_sum_assignment

from ..compare import digest
from ..core import LibraryRaised, Violation
from ..designed import from_coherence
from ..env import lib
from ..signals import pick, rng_of

RULE = (
    "cost matrices from fifteen families (continuous, heavy ties, graded products, rank one, permuted"
    " diagonals, all +inf or -inf rows, columns, blocks or everything, both signs, NaN, empty, huge dynamic"
    " range, permuted/strided views, up to 24 x 24, some up to 270 x 270, and all 0/1/2 matrices of size up to 3 x 3 in thorough)"
    " given to the assignment entry points of both backends, and matrices realised through signals for the"
    " public functions; non-trivial: min dimension at least two; distinct by matrix digest"
)
MUST = ["optimal_checked", "public_route", "nan_refused_publicly"]
FAM = ["float", "ties", "graded", "rank1", "permdiag", "inf_some", "inf_rows", "inf_cols", "inf_all", "range",
       "const", "nearties", "block", "neg", "inf_trap", "inf_trap", "fine"]


def cases(tier, seed):
    rng = rng_of(seed, 4)
    n = {"quick": 1560, "thorough": 32000}[tier]
    for i in range(n):
        yield dict(kind="direct", seed=int(rng.integers(2**31)), family=FAM[i % len(FAM)],
                   count={"quick": 12, "thorough": 25}[tier], dtype=pick(rng, ["f64", "f32"]),
                   solver=pick(rng, ["pt_plain", "pt_inf", "pt_inf", "np_inf"]), maxn=pick(rng, [4, 8, 24]))
    for i in range(n // 2):
        yield dict(kind="public", seed=int(rng.integers(2**31)), backend=pick(rng, ["pt", "pt", "np"]),
                   dtype=pick(rng, ["f64", "f32"]), n_ref=int(rng.integers(2, 15)), n_est=int(rng.integers(2, 15)),
                   nb=pick(rng, [1, 3, 20]), family=pick(rng, ["perm", "ties", "graded", "rand"]))
    for i in range(n // 6):
        yield dict(kind="public_nan", seed=int(rng.integers(2**31)), backend=pick(rng, ["pt", "np"]),
                   dtype=pick(rng, ["f64", "f32"]), n_ref=int(rng.integers(2, 7)), n_est=int(rng.integers(2, 7)),
                   nb=pick(rng, [1, 3]))
    # beyond the sizes where small integer types, recursion or quadratic tables still do
    for i in range(n // 60):
        yield dict(kind="direct", seed=int(rng.integers(2**31)), family=pick(rng, ["float", "ties", "nearties", "inf_some", "neg", "permdiag", "block", "inf_trap"]),
                   count=2, dtype=pick(rng, ["f64", "f32"]), solver=pick(rng, ["pt_plain", "pt_inf"]),
                   maxn=pick(rng, [40, 80, 140, 140, 270]), large=True)
        yield dict(kind="public", seed=int(rng.integers(2**31)), backend=pick(rng, ["pt", "pt", "np"]),
                   dtype=pick(rng, ["f64", "f32"]), n_ref=int(rng.integers(30, 140)), n_est=int(rng.integers(30, 140)),
                   nb=1, family=pick(rng, ["perm", "ties", "rand"]))
    for s in ("pt_plain", "pt_inf", "np_inf"):
        yield dict(kind="reject", seed=int(rng.integers(2**31)), solver=s, dtype="f64", count=40)
        yield dict(kind="empty", seed=1, solver=s, dtype="f64")
    if tier == "thorough":
        for s in ("pt_plain", "pt_inf"):
            for sh in ((1, 3), (2, 2), (2, 3), (3, 2), (3, 3)):
                k = sh[0] * sh[1]
                tot = 3**k
                for lo in range(0, tot, 3000):
                    yield dict(kind="enum", solver=s, shape=list(sh), lo=lo, hi=min(tot, lo + 3000), dtype="f64",
                               vals=[0, 1, 2])
        for sh in ((2, 2), (2, 3), (3, 2), (3, 3)):
            for sign in (1, -1):
                for s in ("pt_inf", "np_inf"):
                    k = sh[0] * sh[1]
                    for lo in range(0, 3**k, 3000):
                        yield dict(kind="enum", solver=s, shape=list(sh), lo=lo, hi=min(3**k, lo + 3000), dtype="f64",
                                   vals=[0, 3, sign * 1e999 if False else ("inf" if sign > 0 else "-inf")])
    else:
        for s in ("pt_plain", "pt_inf"):
            yield dict(kind="enum", solver=s, shape=[2, 3], lo=0, hi=729, dtype="f64", vals=[0, 1, 2])
            yield dict(kind="enum", solver=s, shape=[3, 2], lo=0, hi=729, dtype="f64", vals=[0, 1, 2])
        for v in ("inf", "-inf"):
            for s in ("pt_inf", "np_inf"):
                yield dict(kind="enum", solver=s, shape=[2, 3], lo=0, hi=729, dtype="f64", vals=[0, 3, v])
                yield dict(kind="enum", solver=s, shape=[3, 2], lo=0, hi=729, dtype="f64", vals=[0, 3, v])


def entry(solver):
    """the assignment entry points; None if the tree has no such function"""
    import importlib

    try:
        if solver == "pt_plain":
            return importlib.import_module("fast_bss_eval.torch.hungarian").linear_sum_assignment
        if solver == "pt_inf":
            return importlib.import_module("fast_bss_eval.torch.helpers")._linear_sum_assignment_with_inf
        return importlib.import_module("fast_bss_eval.numpy.helpers")._linear_sum_assignment_with_inf
    except (ImportError, AttributeError):
        return None


class Moved(Exception):
    """the internal entry point does not have the expected calling convention"""


def solve(solver, m, view=None):
    f = entry(solver)
    be = "np" if solver.startswith("np") else "pt"
    x = np.array(m)
    if be == "pt":
        x = lib.torch.from_numpy(x)
        if view == "T":
            x = lib.torch.from_numpy(np.ascontiguousarray(m.T)).T
        elif view == "grad":
            x = x.clone().requires_grad_(True)
    elif view == "T":
        x = np.asfortranarray(m)
    before = lib.to_np(x).copy()
    key = "assignment:" + solver
    lib.EVENTS[key] = lib.EVENTS.get(key, 0) + 1
    lib.STEPS.begin(lib.STEP_LIMIT)
    try:
        r, c = f(x)
    except lib.StepBudgetExceeded:
        raise
    except TypeError as e:
        raise Moved from e
    except Exception as e:
        raise LibraryRaised("assignment " + solver, be, e) from e
    finally:
        lib.STEPS.end()
    if solver == "pt_plain" and not np.array_equal(before, lib.to_np(x), equal_nan=True):
        raise Violation(f"{solver}: the cost matrix was modified", key="modified", matrix=before)
    return lib.to_np(r), lib.to_np(c)


def gen(rng, family, dt, maxn, minn=1):
    n = int(rng.integers(minn, maxn + 1))
    m = n if rng.random() < 0.4 else int(rng.integers(minn, maxn + 1))
    x = rng.standard_normal((n, m)) * 20
    if family == "ties":
        x = rng.integers(0, int(rng.integers(2, 6)), (n, m)).astype(float)
    elif family == "graded":
        x = np.outer(np.arange(1, n + 1), np.arange(1, m + 1)).astype(float)
    elif family == "rank1":
        x = np.outer(rng.standard_normal(n), rng.standard_normal(m))
    elif family == "permdiag":
        x = np.abs(x) + 1
        p = rng.permutation(max(n, m))
        for i in range(n):
            if p[i] < m:
                x[i, p[i]] = -rng.random()
    elif family == "range":
        x = x * 10.0 ** rng.integers(-6, 7, (n, m))
    elif family == "const":
        x = np.full((n, m), float(rng.integers(-5, 6)))
    elif family == "nearties":
        x = 10.0 + rng.integers(0, 3, (n, m)) * 1e-3
    elif family == "fine":
        # differences which only the precision of the matrix can tell
        base = float(rng.choice([-1.0, 1.0, 30.0, -200.0, 1e4]))
        x = base * (1 + rng.integers(0, 9, (n, m)) * (1e-9 if np.dtype(dt) == np.float64 else 1e-3) * 10.0 ** -rng.integers(0, 2))
    elif family == "block":
        x = np.kron(rng.integers(0, 3, ((n + 1) // 2, (m + 1) // 2)), np.ones((2, 2)))[:n, :m].astype(float)
    elif family == "neg":
        x = -np.abs(x) * 3 - 1
    elif family == "inf_trap":
        # one infinite entry more or less decides over all the finite ones: the
        # finite costs of the two candidates differ as much as they can
        lo, hi = np.sort(rng.choice([-1e3, -40.0, -3.0, -1.0, 0.0, 1.0, 2.0, 30.0, 500.0], 2, replace=False))
        q = min(n, m)
        k = int(rng.integers(1, q + 1))  # length of the cycle
        s = 1 if rng.random() < 0.5 else -1
        x = np.full((n, m), hi if s > 0 else lo) + rng.uniform(0, 1e-3, (n, m)) * (hi - lo) * s * rng.integers(0, 2)
        if n != m:  # no way out through the spare channels
            x[q:, :], x[:, q:] = (np.inf * s,) * 2 if s > 0 else (hi, hi)
        for i in range(k):
            x[i, (i + 1) % k] = lo if s > 0 else hi
        if k > 1:
            x[k - 1, 0] = s * np.inf
    elif family.startswith("inf"):
        v = np.inf if rng.random() < 0.5 else -np.inf
        if rng.random() < 0.3:
            x = rng.integers(0, 3, (n, m)).astype(float)
        if family == "inf_some":
            x[rng.random((n, m)) < rng.uniform(0.02, 0.9)] = v
        elif family == "inf_rows":
            x[rng.random(n) < 0.5] = v
        elif family == "inf_cols":
            x[:, rng.random(m) < 0.5] = v
        else:
            x[:] = v
    if rng.random() < 0.5:
        x = x[rng.permutation(n)][:, rng.permutation(m)]
    return x.astype(dt)


def check_optimal(ctx, solver, m, r, c):
    n, k = m.shape
    q = min(n, k)
    r, c = np.asarray(r), np.asarray(c)
    if (r.shape != (q,) or c.shape != (q,) or len(set(r.tolist())) != q or len(set(c.tolist())) != q
            or not np.issubdtype(c.dtype, np.integer) or (q and (r.min() < 0 or c.min() < 0 or r.max() >= n or c.max() >= k))):
        raise Violation(f"{solver}: not an assignment: {r.tolist()} {c.tolist()} for shape {m.shape}", key="perm", matrix=m)
    if np.any(np.diff(r) < 0):
        raise Violation(f"{solver}: row indices are not sorted", key="perm", matrix=m)
    x = m.astype(np.float64)
    inf = np.isinf(x)
    ctx.count("optimal_checked")
    if inf.any():
        ctx.count("with_inf")
        f = np.abs(x[~inf])
        big = 4 * (f.max() if f.size else 1.0) * q + 1
        y = np.where(x == np.inf, big, np.where(x == -np.inf, -big, x))
    else:
        y = x
    rr, cc = linear_sum_assignment(y)
    if inf[r, c].sum() != inf[rr, cc].sum():
        raise Violation(f"{solver}: {inf[r, c].sum()} infinite entries instead of {inf[rr, cc].sum()}", key="suboptimal", matrix=m)
    a, b = y[r, c].sum(), y[rr, cc].sum()
    scale = np.abs(y).max() if y.size else 1.0
    if a - b > 64 * q * np.finfo(m.dtype).eps * scale * max(n, k):
        raise Violation(f"{solver}: cost {a} instead of {b}", key="suboptimal", matrix=m,
                        got=[r.tolist(), c.tolist()], best=[rr.tolist(), cc.tolist()])


def check(spec, ctx):
    if spec["kind"] == "public":
        return public(spec, ctx)
    if spec["kind"] == "public_nan":
        return public_nan(spec, ctx)
    try:
        direct(spec, ctx)
    except Moved:
        ctx.count("no_direct_entry_point")


def direct(spec, ctx):
    solver = spec["solver"]
    if entry(solver) is None:
        ctx.count("no_direct_entry_point")
        return
    dt = lib.np_dtype(spec["dtype"])
    if spec["kind"] == "empty":
        for sh in ((0, 0), (0, 3), (2, 0)):
            r, c = solve(solver, np.zeros(sh))
            if len(r) or len(c):
                raise Violation(f"{solver}: non-empty assignment for an empty matrix", key="perm")
            ctx.count("optimal_checked")
        return
    if spec["kind"] == "enum":
        n, m = spec["shape"]
        vals = [float(v) for v in spec["vals"]]
        for t in range(spec["lo"], spec["hi"]):
            d, x = t, []
            for _ in range(n * m):
                x.append(vals[d % 3])
                d //= 3
            x = np.array(x, dt).reshape(n, m)
            r, c = solve(solver, x)
            check_optimal(ctx, solver, x, r, c)
        ctx.nontrivial(f"enum{solver}{n}{m}{spec['lo']}{vals}")
        return
    rng = rng_of(spec["seed"], 6)
    if spec["kind"] == "reject":
        for _ in range(spec["count"]):
            n, m = rng.integers(1, 7, 2)
            x = rng.standard_normal((n, m))
            kinds = ["nan"] + (["both"] if n * m > 1 and solver != "pt_plain" else [])
            k = pick(rng, kinds)
            if k == "nan":
                x[rng.integers(n), rng.integers(m)] = np.nan
                if rng.random() < 0.3 and n * m > 1:
                    x.flat[int(rng.integers(n * m))] = np.inf
                    if not np.isnan(x).any():
                        x.flat[0] = np.nan
            else:
                i = rng.permutation(n * m)[:2]
                x.flat[i[0]], x.flat[i[1]] = np.inf, -np.inf
            try:
                r, c = solve(solver, x)
            except LibraryRaised as e:
                if not isinstance(e.exc, ValueError):
                    raise
                ctx.count("nan_rejected" if k == "nan" else "mixed_inf_rejected")
                continue
            if k == "nan" and solver == "pt_plain":
                raise Violation(f"{solver}: a matrix with NaN was accepted", key="nan", matrix=x)
            # both infinities: no ordering of the sums exists, an assignment is as good as a refusal
            ctx.count("mixed_inf_accepted")
        return
    sig = []
    for _ in range(spec["count"]):
        x = gen(rng, spec["family"], dt, spec["maxn"], spec["maxn"] - 12 if spec.get("large") else 1)
        if solver == "pt_plain" and np.isinf(x).any():
            x = np.nan_to_num(x, posinf=1e4, neginf=-1e4).astype(dt)
        view = pick(rng, [None, None, "T", "grad"])
        r, c = solve(solver, x, view)
        check_optimal(ctx, solver, x, r, c)
        if min(x.shape) > 1:
            sig.append(x)
    if sig:
        ctx.nontrivial(digest(*sig))


def public_nan(spec, ctx):
    """a NaN score can be assigned to nobody"""
    rng = rng_of(spec["seed"], 9)
    dt = lib.np_dtype(spec["dtype"])
    ref = rng.standard_normal((spec["nb"], spec["n_ref"], 60)).astype(dt)
    est = rng.standard_normal((spec["nb"], spec["n_est"], 60)).astype(dt)
    which = ref if rng.random() < 0.5 else est
    which[int(rng.integers(spec["nb"])), int(rng.integers(which.shape[1])), int(rng.integers(60))] = np.nan
    for fn in ("si_sdr", "si_bss_eval_sources"):
        try:
            out = lib.call(fn, spec["backend"], ref, est, **({} if "bss" in fn else {"return_perm": True}))
        except LibraryRaised as e:
            if not isinstance(e.exc, ValueError):
                raise
            ctx.count("nan_refused_publicly")
            continue
        raise Violation(f"{fn}[{spec['backend']}]: scores with NaN were paired: {out.perm.tolist()}", key="nan")
    ctx.nontrivial(digest(ref, est))


def public(spec, ctx):
    rng = rng_of(spec["seed"], 8)
    C, M, nb, be = spec["n_ref"], spec["n_est"], spec["nb"], spec["backend"]
    dt = lib.np_dtype(spec["dtype"])
    refs, ests, ws = [], [], []
    for _ in range(nb):
        if spec["family"] == "perm":
            w = rng.uniform(0.001, 0.01, (C, M))
            p = rng.permutation(max(C, M))
            for k in range(C):
                if p[k] < M:
                    w[k, p[k]] = rng.uniform(0.05, 0.5)
        elif spec["family"] == "ties":
            w = rng.choice([0.01, 0.02, 0.03], size=(C, M))
        elif spec["family"] == "graded":
            a = np.outer(np.arange(1, C + 1), np.arange(1, M + 1))
            w = 10 ** (-2.0 * a / a.max()) * 0.9 / C
        else:
            w = rng.dirichlet(np.ones(C + 1), size=M).T[:C] + 1e-4
        w = w / np.maximum(w.sum(0) / 0.98, 1)
        r, e = from_coherence(rng, w, C + M + 5)
        refs.append(r), ests.append(e), ws.append(w)
    ref, est = np.stack(refs).astype(dt), np.stack(ests).astype(dt)
    out = lib.call("si_sdr", be, ref, est, return_perm=True)
    ctx.count("public_route", nb)
    v = out.sdr
    # the matrix the library itself reports for all pairs
    mat = lib.call("si_sdr_loss", be, ref, est, pairwise=True).sdr
    for b in range(nb):
        r, c = linear_sum_assignment(mat[b], maximize=True)
        best = mat[b][r, c].sum()
        ctx.count("optimal_checked")
        tol = 1e-3 if spec["dtype"] == "f32" else 1e-8
        if abs(v[b].sum() - best) > tol * (1 + len(r)):
            raise Violation(f"si_sdr[{be}]: pairing sums to {v[b].sum()}, optimum {best}", key="suboptimal", matrix=mat[b])
        p = out.perm[b]
        g = mat[b][np.arange(C), p] if C <= M else mat[b][p, np.arange(M)]
        if np.max(np.abs(g - v[b])) > tol:
            raise Violation(f"si_sdr[{be}]: values are not those of the returned pairs", key="gather")
    ctx.nontrivial(digest(v))
