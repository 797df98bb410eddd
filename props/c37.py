"""C37: results depend on the arguments only, not on earlier or simultaneous calls."""

import concurrent.futures
import os
import pathlib
import pickle
import sys
import tempfile
import threading
import traceback
import warnings

import numpy as np

from harness import igrf_ref
from harness.core import HarnessError, Property, fail, hm, require, st, xr
from harness.gens import SEED, pick, rng

PROP = Property(
    "C37", "Results of a call never depend on earlier or simultaneous calls",
    rule="a case is a history of calls that share some arguments and their shapes; non-trivial "
    "when two calls of a function differ in a single argument",
    technique="differential testing between calls isolated in forked processes, histories in "
    "one process (with reused, overwritten and discarded arrays) and concurrent threads",
)


class Args:
    """Arguments of the calls: new arrays, or the same ones overwritten in place."""

    def __init__(self, reuse):
        self.buffers = {} if reuse else None
        self.local = threading.local()

    def __call__(self, name, value):
        value = np.asarray(value)
        if self.buffers is None:
            return value
        key = (name, value.shape, value.dtype.str)
        if key not in self.buffers:
            self.buffers[key] = np.empty_like(value)
        self.buffers[key][...] = value
        return self.buffers[key]


def points(a, v, k, low=5.0, high=9.0, n=4):
    """Points chosen by the k-th variant."""
    r = rng([11, v[k]])
    return tuple(a(f"at{i}", r.uniform(*((-4, 4) if i < 2 else (low, high)), n)) for i in range(3))


def sphere_points(a, v, k, n=3):
    r = rng([12, v[k]])
    return a("lon", r.uniform(-9, 9, n)), a("lat", r.uniform(-9, 9, n)), a("rad", r.uniform(6.45e6, 6.5e6, n))


def vectors(a, name, v, k, n):
    return tuple(a(f"{name}{i}", rng([13, v[k], i]).normal(size=n)) for i in range(3))


def prisms(a, v, k, n=3):
    r = rng([14, v[k]])
    low = r.uniform(-4, 1, (n, 3))
    out = np.empty((n, 6))
    out[:, ::2], out[:, 1::2] = low, low + r.uniform(0.5, 3, (n, 3))
    return a("prisms", out)


def tesseroids(a, v, k, n=2):
    r = rng([15, v[k]])
    w, s = r.uniform(-5, 0, (2, n))
    return a("tess", np.transpose([w, w + r.uniform(1, 4, n), s, s + r.uniform(1, 4, n), np.full(n, 6.36e6),
                                   r.uniform(6.37e6, 6.38e6, n)]))


def values(a, name, v, k, n):
    return a(name, rng([16, v[k]]).uniform(100, 900, n) * (-1) ** v[k])


def point(a, v, k):
    field = ("g_z", "potential", "g_ne", "g_e")[v[3] % 4]
    if v[2] % 3 == 2:
        return hm.point_gravity(sphere_points(a, v, 0), sphere_points(a, v, 4, 2), values(a, "mass", v, 1, 2),
                                ("g_z", "potential")[v[3] % 2], coordinate_system="spherical", parallel=k)
    return hm.point_gravity(points(a, v, 0), points(a, v, 4, -5, -1, 3), values(a, "mass", v, 1, 3), field, parallel=k)


def dipole(a, v, k):
    return hm.dipole_magnetic(points(a, v, 0), points(a, v, 1, -5, -1, 3), vectors(a, "moment", v, 2, 3),
                              ("b", "b_e", "b_n", "b_u")[v[3] % 4], parallel=k)


def prism_g(a, v, k):
    return hm.prism_gravity(points(a, v, 0), prisms(a, v, 1), values(a, "rho", v, 2, 3),
                            ("g_z", "g_ee", "g_nz", "potential")[v[3] % 4], parallel=k)


def prism_m(a, v, k):
    return hm.prism_magnetic(points(a, v, 0), prisms(a, v, 1), vectors(a, "mag", v, 2, 3),
                             ("b", "b_e", "b_n", "b_u")[v[3] % 4], parallel=k)


def tesseroid(a, v, k):
    density = values(a, "rho", v, 2, 2)
    if v[4] % 2:
        slope, base = 1e-6 * (1 + v[2]), 6.37e6 + 1e3 * v[2]

        def density(radius):
            return 2e3 + slope * (radius - base) ** 2 / 10

    return hm.tesseroid_gravity(sphere_points(a, v, 0), tesseroids(a, v, 1), density,
                                ("g_z", "potential")[v[3] % 2], parallel=k)


def bodies(v, first, second):
    r = rng([17, v[first]])
    out = []
    for _ in range(2):
        body = hm.Ellipsoid(*r.uniform(1, 3, 3), *r.uniform(0, 90, 3), center=tuple(r.uniform(-2, 2, 3)))
        q = rng([18, v[second]])
        body.density, body.susceptibility, body.remanent_mag = q.normal() * 100, q.uniform(), q.normal(size=3)
        out.append(body)
    return out


def ellipsoid_g(a, v, k):
    return hm.ellipsoid_gravity(points(a, v, 0), bodies(v, 1, 2))


def ellipsoid_m(a, v, k):
    return hm.ellipsoid_magnetic(points(a, v, 0), bodies(v, 1, 2), tuple(vectors(a, "field", v, 3, 1)[i][0] * 1e4
                                                                      for i in range(3)))


def layer(a, v, k):
    r = rng([19, v[1]])
    density = a("density", rng([20, v[2]]).uniform(100, 900, (3, 2)))
    x, y = a("x", np.arange(2.0) * (1 + v[4] % 2)), a("y", np.arange(3.0))
    if v[3] % 2:
        surface = a("surface", 6.371e6 + r.uniform(-50, 50, (3, 2)))
        d = hm.tesseroid_layer((x, y), surface, 6.3705e6, {"density": density})
        return d.tesseroid_layer.gravity(sphere_points(a, v, 0), ("g_z", "potential")[v[5] % 2], parallel=k)
    d = hm.prism_layer((x, y), a("surface", r.uniform(-3, 3, (3, 2))), 0.5, {"density": density})
    return d.prism_layer.gravity(points(a, v, 0), ("g_z", "g_en")[v[5] % 2], parallel=k,
                                 thickness_threshold=(None, 0.7)[v[0] % 2])


TRANSFORMS = {
    "derivative_easting": lambda g, p, o: hm.derivative_easting(g, order=1 + o % 2, method=("fft", "finite-diff")[p % 2]),
    "derivative_northing": lambda g, p, o: hm.derivative_northing(g, order=1 + o % 2, method=("fft", "finite-diff")[p % 2]),
    "derivative_upward": lambda g, p, o: hm.derivative_upward(g, order=1 + o % 2),
    "upward_continuation": lambda g, p, o: hm.upward_continuation(g, height_displacement=3.0 + p),
    "gaussian_lowpass": lambda g, p, o: hm.gaussian_lowpass(g, wavelength=10.0 + p),
    "gaussian_highpass": lambda g, p, o: hm.gaussian_highpass(g, wavelength=10.0 + p),
    "reduction_to_pole": lambda g, p, o: hm.reduction_to_pole(
        g, 60.0 + p, 20.0, *((None, None) if o % 2 else (50.0, -10.0))),
    "total_gradient_amplitude": lambda g, p, o: hm.total_gradient_amplitude(g),
    "tilt_angle": lambda g, p, o: hm.tilt_angle(g),
}


def transform(a, v, k):
    data = a("grid", rng([21, v[0]]).normal(size=(6, 5)))
    step = 1.0 + v[1] % 2
    grid = xr.DataArray(data, coords={"northing": a("n", np.arange(6.0) * 2), "easting": a("e", np.arange(5.0) * step)},
                        dims=("northing", "easting"), name="field")
    name = sorted(TRANSFORMS)[v[2] % len(TRANSFORMS)]
    return TRANSFORMS[name](grid, v[3], v[4])


def corrections(a, v, k):
    topography = a("topo", rng([22, v[0]]).uniform(-3e3, 3e3, 5))
    density = 2600.0 + 10 * v[1]
    if v[2] % 2:
        return hm.bouguer_correction(topography, density_crust=density)
    layers = {"one": (a("thick", np.abs(topography) / 2 + v[4]), 2400.0)} if v[3] % 2 else None
    return hm.isostatic_moho_airy(topography, layers=layers, density_crust=density)


def angles(a, v, k):
    field = vectors(a, "b", v, 0, 4)
    if v[2] % 3 == 0:
        return hm.total_field_anomaly(field, 30.0 + v[1], -20.0)
    if v[2] % 3 == 1:
        return hm.magnetic_vec_to_angles(*field, degrees=bool(v[1] % 2))
    return hm.magnetic_angles_to_vec(np.abs(field[0]), field[1] * 30, field[2] * 90 + v[1])


def igrf(a, v, k):
    import boule as bl  # noqa: PLC0415
    r = rng([23, v[0]])
    model = hm.IGRF14(("2022-01-01", "2028-07-01T10:00", "2023-05-05")[v[1] % 3], min_degree=1 + v[2] % 2,
                      max_degree=3 + v[4] % 2, ellipsoid=(bl.WGS84, bl.Mars2009)[v[3] % 2])
    return model.predict((a("lon", r.uniform(-180, 180, 2)), a("lat", r.uniform(-80, 80, 2)),
                          a("height", r.uniform(0, 1e4, 2))))


def euler(a, v, k):
    r = rng([24, v[0]])
    at = tuple(a(f"at{i}", r.uniform(*((-4, 4) if i < 2 else (0, 0.5)), 9)) for i in range(3))
    q = rng([25, v[1]])
    c = q.uniform(-2, 2, 3) - (0, 0, 4)
    d = [x - y for x, y in zip(at, c)]
    s = np.sqrt(sum(x**2 for x in d))
    data = tuple(a(f"data{i}", f + 1e-3 * q.normal(size=9))
                 for i, f in enumerate([d[2] / s**3, -3 * d[2] * d[0] / s**5, -3 * d[2] * d[1] / s**5, 1 / s**3 - 3 * d[2]**2 / s**5]))
    e = hm.EulerDeconvolution(1 + v[3] % 3) if v[2] % 2 else hm.EulerInversion(
        structural_index=((1, 2, 3), 2, (3, 1))[v[3] % 3], max_iterations=3 + v[4])
    kwargs = {"weights": (1, 0.2, 0.2, 0.1)} if v[5] % 2 and not v[2] % 2 else {}
    e.fit(at, data, **kwargs)
    return e.location_, e.base_level_, e.covariance_, getattr(e, "structural_index_", 0)


def sources(a, v, k):
    kind = v[3] % 3
    if kind == 2:
        at = sphere_points(a, v, 0, 8)
        e = hm.EquivalentSourcesSph(relative_depth=1e5 * (1 + v[2] % 2), damping=(None, 1e-8)[v[4] % 2], parallel=k)
    else:
        at = points(a, v, 0, n=8)
        kwargs = {"depth": 3.0 + v[2] % 2, "damping": (None, 1e-3)[v[4] % 2], "parallel": k}
        e = hm.EquivalentSources(**kwargs) if kind == 0 else hm.EquivalentSourcesGB(
            window_size=4.0, random_state=v[5], **kwargs)
    e.fit(at, values(a, "data", v, 1, 8))
    target = at[0] + 0.1, at[1], at[2] + 1
    return e.predict(target), e.coefs_


def icgem(a, v, k):
    from props import c23  # noqa: PLC0415
    case = {"shape": [2, 3], "south": 1.0 + v[0], "west": 2.0, "step": 1.0, "seed": v[1], "kind": "normal", "extra": 0,
            "height": (None, 10.0)[v[2] % 2], "shuffle": False, "indent": False, "gap": 0, "separator": " ",
            "newline": "\n", "columns": ["longitude", "latitude", "a"]}
    r = rng([26, v[1]])
    lat, lon = case["south"] + np.arange(2.0), case["west"] + np.arange(3.0)
    lon, lat = np.meshgrid(lon, lat)
    text = c23.write(case, c23.header(case), case["columns"], ["deg.", "deg.", "mgal"],
                     [lon[::-1], lat[::-1], r.normal(size=(2, 3))])
    path = folder() / "grid.gdf"
    path.write_text(text)
    return hm.load_icgem_gdf(path)


def oasis(a, v, k):
    from props import c24  # noqa: PLC0415
    case = {"size": 4, "sign": 2, "shape": [2, 3], "ordering": 1 - 2 * (v[2] % 2), "compressed": bool(v[3] % 2),
            "blocks": 1, "gap": 0, "seed": v[1], "dummies": 0.2, "spacing": [1.0, 2.0 + v[4] % 2],
            "origin": [float(v[0]), 0.0], "rotation": (0.0, 30.0)[v[5] % 2], "base": 0.0, "factor": 1.0}
    path = folder() / "grid.grd"
    path.write_bytes(c24.header(case) + c24.body(case, c24.stored(case)[0]))
    return hm.load_oasis_montaj_grid(path)


def mesh(a, v, k):
    m = hm.visualization.prism_to_pyvista(prisms(a, v, 0), {"rho": values(a, "rho", v, 1, 3)})
    return np.array(m.points), np.array(m.cells), np.array(m.cell_data["rho"])


CALLS = {f.__name__: f for f in (point, dipole, prism_g, prism_m, tesseroid, ellipsoid_g, ellipsoid_m, layer, transform,
                                 corrections, angles, igrf, euler, sources, icgem, oasis, mesh)}
LOCAL = threading.local()
BASE = [None]


def folder():
    """Of the thread: files are overwritten by later calls."""
    path = pathlib.Path(BASE[0]) / str(threading.get_ident())
    path.mkdir(exist_ok=True)
    return path


def flat(out):
    """Copies of the arrays of a result, and the arrays."""
    if isinstance(out, xr.Dataset):
        arrays = [out[k].values for k in sorted(map(str, out.variables))]
        return [np.array(x) for x in arrays] + [str(sorted(out.attrs.items()))], arrays
    if isinstance(out, xr.DataArray):
        arrays = [out.values] + [out[k].values for k in sorted(map(str, out.coords))]
        return [np.array(x) for x in arrays] + [str(sorted(out.attrs.items()))], arrays[:1]
    arrays = list(out) if isinstance(out, (tuple, list)) else [out]
    return [np.array(x) for x in arrays], [np.asarray(x) for x in arrays]


def call(description, a):
    name, v, parallel = description
    return CALLS[name](a, v, parallel)


def isolated(fn):
    """Value of a function in a forked process."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(read)
            with tempfile.TemporaryDirectory() as base:
                BASE[0] = base
                try:
                    answer = (True, prepared(fn))
                except Exception:  # noqa: BLE001
                    answer = (False, traceback.format_exc(limit=-4))
            with os.fdopen(write, "wb") as f:
                pickle.dump(answer, f)
            code = 0
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read, "rb") as f:
        blob = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not blob:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (6, 8, 11):
            fail(f"process ended by signal {os.WTERMSIG(status)}")
        raise HarnessError(f"forked process ended with status {status}")
    ok, value = pickle.loads(blob)
    return ok, value


def prepared(fn):
    """With a table of coefficients in place of the download."""
    import pooch  # noqa: PLC0415
    g, h = igrf_ref.table(77, 2)
    path = pathlib.Path(BASE[0]) / "igrf.txt"
    igrf_ref.write(path, 2020, g, h, 77)
    pooch.retrieve = lambda *args, **kwargs: str(path)
    return fn()


def state():
    """Global state that calls must leave alone."""
    import numba  # noqa: PLC0415
    kind, keys, pos, *rest = np.random.get_state()  # noqa: NPY002
    return {"random numbers": (kind, keys.tobytes(), pos, rest), "floating-point errors": np.geterr(),
            "warning filters": repr(warnings.filters), "working directory": os.getcwd(), "environment": dict(os.environ),
            "threads": numba.get_num_threads(), "printing": repr(np.get_printoptions())}


def history(calls, reuse, spoil):
    """Results of the calls in one process; what changed after the call that returned it."""
    a = Args(reuse)
    before = state()
    copies, kept = [], []
    for description in calls:
        copy, arrays = flat(call(description, a))
        copies.append(copy)
        if spoil:
            for x in arrays:
                if x.flags.writeable and x.dtype.kind == "f":
                    x[...] = np.nan
        else:
            kept.append((copy, arrays))
    changed = []
    for k, (copy, arrays) in enumerate(kept):
        if not reuse and any(x.tobytes() != np.asarray(c).tobytes() for x, c in zip(arrays, copy)):
            changed.append(k)
    after = state()
    return copies, changed, [k for k in before if before[k] != after[k]]


def threaded(calls):
    """Results of simultaneous calls."""
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            jobs = [pool.submit(lambda d: flat(call(d, Args(False)))[0], d) for d in calls]
            return [j.result() for j in jobs]
    finally:
        sys.setswitchinterval(interval)


@st.composite
def history_st(draw):
    names = draw(st.lists(st.sampled_from(sorted(CALLS)), min_size=1, max_size=3))
    calls = []
    for name in names:
        v = [draw(st.integers(0, 3)) for _ in range(6)]
        calls.append([name, v, False])
        for _ in range(draw(st.integers(1, 3))):  # the same with one argument changed
            w = list(v)
            k = draw(st.integers(0, 5))
            w[k] = draw(st.integers(0, 8))
            calls.append([name, w, draw(pick(False, True))])
    order = draw(st.permutations(range(len(calls))))
    return {"calls": [calls[k] for k in order], "reuse": draw(st.booleans()), "spoil": draw(st.booleans()),
            "again": draw(st.booleans())}


def compare(case, calls, expected, results, how):
    for d, e, got in zip(calls, expected, results):
        require(len(e) == len(got), f"{d[0]} {how}: another kind of result")
        for x, y in zip(e, got):
            if isinstance(x, str):
                require(x == y, f"{d[0]} {how}: attributes {y} instead of {x}")
                continue
            require(x.shape == y.shape and x.dtype == y.dtype, f"{d[0]} {how}: shape or dtype")
            same = x.tobytes() == y.tobytes() or np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
            if not same and x.dtype.kind == "f":  # rounding: memory alignment changes the order of sums in BLAS
                scale = np.abs(x[np.isfinite(x)]).max(initial=0)
                same = np.allclose(x, y, rtol=1e-9, atol=1e-9 * scale, equal_nan=True)
            require(same, f"{d[0]}{d[1]} {how} {got} instead of {e}")


def references(calls):
    import harmonica.visualization  # noqa: F401, PLC0415
    import pooch  # noqa: F401, PLC0415
    import pyvista  # noqa: F401, PLC0415
    expected = []
    hm.point_gravity, xr.Dataset  # noqa: B018  (loads them before forking)
    for d in calls:
        ok, value = isolated(lambda d=d: flat(call(d, Args(False)))[0])
        if not ok:
            fail(f"{d[0]}{d[1]} raised {value}")
        expected.append(value)
    return expected


@PROP.clause("histories", history_st(), quick=240, thorough=9000, jit=False, shards=4,
             rule="at least two calls of a function that differ in one argument")
def histories(case, ctx):
    calls = case["calls"]
    expected = references(calls)
    for d in calls:
        ctx.event(d[0])
    run = [*calls, *calls[::-1]] if case["again"] else calls
    ok, value = isolated(lambda: history(run, case["reuse"], case["spoil"]))
    if not ok:
        fail(f"history raised {value}")
    results, changed, altered = value
    how = "after other calls" + (" with arrays overwritten in place" if case["reuse"] else "")
    compare(case, run, [*expected, *expected[::-1]] if case["again"] else expected, results, how)
    require(not changed, f"later calls changed the result of {[run[k][0] for k in changed]}")
    require(not altered, f"calls changed the {altered}")


@PROP.clause("simultaneous calls", history_st(), quick=160, thorough=6000, jit=False, shards=4,
             rule="at least two calls of a function that differ in one argument")
def simultaneous(case, ctx):
    calls = [[name, v, False] for name, v, _ in case["calls"]]
    expected = references(calls)
    for d in calls:
        ctx.event(d[0])
    run = calls * 3
    ok, value = isolated(lambda: threaded(run))
    if not ok:
        fail(f"simultaneous calls raised {value}")
    compare(case, run, expected * 3, value, "in simultaneous calls")
