"""Registry of the public operations with two small argument sets each (used by the purity and side effect checks)."""
import os

import numpy as np
import pandas as pd
import xarray as xr

nan = float("nan")


def times(n, step=60):
    return np.datetime64("2021-03-04T00:00", "ns") + np.arange(n) * np.timedelta64(step, "s")


def da(x, dims=("time",), **coords):
    x = np.array(x, float)
    c = {"time": times(x.shape[dims.index("time")])} if "time" in dims else {}
    if "cml_id" in dims:
        c["cml_id"] = ["c%d" % i for i in range(x.shape[dims.index("cml_id")])]
    c.update(coords)
    return xr.DataArray(x, dims=dims, coords=c, attrs={"unit": "x"})


class Obj:
    """plain record with comparable content"""

    def __init__(self, **k):
        self.__dict__.update(k)


class CoordLink(Obj):
    def get_coordinates(self):
        return self.c


def registry(tmp):
    """list of (name, fn, [make_args_variant_0, make_args_variant_1])"""
    from collections import namedtuple

    import torch

    from pycomlink.processing import baseline, blackout_gap_detection, k_R_relation, min_max, nearby_rain_retrival, wet_antenna
    from pycomlink.processing.pytorch_utils import run_inference as tri
    from pycomlink.processing.tensorflow_utils import inference_utils as tfi
    from pycomlink.processing.wet_dry import mlp, nearby_wetdry, stft
    from pycomlink.spatial import coverage, helper, idw, interpolator
    from pycomlink.util import temporal
    from pycomlink.validation import stats, validator
    from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray

    torch.set_num_threads(1)
    Coords = namedtuple("Coords", "lon_a lat_a lon_b lat_b")
    ops = []

    def add(name, fn, *variants):
        ops.append((name, fn, list(variants)))

    trsl = ([60.0, 61, 65, 70, nan, 66, 61, 60], [50.0, nan, 55, 52, 51, 58, 50, 49])
    wet = ([0.0, 0, 1, 1, 1, 1, 0, 0], [0.0, 1, 1, nan, 0, 1, 1, 0])
    for k, conv in (("array", lambda x: np.array(x)), ("labelled", lambda x: da(x))):
        add("baseline_constant " + k, baseline.baseline_constant, *[lambda i=i, conv=conv: ((conv(trsl[i]), conv(wet[i])), {"n_average_last_dry": 1 + i}) for i in (0, 1)])
        lin = (lambda x: pd.Series(x)) if k == "labelled" else conv
        add("baseline_linear " + k, baseline.baseline_linear, *[lambda i=i, conv=lin: ((conv(trsl[i]), conv(wet[i])), {"ignore_nan": bool(i)}) for i in (0, 1)])
        add("waa_schleiss " + k, wet_antenna.waa_schleiss_2013, *[lambda i=i, conv=conv: ((conv(trsl[i]), conv(np.array(trsl[i]) * 0 + 50), conv(np.nan_to_num(wet[i]))), {"waa_max": 2.2 + i, "delta_t": 1.0 + i, "tau": 15}) for i in (0, 1)])
        add("waa_leijnse_obs " + k, wet_antenna.waa_leijnse_2008_from_A_obs, *[lambda i=i, conv=conv: ((conv(np.abs(np.array(trsl[i]) - 55)),), {"f_Hz": (18 + 9 * i) * 1e9, "pol": "HV"[i], "L_km": 2.0 + 3 * i}) for i in (0, 1)])
        add("waa_pastorek_obs " + k, wet_antenna.waa_pastorek_2021_from_A_obs, *[lambda i=i, conv=conv: ((conv(np.abs(np.array(trsl[i]) - 55)),), {"f_Hz": (18 + 9 * i) * 1e9, "pol": "HV"[i], "L_km": 2.0 + 3 * i, "A_max": 14.0}) for i in (0, 1)])
        add("calc_R_from_A " + k, k_R_relation.calc_R_from_A, *[lambda i=i, conv=conv: ((conv(np.array(trsl[i]) - 55), 3.0 + i), {"f_GHz": 23.0 + i, "pol": "VH"[i]}) for i in (0, 1)])
        add("blackout " + k, blackout_gap_detection.get_blackout_start_and_end, *[lambda i=i, conv=conv: ((conv([-50.0, -66, nan, nan, -67, -50, nan, -60][:: 1 - 2 * i]), -65.0 + i), {}) for i in (0, 1)])
    add("blackout_mask", blackout_gap_detection.created_blackout_gap_mask_from_start_end_markers, lambda: ((np.array([-50.0, -66, nan, nan, -67, -50]), np.array([0, 0, 1, 0, 0, 0], bool), np.array([0, 0, 0, 0, 1, 0], bool)), {}), lambda: ((np.array([-66.0, nan, -67, nan]), np.array([0, 1, 0, 0], bool), np.array([0, 0, 1, 0], bool)), {}))
    add("waa_leijnse", wet_antenna.waa_leijnse_2008, lambda: ((np.array([0.0, 1, 5]), 23e9), {}), lambda: ((np.array([[2.0, nan, 80]]), 38e9), {"T_K": 280.0}))
    add("waa_pastorek", wet_antenna.waa_pastorek_2021, lambda: ((np.array([0.0, 1, 5]),), {"A_max": 14.0}), lambda: ((np.array([[2.0, nan, 80]]),), {"A_max": 5.0, "zeta": 0.7}))
    add("eps_water", wet_antenna.eps_water, lambda: ((23e9, 293.0), {}), lambda: ((np.array([1e10, 4e10]), 280.0), {}))
    add("calc_R_from_A_min_max", k_R_relation.calc_R_from_A_min_max, lambda: ((np.array([0.0, 1.5, nan, -1]), 3.0), {"f_GHz": 23.0, "pol": "V"}), lambda: ((np.array([4.0, 0.5]), 1.0), {"a": 0.1, "b": 1.1, "R_min": 2.0}))
    add("a_b", k_R_relation.a_b, lambda: ((np.array([10.0, 23.5, 38]), np.array(["H", "V", "H"])), {}), lambda: ((23.5, "V"), {"approx_type": "ITU_2003"}))
    add("A_min_max", min_max._calc_A_min_max, *[lambda i=i: (tuple(np.array(v) for v in ([8.0, nan, 8, 8, 9], [9.0, 9, 9, nan, 9], [-50.0, -51 - i, -53, nan, -50], [-49.0, -50, -50, -50, -49])), {"window": 2 + i}) for i in (0, 1)])
    # nearby link approach
    P = [[-50.0, -50, -55, -52, nan, -50], [-40.0, -41, -47, -44, -40, -40], [-45.0, -45, -52, -46, -45, -45]]
    W = [[0.0, 0, 1, 1, 0, 0], [0.0, 0, 1, 1, nan, 0], [0.0] * 6]
    D = ("cml_id", "time")

    def links(i):
        return xr.Dataset(coords=dict(cml_id=["c0", "c1", "c2"], site_a_latitude=("cml_id", [50.0, 50.01, 50.02 + i]), site_b_latitude=("cml_id", [50.03, 50.02, 50.04]), site_a_longitude=("cml_id", [8.0, 8.01, 8.02]), site_b_longitude=("cml_id", [8.03, 8.02, 8.06 + i])))

    def dist(i):
        d = np.array([[0.0, 3 + 20 * i, 5], [3 + 20 * i, 0, 4], [5, 4, 0]])
        return xr.Dataset({v: (("cml_id1", "cml_id2"), d + k * 0.1 * (d > 0)) for k, v in enumerate(("a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"))}, coords=dict(cml_id1=["c0", "c1", "c2"], cml_id2=["c0", "c1", "c2"]))

    def pmin(i):
        x = da(np.array(P) - i, D, length=("cml_id", np.array([2.0, 5.0 + i, 3.0])))
        return x.assign_coords(time=times(6, 900))

    # fmt: off
    add("endpoint_distances", nearby_wetdry.calc_distance_between_cml_endpoints, *[lambda i=i: (([links(i).cml_id.values, links(i).site_a_latitude.values, links(i).site_b_latitude.values, links(i).site_a_longitude.values, links(i).site_b_longitude.values]), {}) for i in (0, 1)])
    add("nearby_wetdry", nearby_wetdry.nearby_wetdry, *[lambda i=i: ((pmin(i), dist(i)), {"radius": 15, "min_links": 2}) for i in (0, 1)])
    add("nearby_reference", nearby_rain_retrival.nearby_determine_reference_level, *[lambda i=i: ((pmin(i), pmin(i) + 1, da(W, D).assign_coords(time=times(6, 900))), {"n_average_dry": 3 + i}) for i in (0, 1)])
    clean = np.nan_to_num(np.array(P), nan=-51.0)
    add("nearby_correct", nearby_rain_retrival.nearby_correct_received_signals, *[lambda i=i: ((da(clean, D), da(clean + 1, D), da(W, D), da(clean * 0 - 44 - i, D)), {}) for i in (0, 1)])
    add("nearby_rain", nearby_rain_retrival.nearby_rainfall_retrival, *[lambda i=i: ((da(clean * 0 - 40, D), da(clean, D), da(clean + 1, D), da(clean * 0 - 5 - 30 * i, D)), {"length": 4.0, "f_GHz": 23.0, "pol": "H"}) for i in (0, 1)])
    # fmt: on
    base = np.array([60 + ((t * 7) % 5) * 0.3 + (4 if 20 < t < 30 else 0) for t in range(50)])
    for m in ("rad_online", "rg_online"):
        add("mlp " + m, mlp.mlp_wet_dry, *[lambda i=i, m=m: ((da(base + i), da(base * 1.01 - 3 * i * (np.arange(50) == 45))), {"model_sel": m}) for i in (0, 1)])
    rsl = -50 - np.array([((t * 7) % 5) * 0.3 + (6 if 20 < t < 30 else 0) for t in range(40)])
    add("stft", stft.stft_classification, *[lambda i=i: ((rsl - i, 8, 1.5, 1e-3), {"t_dry_start": 0, "t_dry_stop": 18}) for i in (0, 1)])
    add("stft automatic", stft.stft_classification, *[lambda i=i: ((rsl - i, 8, 1.5, 1e-3), {"dry_length": 9 + i, "mirror": True}) for i in (0, 1)])
    add("lowest_std_period", stft.find_lowest_std_dev_period, *[lambda i=i: ((rsl * (1 + i),), {"window_length": 7 + i}) for i in (0, 1)])
    # spatial
    gx, gy = np.meshgrid(np.linspace(0, 4, 5), np.linspace(0, 3, 4))
    X, Y, Z = np.array([0.3, 1.2, 2.6, 3.9, 0.8]), np.array([0.4, 2.2, 1.1, 2.8, 2.9]), np.array([1.0, 0, 5, nan, 2])
    add("idw", lambda *a, **k: interpolator.IdwKdtreeInterpolator(nnear=3, p=2, exclude_nan=True, max_distance=9.0)(*a, **k), *[lambda i=i: ((X, Y, Z + i), {"xgrid": gx, "ygrid": gy}) for i in (0, 1)])
    add("idw generated grid", lambda *a, **k: interpolator.IdwKdtreeInterpolator()(*a, **k), *[lambda i=i: ((X + i, Y, Z), {"resolution": 0.5 + i}) for i in (0, 1)])
    add("kriging", lambda *a, **k: interpolator.OrdinaryKrigingInterpolator(variogram_model="spherical", variogram_parameters={"psill": 1.0, "range": 3.0, "nugget": 0.1}, n_closest_points=None)(*a, **k), *[lambda i=i: ((X, Y, np.nan_to_num(Z) + i), {"xgrid": gx, "ygrid": gy}) for i in (0, 1)])
    add("idw tree", lambda pts, q, z, **k: idw.Invdisttree(pts)(q, z, **k), *[lambda i=i: ((np.stack([X, Y], 1), np.array([[1.0, 1], [2, 2 + i]]), np.nan_to_num(Z)), {"nnear": 3, "p": 2}) for i in (0, 1)])
    add("climatological variogram", interpolator.clim_var_param, lambda: ((), {}), lambda: (("20200110",), {"time_scale_hours": 1}))
    add("haversine", helper.haversine, lambda: ((8.0, 50.0, 9.0, 51.0), {}), lambda: ((np.array([8.0, 0]), np.array([50.0, 1]), np.array([9.0, 2]), np.array([51.0, -3])), {}))

    def covlink(a, b):
        return Obj(metadata=dict(site_a_longitude=a[0], site_a_latitude=a[1], site_b_longitude=b[0], site_b_latitude=b[1]))

    add("coverage", coverage.calc_coverage_mask, *[lambda i=i: (([covlink((0.2, 0.2), (2.1, 1.7)), covlink((3.0, 3.0), (3.5, 0.5 + i))], gx, gy, 0.8), {}) for i in (0, 1)])
    # validation
    r, p = np.array([0.0, 1, 2.5, nan, 0, 4]), np.array([0.2, 0, 2.0, 1, nan, 5])
    add("rain errors", stats.calc_rain_error_performance_metrics, *[lambda i=i: ((r + i, p), {"rainfall_threshold_wet": 0.1}) for i in (0, 1)])
    add("wet-dry scores", stats.calc_wet_dry_performance_metrics, *[lambda i=i: ((np.array([0.0, 1, 1, nan, 0, 1]), np.array([0.0, i, 1, 1, nan, 0])), {}) for i in (0, 1)])
    add("wet error rates", stats.calc_wet_error_rates, *[lambda i=i: ((pd.Series([True, False, True, False]), pd.Series([True, True, bool(i), False])), {}) for i in (0, 1)])
    add("wet dry error", validator.calc_wet_dry_error, *[lambda i=i: ((pd.Series([True, False, True, False]), pd.Series([True, True, bool(i), False])), {}) for i in (0, 1)])
    ix = pd.date_range("2021-06-01", periods=6, freq="1min")
    add("correlation", lambda c, t: validator.Validator().calc_stats(c, t), *[lambda i=i: ((Obj(data=pd.DataFrame({"txrx_nf": [1.0, 2, 3, 5, 4, 4 + i]}, index=ix)), xr.DataArray([1.0, 2, 3, 4, 5, 5], dims="time", coords={"time": ix.strftime("%Y-%m-%d %H:%M:%S")})), {}) for i in (0, 1)])
    T = pd.date_range("2021-06-01 00:00", periods=6, freq="15min")
    full = pd.date_range("2021-05-31 23:00", "2021-06-01 03:00", freq="5min")

    def grid(i):
        v = (np.arange(6 * 4 * 5).reshape(6, 4, 5) * 7 % 11) + 0.5 * i
        lo, la = np.meshgrid(np.array([10.0, 10.5, 11.0, 11.5, 12.0]), np.array([47.0, 47.5, 48.0, 48.5]))
        return xr.Dataset({"R": (("time", "y", "x"), v)}, coords=dict(time=T.values, longitudes=(("y", "x"), lo), latitudes=(("y", "x"), la)))

    def cml(i):
        return CoordLink(c=Coords(10.2, 47.1, 11.3, 48.2 - 0.5 * i), channel_1=Obj(data=pd.DataFrame({"v": 0.0}, index=full)), channel_2=Obj(data=pd.DataFrame({"v": 0.0}, index=full)))

    def gridval(ds, link, df, label):
        v = validator.GridValidator(xr_ds=ds)
        a = v.get_time_series(link, "R")
        return a, v.resample_to_grid_time_series(df, label)

    add("grid validator", gridval, *[lambda i=i: ((grid(i), cml(i), pd.DataFrame({"R": np.arange(len(full)) * (1.0 + i)}, index=full), ["right", "left"][i]), {}) for i in (0, 1)])
    add("aggregate", temporal.aggregate_df_onto_DatetimeIndex, *[lambda i=i: ((pd.DataFrame({"R": np.arange(12.0) + i}, index=pd.date_range("2021-06-01", periods=12, freq="5min", tz="UTC")), pd.date_range("2021-06-01", periods=4, freq="15min", tz="UTC"), "mean"), {"label": ["right", "left"][i]}) for i in (0, 1)])
    # file reading
    from . import c17

    for i in (0, 1):
        c17.build(os.path.join(tmp, "f%d.h5" % i), [dict(group="link_%d" % k, cml_id="id%d" % k, site_a_latitude=50.0, site_b_latitude=50.1, site_a_longitude=8.0, site_b_longitude=8.1 + i, channels=[dict(name="channel_1", frequency=23e9, polarization="V", time=[1.6e9 + 60 * t for t in range(3)], tx=[5.0] * 3, rx=[-50.0, -51, -52 - i])]) for k in range(2)])
    add("cmlh5", read_cmlh5_file_to_xarray, *[lambda i=i: ((os.path.join(tmp, "f%d.h5" % i),), {}) for i in (0, 1)])
    # networks

    class Lin(torch.nn.Module):
        window_size = 3

        def forward(self, x):
            return (x * torch.arange(1.0, 4.0)).sum(dim=2).sum(dim=1)

    def tl(i):
        return xr.DataArray(np.arange(20.0).reshape(2, 5, 2) * (1 + i), dims=("cml_id", "time", "channel_id"), coords=dict(cml_id=["a", "b"], time=times(5), channel_id=[1, 2]))

    def torch_chain(data, **k):
        return tri.redistribute_results(tri.run_inference(Lin(), data, **k), data.to_dataset(name="TL"))

    add("torch chain", torch_chain, *[lambda i=i: ((tl(i),), {"batch_size": 2 + i, "reflength": 2}) for i in (0, 1)])

    def tf_chain(ds, sel, names, w):
        X, ids, t = tfi.create_samples(ds, sel, names, seq_len=w)
        Z = tfi.scale_features(X, names)
        return X, Z, tfi.store_predictions(ds, Z.sum(axis=(1, 2)), ids, t)

    add("tensorflow chain", tf_chain, *[lambda i=i: ((tl(i).to_dataset("channel_id").rename({1: "tl1", 2: "tl2"}), ["b", "a"][: 2 - i], ["tl1", "tl2"], 2 + i), {}) for i in (0, 1)])
    return ops


def freeze(x):
    """comparable deep snapshot of an argument or a result"""
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, x.tobytes() if x.dtype != object else tuple(map(repr, x.ravel())))
    if isinstance(x, xr.DataArray):
        return ("da", x.name, x.dims, freeze(x.values), tuple((k, v.dims, freeze(v.values)) for k, v in sorted(x.coords.items())), repr(x.attrs))
    if isinstance(x, xr.Dataset):
        return ("ds", tuple(sorted(x.sizes.items())), tuple((k, freeze(x[k])) for k in sorted(map(str, x.data_vars))), tuple((k, v.dims, freeze(v.values)) for k, v in sorted(x.coords.items())), repr(x.attrs))
    if isinstance(x, pd.DataFrame):
        return ("df", tuple(map(repr, x.columns)), freeze(x.index), tuple(freeze(x[c].values) for c in x.columns))
    if isinstance(x, pd.Series):
        return ("se", freeze(x.index), freeze(np.asarray(x.values)))
    if isinstance(x, pd.Index):
        return ("ix", str(x.dtype), x.name, tuple(map(repr, x)))
    if isinstance(x, Obj):
        return ("obj", tuple((k, freeze(v)) for k, v in sorted(x.__dict__.items())))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, float) and x != x:
        return "nan"
    return repr(x)
