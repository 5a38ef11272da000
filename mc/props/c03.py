"""C03: labelled-array calls are equivalent to per-series calls.

Enumerates every function that works along time x every dimension layout x which
arguments carry which dimensions x every positional/keyword split; the reference
model is: loop over all label combinations and call the function with 1D arrays.
"""
import itertools

import numpy as np
import xarray as xr

from ..core import nan

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 6, "jit": 2}
BOUNDS = (
    "7 functions x all dimension orders of up to 3 dimensions, all rotations of 4 and 5 dimensions x time lengths 1,2,3,6 x all positional/keyword splits x "
    "scalar/per-link parameters x unknown/missing/duplicate arguments x label mismatches"
)
ASSUMPTIONS = ["the order of dimensions of the result is not part of the property, the labels are"]

T = 6
CML = ["b", "a", "c"]
CH = ["ch_2", "ch_1"]


def times(T):
    return np.datetime64("2021-03-04T00:00", "ns") + np.arange(T) * np.timedelta64(60, "s")


def cube(kind, T):
    """Full (channel, cml, time) numpy cube, all entries distinct."""
    c, m, t = np.meshgrid(np.arange(2), np.arange(3), np.arange(T), indexing="ij")
    base = c * 7.0 + m * 2.5 + ((t * 5 + m + 2 * c) % 7) * 1.25
    if kind == "att":  # attenuation, non negative, with a gap
        x = base * 0.7
        x[1, 2, T // 2] = nan
        return x
    if kind == "trsl":
        x = 60 + base
        x[0, 1, T // 2] = nan
        return x
    if kind == "rsl":
        x = -60 - base * 0.5
        x[0, 1, T // 2] = nan
        x[1, 0, 0] = nan
        x[1, 2, T - 1] = nan
        return x
    if kind == "wet":
        return (((t + m + c) % 3) > 0).astype(float)
    if kind == "base":
        return 60 + base - ((t * 3 + m) % 5)
    if kind == "pref":
        return -40.0 - 0.1 * t + m
    if kind == "pcmin":
        return -40.0 - 0.1 * t + m - ((t + m + c) % 4) * 2.0
    if kind == "pcmax":
        return -40.0 - 0.1 * t + m - ((t + m + c) % 4) * 1.0
    if kind == "F":
        return -30.0 - ((t + m) % 5)
    if kind == "L":
        return np.broadcast_to(np.array([1.5, 3.0, 12.0])[None, :, None], c.shape) + 0 * t
    if kind == "f":
        return np.array([[18.0, 23.5, 38.0], [10.0, 25.0, 40.0]])[:, :, None] + 0.0 * t
    if kind == "fhz":
        return cube("f", T) * 1e9
    if kind == "waamax":
        return np.array([[2.3, 1.0, 0.5], [3.0, 2.0, 1.5]])[:, :, None] + 0.0 * t
    raise KeyError(kind)


def functions():
    from pycomlink.processing.baseline import baseline_constant
    from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end
    from pycomlink.processing.k_R_relation import calc_R_from_A
    from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival
    from pycomlink.processing.wet_antenna import (
        waa_leijnse_2008_from_A_obs,
        waa_pastorek_2021_from_A_obs,
        waa_schleiss_2013,
    )

    # name: (function, [(argname, spec)]) with spec ("t", kind) time dependent,
    # ("p", kind, scalar) parameter, either scalar or per link, ("c", value) constant,
    # ("d", value) constant with default (may be omitted), value == default or not
    return {
        "baseline_constant": (baseline_constant, [("trsl", ("t", "trsl")), ("wet", ("t", "wet")), ("n_average_last_dry", ("d", 2))]),
        "waa_schleiss_2013": (waa_schleiss_2013, [("rsl", ("t", "trsl")), ("baseline", ("t", "base")), ("wet", ("t", "wet")), ("waa_max", ("p", "waamax", 2.3)), ("delta_t", ("c", 1)), ("tau", ("c", 15))]),
        "waa_leijnse_2008_from_A_obs": (waa_leijnse_2008_from_A_obs, [("A_obs", ("t", "att")), ("f_Hz", ("p", "fhz", 23e9)), ("pol", ("c", "V")), ("L_km", ("p", "L", 4.0)), ("T_K", ("d", 280.0)), ("gamma", ("d", 3.0e-5)), ("delta", ("d", 0.3))]),
        "waa_pastorek_2021_from_A_obs": (waa_pastorek_2021_from_A_obs, [("A_obs", ("t", "att")), ("f_Hz", ("p", "fhz", 23e9)), ("pol", ("c", "H")), ("L_km", ("p", "L", 4.0)), ("A_max", ("d", 8)), ("zeta", ("d", 0.4)), ("d", ("d", 0.2))]),
        "calc_R_from_A": (calc_R_from_A, [("A", ("t", "att")), ("L_km", ("p", "L", 4.0)), ("f_GHz", ("p", "f", 23.0)), ("pol", ("c", "V")), ("a", ("d", None)), ("b", ("d", None)), ("a_b_approximation", ("d", "ITU_2003")), ("R_min", ("d", 1.0))]),
        "get_blackout_start_and_end": (get_blackout_start_and_end, [("rsl", ("t", "rsl")), ("rsl_threshold", ("c", -62.0))]),
        "nearby_rainfall_retrival": (nearby_rainfall_retrival, [("pref", ("t", "pref")), ("p_c_min", ("t", "pcmin")), ("p_c_max", ("t", "pcmax")), ("F", ("t", "F")), ("length", ("p", "L", 4.0)), ("f_GHz", ("p", "f", 23.0)), ("pol", ("c", "V")), ("a", ("d", None)), ("b", ("d", None)), ("a_b_approximation", ("d", "ITU_2003")), ("waa_max", ("d", 1.0)), ("alpha", ("d", 0.5)), ("F_value_threshold", ("d", -33.0))]),
    }


LAYOUTS = [
    p
    for k in (1, 2, 3)
    for sub in itertools.combinations(("channel_id", "cml_id", "time"), k)
    if "time" in sub
    for p in itertools.permutations(sub)
]


def darr(kind, dims, T, extra_coords=True):
    x = cube(kind, T)
    da = xr.DataArray(
        x,
        dims=("channel_id", "cml_id", "time"),
        coords={"channel_id": CH, "cml_id": CML, "time": times(T)},
    )
    sel = {}
    if "channel_id" not in dims:
        sel["channel_id"] = 0
    if "cml_id" not in dims:
        sel["cml_id"] = 0
    if "time" not in dims:
        sel["time"] = 0
    da = da.isel(sel, drop=True)
    return da.transpose(*dims)


def reference(fn, names, args, dims, T, n_out):
    """Loop over all label combinations, call with plain 1D arrays/scalars."""
    outer = [d for d in dims if d != "time"]
    lab = {"channel_id": CH, "cml_id": CML}
    out = {}
    for combo in itertools.product(*[lab[d] for d in outer]):
        kw = {}
        for n in names:
            v = args[n]
            if isinstance(v, xr.DataArray):
                s = v.sel({d: l for d, l in zip(outer, combo) if d in v.dims})
                v = s.values if "time" in s.dims else s.values.item()
            kw[n] = v
        r = fn(**kw)
        out[combo] = r if n_out > 1 else (r,)
    return outer, out


def compare(ctx, case, got, outer, ref, T, n_out, dims):
    if n_out == 1:
        got = (got,)
    if not isinstance(got, tuple) or len(got) != n_out:
        ctx.fail("expected %d labelled results, got %r" % (n_out, type(got)), case)
        return
    for q, g in enumerate(got):
        if not isinstance(g, xr.DataArray) or set(g.dims) != set(dims):
            ctx.fail("result is not a labelled array with dimensions %s: %r" % (dims, getattr(g, "dims", type(g))), case)
            return
        if not np.array_equal(g["time"].values, times(T)):
            ctx.fail("time labels of result changed", case)
            return
        for d in outer:
            if list(g[d].values) != {"channel_id": CH, "cml_id": CML}[d]:
                ctx.fail("labels of %s changed: %s" % (d, list(g[d].values)), case)
                return
        for combo, r in ref.items():
            s = g.sel({d: l for d, l in zip(outer, combo)}).transpose("time")
            if not ctx.eq("series %s" % (combo,), s.values.astype(float), np.asarray(r[q], float), case):
                return


def explore(ctx):
    fns = functions()
    n_out = {n: (2 if n == "get_blackout_start_and_end" else 1) for n in fns}
    if ctx.family("layouts_and_parameters"):
        for name, (fn, spec) in fns.items():
            names_all = [a for a, _ in spec]
            params = [a for a, s in spec if s[0] == "p"]
            for lay in LAYOUTS:
                for T in (1, 2, 3, 6) if name != "get_blackout_start_and_end" else (1, 2, 6):
                    for pmask in itertools.product((0, 1), repeat=len(params)):
                        if any(pmask) and len(lay) == 1:
                            continue
                        for withdef in (0, 1):
                            if not ctx.mine():
                                continue
                            args = {}
                            pm = dict(zip(params, pmask))
                            for a, s in spec:
                                if s[0] == "t":
                                    args[a] = darr(s[1], lay, T)
                                elif s[0] == "p":
                                    pd_ = [d for d in lay if d != "time"]
                                    if s[1] == "L":
                                        pd_ = [d for d in pd_ if d == "cml_id"]
                                    args[a] = darr(s[1], pd_, T) if pm[a] and pd_ else s[2]
                                elif s[0] == "c":
                                    args[a] = s[1]
                                elif withdef:
                                    args[a] = s[1]
                            used = [a for a in names_all if a in args]
                            case = {"function": name, "layout": lay, "T": T, "per_link_parameters": pm, "explicit_defaults": withdef}
                            outer, ref = reference(fn, used, args, lay, T, n_out[name])
                            ctx.state((name, lay, T, pmask, withdef))
                            ctx.step(len(ref))
                            ok, got = ctx.call(case, fn, **args)
                            if ok:
                                compare(ctx, case, got, outer, ref, T, n_out[name], lay)
                                ctx.trace(outcome=(name, lay, T, pmask, withdef))
                                ctx.sample(case)
    if ctx.family("many_dimensions"):
        # four and five dimensions: every rotation of the order, and only one argument carrying them
        ex = {"run": ["r1", "r0"], "set": [7, 3]}
        for name, (fn, spec) in fns.items():
            targs = [a for a, s in spec if s[0] == "t"]
            for extra in (("run",), ("run", "set")):
                full = extra + ("channel_id", "cml_id", "time")
                orders = [full[i:] + full[:i] for i in range(len(full))] + [full[::-1]]
                for order, carry in itertools.product(orders, [targs] + [[a] for a in targs[:1]]):
                    if not ctx.mine():
                        continue
                    args = {}
                    for a, s in spec:
                        if s[0] == "t":
                            v = darr(s[1], ("channel_id", "cml_id", "time"), 4)
                            if a in carry:
                                for q, d in enumerate(extra):
                                    f = xr.DataArray([1.0, 1.0 if s[1] == "wet" else 1.0 + 0.02 * (q + 1)], dims=d, coords={d: ex[d]})
                                    v = v * f
                                v = v.transpose(*order)
                            args[a] = v
                        else:
                            args[a] = s[2] if s[0] == "p" else s[1]
                    case = {"function": name, "order": order, "carried by": carry}
                    ok, got = ctx.call(case, fn, **args)
                    ctx.state((name, order, tuple(carry)))
                    if not ok:
                        continue
                    gs = got if n_out[name] > 1 else (got,)
                    if any(not isinstance(g, xr.DataArray) or set(g.dims) != set(full) for g in gs):
                        ctx.fail("result is not a labelled array with dimensions %s: %r" % (full, [getattr(g, "dims", type(g)) for g in gs]), case)
                        continue
                    lab = dict(ex, channel_id=CH, cml_id=CML)
                    outer = [d for d in full if d != "time"]
                    for combo in itertools.product(*[lab[d] for d in outer]):
                        at = dict(zip(outer, combo))
                        kw = {a: (v.sel({d: l for d, l in at.items() if d in v.dims}).values if isinstance(v, xr.DataArray) else v) for a, v in args.items()}
                        r = fn(**kw)
                        r = r if n_out[name] > 1 else (r,)
                        ctx.step()
                        for g, w in zip(gs, r):
                            if not ctx.eq("series %s" % (at,), g.sel(at).values.astype(float), np.asarray(w, float), case):
                                break
                    ctx.trace(outcome=(name, order, tuple(carry)))
    if ctx.family("positional_keyword_splits"):
        for name, (fn, spec) in fns.items():
            names_all = [a for a, _ in spec]
            for lay in (("time",), ("cml_id", "time"), ("time", "cml_id")):
                args = {}
                for a, s in spec:
                    args[a] = darr(s[1], lay, 6) if s[0] == "t" else (s[2] if s[0] == "p" else s[1])
                outer, ref = reference(fn, names_all, args, lay, 6, n_out[name])
                for k in range(len(names_all) + 1):
                    for rev in (False, True):
                        if not ctx.mine():
                            continue
                        pos = [args[a] for a in names_all[:k]]
                        rest = names_all[k:][::-1] if rev else names_all[k:]
                        kw = {a: args[a] for a in rest}
                        case = {"function": name, "layout": lay, "positional": names_all[:k], "keywords": rest}
                        ctx.state((name, lay, k, rev))
                        ctx.step()
                        ok, got = ctx.call(case, fn, *pos, **kw)
                        if ok:
                            compare(ctx, case, got, outer, ref, 6, n_out[name], lay)
                            ctx.trace(outcome=(name, lay, k, rev))
    if ctx.family("partial_time_arguments"):
        # some time dependent arguments have only `time`, others also links
        for name, (fn, spec) in fns.items():
            targs = [a for a, s in spec if s[0] == "t"]
            if len(targs) < 2:
                continue
            for mask in itertools.product((("time",), ("cml_id", "time"), ("time", "cml_id")), repeat=len(targs)):
                if not ctx.mine():
                    continue
                args = {}
                lay = dict(zip(targs, mask))
                for a, s in spec:
                    args[a] = darr(s[1], lay[a], 6) if s[0] == "t" else (s[2] if s[0] == "p" else s[1])
                dims = ("cml_id", "time") if any(len(m) > 1 for m in mask) else ("time",)
                outer, ref = reference(fn, [a for a, _ in spec], args, dims, 6, n_out[name])
                case = {"function": name, "layouts": lay}
                ctx.state((name, mask))
                ctx.step(len(ref))
                ok, got = ctx.call(case, fn, **args)
                if ok:
                    compare(ctx, case, got, outer, ref, 6, n_out[name], dims)
                    ctx.trace(outcome=(name, mask))
    if ctx.family("argument_errors"):
        for name, (fn, spec) in fns.items():
            names_all = [a for a, _ in spec]
            for lay in (("time",), ("cml_id", "time")):
                for xarr in (True, False):
                    if not ctx.mine():
                        continue
                    args = {}
                    for a, s in spec:
                        v = darr(s[1], lay if xarr else ("time",), 6) if s[0] == "t" else (s[2] if s[0] == "p" else s[1])
                        args[a] = v if xarr or s[0] != "t" else v.values
                    case = {"function": name, "layout": lay, "xarray": xarr}
                    for bad in ("foo", "n_averge_last_dry", "Pol", "R_Min", "waamax"):
                        ctx.rejects(dict(case, unknown_keyword=bad), fn, **dict(args, **{bad: 1}))
                        ctx.trace()
                    required = [a for a, s in spec if s[0] in ("t", "c", "p")]
                    if name in ("calc_R_from_A", "nearby_rainfall_retrival"):
                        required = [a for a in required if a not in ("pol", "f_GHz")]
                    for miss in required:
                        kw = {a: v for a, v in args.items() if a != miss}
                        ctx.rejects(dict(case, missing=miss), fn, **kw)
                        ctx.trace()
                    if name == "waa_leijnse_2008_from_A_obs":
                        extra = [complex(1.73, 0.014), 0.001, 5]
                    else:
                        extra = [5]
                    ctx.rejects(dict(case, too_many_positional=True), fn, *([args[a] for a in names_all] + extra))
                    ctx.rejects(dict(case, duplicate=names_all[0]), fn, *[args[a] for a in names_all], **{names_all[0]: args[names_all[0]]})
                    ctx.state((name, lay, xarr))
                    ctx.step(10)
                    ctx.trace(2)
    if ctx.family("label_mismatch"):
        # same labels in different order, or different labels: never combined by position
        for name, (fn, spec) in fns.items():
            targs = [a for a, s in spec if s[0] == "t"]
            targets = targs[1:] + [a for a, s in spec if s[0] == "p"]
            for a_bad in targets:
                for how in ("permuted", "other", "fewer", "more", "overlapping", "later", "fewer steps", "other steps"):
                    if how in ("later", "fewer steps", "other steps") and a_bad not in targs:
                        continue
                    if not ctx.mine():
                        continue
                    args = {}
                    for a, s in spec:
                        if s[0] == "t":
                            args[a] = darr(s[1], ("cml_id", "time"), 6)
                        elif s[0] == "p":
                            args[a] = darr(s[1], ("cml_id",), 6)
                        else:
                            args[a] = s[1]
                    good = dict(args)
                    if how == "permuted":
                        args[a_bad] = args[a_bad].isel(cml_id=[2, 0, 1])
                    elif how == "fewer":
                        args[a_bad] = args[a_bad].isel(cml_id=[0, 2])
                    elif how == "more":
                        x = args[a_bad]
                        args[a_bad] = xr.concat([x, x.isel(cml_id=[0]).assign_coords(cml_id=["x"])], "cml_id")
                    elif how == "overlapping":
                        x = args[a_bad]
                        args[a_bad] = x.assign_coords(cml_id=list(x.cml_id.values[1:]) + ["x"])
                    elif how == "later":
                        x = args[a_bad]
                        args[a_bad] = x.assign_coords(time=x.time.values + (x.time.values[1] - x.time.values[0]))
                    elif how == "fewer steps":
                        args[a_bad] = args[a_bad].isel(time=slice(0, 4))
                    elif how == "other steps":
                        x = args[a_bad]
                        args[a_bad] = x.assign_coords(time=x.time.values + 1000 * (x.time.values[1] - x.time.values[0]))
                    else:
                        args[a_bad] = args[a_bad].assign_coords(cml_id=["x", "y", "z"])
                    case = {"function": name, "argument": a_bad, "how": how}
                    ctx.state((name, a_bad, how))
                    ctx.step()
                    ctx.trace(outcome=(name, a_bad, how))
                    try:
                        got = fn(**args)
                    except Exception:
                        continue
                    if how != "permuted":
                        ctx.fail("data with labels that do not match were combined", case)
                        continue
                    outer, ref = reference(fn, [a for a, _ in spec], good, ("cml_id", "time"), 6, n_out[name])
                    for combo, r in ref.items():
                        gs = got if n_out[name] > 1 else (got,)
                        for q, g in enumerate(gs):
                            ctx.eq("aligned series %s" % (combo,), g.sel(cml_id=combo[0]).transpose("time").values.astype(float), np.asarray(r[q], float), case)
    if ctx.family("same_name"):
        # several wrapped functions of the same name with other argument orders, called in every order
        from pycomlink.processing.xarray_wrapper import xarray_apply_along_time_dim as deco

        def make(k):
            if k == 0:
                @deco()
                def f(x, y, scale=2.0):
                    return x * scale + y
            elif k == 1:
                @deco()
                def f(y, x, offset, scale=3.0):
                    return x * scale - y + offset
            else:
                @deco()
                def f(x, scale):
                    return np.cumsum(x) * scale
            return f

        want = [lambda x, y: x * 2.0 + y, lambda x, y: y * 3.0 - x + 1.5, lambda x, y: np.cumsum(x) * 0.5]
        rest = [(), (1.5,), (0.5,)]
        for order in itertools.permutations(range(3)):
            if not ctx.mine():
                continue
            fs = {k: make(k) for k in order}
            x, y = darr("att", ("cml_id", "time"), 6).fillna(1.0), darr("base", ("cml_id", "time"), 6)
            for k in order + order[::-1]:
                case = {"order": order, "called": k}
                a = (x, y) if k < 2 else (x,)
                ok, got = ctx.call(case, fs[k], *(a + rest[k]))
                ctx.step()
                ctx.state((order, k))
                if ok:
                    got = got.transpose("cml_id", "time")
                    w = np.array([want[k](x.values[i], y.values[i]) for i in range(3)])
                    ctx.eq("wrapped function", got.values, w, case)
                ctx.trace(outcome=(order, k))
    if ctx.family("plain_arrays_unwrapped"):
        for name, (fn, spec) in fns.items():
            if not ctx.mine():
                continue
            args = {}
            for a, s in spec:
                args[a] = darr(s[1], ("time",), 6).values if s[0] == "t" else (s[2] if s[0] == "p" else s[1])
            ok, got = ctx.call({"function": name}, fn, **args)
            ctx.step()
            ctx.state(name)
            if ok:
                gs = got if n_out[name] > 1 else (got,)
                for g in gs:
                    if isinstance(g, xr.DataArray) or np.shape(g) != (6,):
                        ctx.fail("plain array input has to return plain array of same length", {"function": name})
                ctx.trace()
