"""C25: climatological variogram parameters."""
import datetime
import itertools
import math

from ..core import nan

MODES = ["nojit"]
SHARDS = 4
BOUNDS = "every day of a leap year and of a common year x 13 aggregation intervals (1 min .. 72.5 h) x 4 date notations (quick: notations on every third day), 13 further notations incl. long text on every fifth day; defaults"
ASSUMPTIONS = ["oracle: the regression of Van de Beek et al. (2012) as published in RAINLINK's ClimVarParam"]


def model(day, D):
    f = 1 / 365
    rng = (15.51 * D ** 0.09 + 2.06 * D ** -0.12 * math.cos(2 * math.pi * f * (day - 7.37 * D ** 0.22))) ** 4
    sill = (0.84 * D ** -0.25 + 0.20 * D ** -0.37 * math.cos(2 * math.pi * f * (day - 162 * D ** -0.03))) ** 4
    return {"sill": sill, "range": rng / 1000, "nugget": 0.1 * sill}


def explore(ctx):
    from pycomlink.spatial.interpolator import clim_var_param

    def judge(case, got, want):
        if not isinstance(got, dict) or set(got) != set(want):
            ctx.fail("keys: %r" % (got,), case)
            return
        for k in want:
            if not abs(float(got[k]) - want[k]) <= 1e-9 * abs(want[k]):
                ctx.fail("%s: got %r, expected %r" % (k, got[k], want[k]), case)
                return

    DUR = (1 / 60, 0.05, 0.25, 0.5, 1, 1.0, 2, 3, 6, 12, 24, 48, 72.5)
    if ctx.family("every_day"):
        for year in (2012, 2013) + ((1999, 2000, 2100) if ctx.thorough else ()):
            d = datetime.date(year, 1, 1)
            while d.year == year:
                doy = d.timetuple().tm_yday
                for k, D in enumerate(DUR):
                    if not ctx.mine():
                        continue
                    case = {"date": str(d), "hours": D}
                    ok, g = ctx.call(case, clim_var_param, d.strftime("%Y%m%d"), D)
                    ctx.state((doy, D, year))
                    ctx.step()
                    if ok:
                        judge(case, g, model(doy, D))
                        ctx.trace(outcome=(doy, D))
                    if doy % 3 == 0 and k in (2, 7):
                        for s in (d.strftime("%Y-%m-%d"), d, datetime.datetime(d.year, d.month, d.day, 23, 59), d.strftime("%Y-%m-%dT07:30")):
                            ok, g = ctx.call(dict(case, notation=str(s)), clim_var_param, date_str=s, time_scale_hours=D)
                            ctx.step()
                            if ok:
                                judge(dict(case, notation=str(s)), g, model(doy, D))
                                ctx.trace()
                d += datetime.timedelta(days=1)
        ctx.sample({"date": "20130404", "hours": 0.25})
    if ctx.family("notations"):
        # everything pandas understands as one instant
        import numpy as np
        import pandas as pd

        F = ("%d %B %Y", "%B %d, %Y", "%d %b %Y 12:00", "%A, %d %B %Y", "%Y/%m/%d", "%Y%m%dT2359", "%Y-%m-%d 00:00:00.000001", "%b %d %Y 11:59 PM", "%Y-%j")
        for year in (2012, 2013):
            for k in range(0, 365, 1 if ctx.thorough else 5):
                d = datetime.date(year, 1, 1) + datetime.timedelta(days=k)
                reps = [d.strftime(f) for f in F] + [pd.Timestamp(d), pd.Timestamp(d, tz="Asia/Tokyo") + pd.Timedelta("23h"), np.datetime64(d), np.datetime64(d, "ns")]
                for s in reps:
                    if not ctx.mine():
                        continue
                    try:
                        t = pd.to_datetime(s)
                    except Exception:
                        continue  # no notation of a date
                    if t.date() != d:
                        continue
                    for D in (0.25, 24):
                        case = {"date": str(d), "notation": repr(s), "hours": D}
                        ok, g = ctx.call(case, clim_var_param, s, D)
                        ctx.step()
                        if ok:
                            judge(case, g, model(d.timetuple().tm_yday, D))
                            ctx.state((year, k, repr(s), D))
                            ctx.trace(outcome=(year, k, repr(s), D))
    if ctx.family("changed_results"):
        # the caller changes the parameters it was given (e.g. adapts the nugget) and asks again
        for ds, D, name, how in itertools.product(("20130101", "20130704", "20131231"), (0.25, 1, 24), ("sill", "range", "nugget", "extra"), ("set", "clear", "pop")):
            if not ctx.mine():
                continue
            case = {"date": ds, "hours": D, "changed": name, "how": how}
            day = datetime.datetime.strptime(ds, "%Y%m%d").timetuple().tm_yday
            for k in range(3):
                ok, g = ctx.call(dict(case, call=k), clim_var_param, ds, D)
                ctx.step()
                if not ok:
                    break
                judge(dict(case, call=k), g, model(day, D))
                if how == "set":
                    g[name] = -1.0
                elif how == "clear":
                    g.clear()
                else:
                    g.pop(name, None)
            ctx.trace(outcome=str(case))
    if ctx.family("defaults_and_use"):
        ok, g = ctx.call("default", clim_var_param)
        if ok:
            judge("default", g, model(94, 0.25))
        ok, g = ctx.call("default", clim_var_param, "20130701")
        if ok:
            judge("default duration", g, model(182, 0.25))
        ctx.step(2)
        ctx.trace(2)
        # usable as parameters of the kriging interpolator
        import numpy as np

        from pycomlink.spatial.interpolator import OrdinaryKrigingInterpolator
        from .oracle_interp import krige

        pts = [(1.0, 2.0), (14.0, 3.0), (5.0, 20.0), (30.0, 31.0)]
        z = [1.0, 4.0, 2.0, 8.0]
        gx, gy = np.array([[3.0, 20.0]]), np.array([[4.0, 25.0]])
        for ds in ("20130101", "20130704", "20131010"):
            for D in (0.25, 1, 24):
                ok, par = ctx.call({"date": ds}, clim_var_param, ds, D)
                ok, v = ctx.call({"date": ds}, OrdinaryKrigingInterpolator(variogram_parameters=par), np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), np.array(z), gx, gy)
                if ok:
                    day = datetime.datetime.strptime(ds, "%Y%m%d").timetuple().tm_yday
                    w = [[krige(pts, z, (gx[0, i], gy[0, i]), "spherical", model(day, D))[0] for i in range(2)]]
                    ctx.eq("kriging with climatological parameters", v, w, {"date": ds, "hours": D}, rtol=1e-6)
                    ctx.step()
                    ctx.trace()
