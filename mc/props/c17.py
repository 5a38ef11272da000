"""C17: reading cmlh5 files."""
import hashlib
import itertools
import os
import tempfile

import h5py
import numpy as np

from ..core import nan, words
from .c09 import hav

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all files with 1..3 links x 1..3 channels per link x time axis relation of the channels (same, shifted, shorter, disjoint) x time "
    "encoding (integer/real seconds, start date) x level dtype incl. missing values; all orders of link and channel names of up to 3; extreme and repeated levels, up to 2000 steps, 15 links and 12 channels; "
    "files with minimum and maximum levels (all of the structures above, all subsets of missing series); the three example files through their getters; every file byte-identical afterwards"
)
ASSUMPTIONS = ["time stamps are strictly increasing inside a channel", "time precision judged to 1 microsecond"]

CH_NAMES = ["channel_1", "channel_2", "channel_3"]


INSTANT = (("tsl", "tx"), ("rsl", "rx"))
MINMAX = (("tsl_max", "tx_max"), ("tsl_min", "tx_min"), ("rsl_max", "rx_max"), ("rsl_min", "rx_min"))


def VARS(c):
    """names of the level variables in the dataset and in the file for one channel"""
    return MINMAX if "tx_max" in c else INSTANT


def to_minmax(link, k=0):
    """the same link with minimum and maximum levels per time step instead of instantaneous ones"""
    for c in link["channels"]:
        tx, rx = np.array(c.pop("tx"), float), np.array(c.pop("rx"), float)
        i = np.arange(len(tx))
        c["tx_max"], c["tx_min"] = (tx + (i + k) % 3).tolist(), (tx - i % 2).tolist()
        c["rx_max"], c["rx_min"] = (rx + 0.5 * (i % 4)).tolist(), (rx - 0.25 * ((i + k) % 5)).tolist()
    return link


def chan_time(kind, c, n, t0):
    if kind == "same":
        off = 0
    elif kind == "shifted":
        off = 2 * c
    elif kind == "disjoint":
        off = 100 * (len(CH_NAMES) - c)
    else:
        off = 0
    m = n - c if kind == "shorter" else n
    return [t0 + 60 * (off + i) for i in range(m)]


def build(path, links):
    with h5py.File(path, "w") as f:
        for l in links:
            g = f.create_group(l["group"])
            for k in ("cml_id", "site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
                g.attrs[k] = l[k]
            for c in l["channels"]:
                cg = g.create_group(c["name"])
                cg.attrs["frequency"] = c["frequency"]
                cg.attrs["polarization"] = c["polarization"]
                cg["time"] = np.array(c["time"], dtype=c.get("tdtype", float))
                for _, src in VARS(c):
                    cg[src] = np.array(c[src], dtype=c.get("dtype", float))


def scal(ds, name, ch):
    v = ds[name]
    if "channel_id" in v.dims:
        v = v.sel(channel_id=ch)
    return v.values.item() if v.size == 1 else v.values


def judge(ctx, case, dss, links):
    want = sorted(links, key=lambda l: l["group"])
    if not isinstance(dss, list) or len(dss) != len(want):
        ctx.fail("expected a list of %d datasets, got %r" % (len(want), type(dss)), case)
        return
    for ds, l in zip(dss, want):
        chs = sorted(l["channels"], key=lambda c: c["name"])
        if list(np.atleast_1d(ds.channel_id.values)) != [c["name"] for c in chs]:
            ctx.fail("channels: got %s" % (ds.channel_id.values,), case)
            return
        for c in chs:
            for k in ("cml_id", "site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
                if scal(ds, k, c["name"]) != l[k]:
                    ctx.fail("%s: got %r, expected %r" % (k, scal(ds, k, c["name"]), l[k]), case)
            if abs(float(scal(ds, "frequency", c["name"])) - c["frequency"] / 1e9) > 1e-9:
                ctx.fail("frequency of %s: got %r GHz, file has %r Hz" % (c["name"], scal(ds, "frequency", c["name"]), c["frequency"]), case)
            if scal(ds, "polarization", c["name"]) != c["polarization"]:
                ctx.fail("polarization of %s: got %r, expected %r" % (c["name"], scal(ds, "polarization", c["name"]), c["polarization"]), case)
            L = hav(l["site_a_longitude"], l["site_a_latitude"], l["site_b_longitude"], l["site_b_latitude"])
            if abs(float(scal(ds, "length", c["name"])) - L) > 1e-4 + 1e-6 * L:
                ctx.fail("length: got %r, expected %r" % (scal(ds, "length", c["name"]), L), case)
        t = ds.time.values
        if t.dtype.kind != "M":
            ctx.fail("time is not a time axis", case)
            return
        us = np.round(t.astype("datetime64[ns]").astype("int64") / 1000).astype("int64")
        allt = sorted({int(round(x * 1e6)) for c in chs for x in c["time"]})
        if sorted(us.tolist()) != allt:
            ctx.fail("time axis: got %s, expected %s" % (us[:6], allt[:6]), case)
            return
        pos = {u: i for i, u in enumerate(us.tolist())}
        for c in chs:
            for v, src in VARS(c):
                w = np.full(len(allt), nan)
                for x, y in zip(c["time"], c[src]):
                    w[pos[int(round(x * 1e6))]] = y
                a = ds[v]
                if set(a.dims) != {"channel_id", "time"}:
                    ctx.fail("%s has dimensions %s" % (v, a.dims), case)
                    return
                if not ctx.eq("%s of %s" % (v, c["name"]), a.sel(channel_id=c["name"]).values, w, case, rtol=1e-13, atol=1e-13):
                    return


def mklink(k, group, nch, kind, n, t0, tdtype=float, dtype=float, names=CH_NAMES, miss=0, lat=47.5, lon=11.0):
    chans = []
    for c in range(nch):
        t = chan_time(kind, c, n, t0)
        tx = [10.0 + k + c + (i % 3) for i in range(len(t))]
        rx = [-40.0 - 2 * k - 3 * c - (i * 7 % 5) for i in range(len(t))]
        if dtype in (float, np.float32):
            tx = [float(dtype(x + 0.1 * k + 1 / 3)) for x in tx]
            rx = [float(dtype(x - 0.123456789 * (i + 1))) for i, x in enumerate(rx)]
            for i in range(len(t)):
                if miss >> (i % 4) & 1:
                    rx[i] = nan
                if miss >> ((i + 2) % 4) & 1 and c == 1:
                    tx[i] = nan
        chans.append(dict(name=names[c], frequency=(18.0 + 5 * c + k) * 1e9, polarization="VH"[c % 2], time=t, tx=tx, rx=rx, tdtype=tdtype, dtype=dtype))
    return dict(group=group, cml_id="id_%s" % group, site_a_latitude=lat + 0.01 * k, site_b_latitude=lat + 0.05 + 0.02 * k, site_a_longitude=lon - 0.03 * k, site_b_longitude=lon + 0.1, channels=chans)


def explore(ctx):
    from pycomlink.io import examples
    from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as rd

    big = ctx.thorough
    tmp = tempfile.mkdtemp()
    path = os.path.join(tmp, "f.h5")

    def one(links, case):
        if os.path.exists(path):
            os.unlink(path)
        build(path, links)
        h = hashlib.sha256(open(path, "rb").read()).hexdigest()
        ok, dss = ctx.call(case, rd, path)
        ctx.step(sum(len(c["time"]) for l in links for c in l["channels"]))
        ctx.state(str(case))
        ctx.trace(outcome=str(case))
        if ok:
            judge(ctx, case, dss, links)
        if hashlib.sha256(open(path, "rb").read()).hexdigest() != h or os.listdir(tmp) != ["f.h5"]:
            ctx.fail("reading changed the file", case)

    if ctx.family("structures"):
        for nl, nch, kind, n in itertools.product((1, 2, 3), (1, 2, 3), ("same", "shifted", "shorter", "disjoint"), (4, 7)):
            if not ctx.mine() or (nch == 1 and kind != "same"):
                continue
            links = [mklink(k, "cml_%d" % k, 1 + (nch - 1 + k) % 3 if nl > 1 else nch, kind, n, 1.5e9 + 3600 * k) for k in range(nl)]
            one(links, {"links": nl, "channels": nch, "time axes": kind, "n": n})
        ctx.sample({"links": 2, "channels": 2, "time axes": "shifted"})
    if ctx.family("more_channels"):
        names = ["channel_%d" % c for c in range(1, 8)]
        for nch, kind, n, miss in itertools.product((4, 5, 7), ("same", "shifted", "shorter", "disjoint"), (8, 11), (0, 1, 6)):
            if not ctx.mine():
                continue
            links = [mklink(k, "cml_%d" % k, nch - k, "same" if kind == "disjoint" else kind, n, 1.5e9 + 3600 * k, names=names, miss=miss) for k in range(2)]
            if kind == "disjoint":  # channels one after another, in reverse order
                for l in links:
                    for q, c in enumerate(l["channels"]):
                        c["time"] = [t + 6000 * (nch - q) for t in c["time"]]
            one(links, {"channels": nch, "time axes": kind, "n": n, "missing": miss})
    if ctx.family("encodings"):
        for t0, tdt, dt, miss in itertools.product((0, 86400 * 365.25 * 60, 1430000000, 1600000000.5, 1600000000.25), (float, np.int64, np.int32), (float, np.float32, np.int16, np.int32), (0, 1, 6)):
            if not ctx.mine() or (tdt is not float and t0 != int(t0)) or (tdt is np.int32 and t0 > 1.6e9) or (dt in (np.int16, np.int32) and miss):
                continue
            links = [mklink(1, "a", 2, "shifted", 5, t0, tdt, dt, miss=miss)]
            one(links, {"t0": t0, "time dtype": str(tdt), "level dtype": str(dt), "missing": miss})
    if ctx.family("missing_patterns"):
        for pat in words((0, 1), 8):
            if not ctx.mine():
                continue
            l = mklink(0, "x", 2, "same", 4, 1.4e9)
            for i in range(4):
                if pat[i]:
                    l["channels"][0]["rx"][i] = nan
                if pat[4 + i]:
                    l["channels"][1]["tx"][i] = nan
            one([l], {"missing": pat})
    if ctx.family("levels_and_long_series"):
        # every number is a level; repeated levels, extreme levels, long series, many links and channels
        LV = [0.0, -0.0, 255.0, -255.0, -99.9, -120.0, 9999.0, 1e-9, -1e6, float("inf")]
        for i, v in enumerate(LV):
            for pos in range(4):
                if not ctx.mine():
                    continue
                l = mklink(0, "x", 2, "same", 4, 1.4e9)
                l["channels"][pos % 2]["rx"][pos] = v
                l["channels"][1 - pos % 2]["tx"][pos] = v
                one([l], {"level": v, "position": pos})
            if ctx.mine():
                l = mklink(0, "x", 2, "same", 4, 1.4e9)
                l["channels"][0]["rx"] = l["channels"][1]["tx"] = [v] * 4
                one([l], {"constant level": v})
        for n, nl, nch in ((1, 1, 1), (1, 2, 3), (2000, 1, 2), (700, 2, 2), (3, 15, 2), (5, 1, 12)):
            if ctx.mine():
                names = ["channel_%d" % c for c in range(1, 13)]
                one([mklink(k, "link_%d" % k, nch, "same", n, 1.45e9, names=names) for k in range(nl)], {"steps": n, "links": nl, "channels": nch})
    if ctx.family("name_orders"):
        for gn in itertools.permutations(["b", "a", "cml_10", "cml_2"], 3):
            for cn in itertools.permutations(["channel_2", "channel_1", "ch10"], 2):
                if not ctx.mine():
                    continue
                links = [mklink(k, g, 2, "same", 4, 1.5e9, names=list(cn)) for k, g in enumerate(gn)]
                one(links, {"groups": gn, "channels": cn})
    if ctx.family("same_values_in_channels"):
        # equal frequency / polarization in all channels, several hemispheres
        for lat, lon, f, pol in itertools.product((47.5, -33.0, 0.0), (11.0, -70.0, 179.95), (15e9, 38.25e9), ("V", "H", "v", "Vertical", "horizontal", "unknown", "")):
            if not ctx.mine():
                continue
            l = mklink(2, "g", 2, "same", 5, 1.5e9, lat=lat, lon=lon)
            for c in l["channels"]:
                c["frequency"], c["polarization"] = f, pol
            one([l], {"lat": lat, "lon": lon, "f": f, "pol": pol})
    if ctx.family("min_max_levels"):
        for nl, nch, kind, n, miss in itertools.product((1, 2, 3), (1, 2, 3), ("same", "shifted", "shorter", "disjoint"), (1, 4, 7), (0, 1, 6)):
            if not ctx.mine() or (nch == 1 and kind != "same") or (n == 1 and kind == "shorter"):
                continue
            links = [to_minmax(mklink(k, "cml_%d" % k, 1 + (nch - 1 + k) % 3 if nl > 1 and n > 3 else nch, kind, n, 1.5e9 + 3600 * k, miss=miss), k) for k in range(nl)]
            one(links, {"minimum and maximum levels, links": nl, "channels": nch, "time axes": kind, "n": n, "missing": miss})
        for pat in words((0, 1), 8):
            if not ctx.mine():
                continue
            # every subset of the eight level series of a link with one missing step
            l = to_minmax(mklink(0, "x", 2, "same", 4, 1.4e9))
            for i, b in enumerate(pat):
                if b:
                    l["channels"][i // 4][MINMAX[i % 4][1]][i % 4] = nan
            one([l], {"minimum and maximum levels, missing": pat})
    if ctx.family("example_file"):
        for name, getter in (("one_cml.h5", "get_one_cml"), ("75_cmls.h5", "get_75_cmls"), ("75_cmls_min_max.h5", "get_75_cmls_min_max")):
            p = os.path.join(examples.get_example_data_path(), name)
            if not ctx.mine() or not os.path.exists(p):
                continue
            links = []
            with h5py.File(p, "r") as f:
                for gname, g in f.items():
                    l = dict(group=gname, channels=[])
                    for k in ("cml_id", "site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
                        l[k] = g.attrs[k]
                    for c in g:
                        ch = dict(name=c, frequency=g[c].attrs["frequency"], polarization=g[c].attrs["polarization"], time=g[c]["time"][:].tolist())
                        for src in g[c]:
                            if src != "time":
                                ch[src] = g[c][src][:].tolist()
                        l["channels"].append(ch)
                    links.append(l)
            h = hashlib.sha256(open(p, "rb").read()).hexdigest()
            ok, dss = ctx.call("examples." + getter, getattr(examples, getter))
            ctx.step(sum(len(c["time"]) for l in links for c in l["channels"]))
            ctx.trace()
            if ok:
                judge(ctx, "example file " + name, [dss] if getter == "get_one_cml" else dss, links)
            if hashlib.sha256(open(p, "rb").read()).hexdigest() != h:
                ctx.fail("reading changed the example file", name)
