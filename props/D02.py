"""D02: data set files (HOPE netCDF, NRCAN csv) and file helpers. Everything happens in a scratch directory removed afterwards."""
import os
import pathlib
import shutil
import tempfile
from contextlib import contextmanager
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools.dataio import hope_campaign as hope, iotools, nrcan_data

LEVEL = 'exploration'


@contextmanager
def _scratch():
    d = tempfile.mkdtemp(prefix='pyvc_d02_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _tree(d):
    return {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), 'rb').read() for a, _, fs in os.walk(d) for f in fs}


def _touch(d, names):
    for k, f in enumerate(names):
        pathlib.Path(d, f).write_text('%d' % k)


@contract(iotools.getfiles, mode='bounded', samples=120)
def listing(cx):
    """exactly the directory's files with the wanted extension (all of them without one), in name order; nothing is changed"""
    pool = ['b.nc', 'a.nc', 'A.nc', 'c.csv', 'd.nc.csv', 'nc', '.nc', 'e.NC', 'f.ncx', 'data_10.nc', 'data_9.nc', 'g.h5']
    names = [f for k, f in enumerate(pool) if cx.choice('f%d' % k, [True, False])]
    ext = cx.choice('ext', [None, '.nc', '.csv', '.h5'])
    with _scratch() as d:
        _touch(d, names)
        before = _tree(d)
        got = cx.call(iotools.getfiles, d, ext) if cx.choice('plain', [True, False]) else cx.call(iotools.getfiles, d, ext=ext, sort=True)
        free = cx.call(iotools.getfiles, d, ext, sort=False)
        want = sorted(f for f in names if ext is None or os.path.splitext(f)[1] == ext)
        cx.ensure('files', got == want)
        cx.ensure('unsorted', sorted(free) == want)
        cx.ensure('untouched', _tree(d) == before)


@contract(iotools.ensurepath, mode='bounded', samples=60)
def directories(cx):
    """afterwards the directory exists, parents included; an existing one keeps its contents"""
    with _scratch() as d:
        parts = ['x%d' % k for k in range(cx.size('depth', 1, 3))]
        p = os.path.join(d, *parts)
        there = cx.choice('there', [False, True])
        if there:
            os.makedirs(p)
            _touch(p, ['k.txt'])
        before = _tree(d)
        cx.call(iotools.ensurepath, p)
        cx.ensure('exists', os.path.isdir(p))
        cx.call(iotools.ensurepath, p)
        cx.ensure('contents', _tree(d) == before)


@contract(iotools.wget_fromurl, iotools.download, mode='bounded', samples=60)
def fetching(cx):
    """every listed file that the target lacks is fetched under its own name; files already there are left alone"""
    with _scratch() as d:
        src, tgt = os.path.join(d, 'src'), os.path.join(d, 'tgt')
        os.makedirs(src)
        os.makedirs(tgt)
        names = ['f%d.nc' % k for k in range(cx.size('n', 1, 5))]
        _touch(src, names)
        old = [f for k, f in enumerate(names) if cx.choice('old%d' % k, [False, True])]
        kept = cx.choice('old contents', ['kept', ''])
        for f in old:
            pathlib.Path(tgt, f).write_text(kept)
        script = os.path.join(d, 'wget.sh')
        pathlib.Path(script).write_text('\n'.join('wget -N %s ' % pathlib.Path(src, f).as_uri() for f in names) + '\n')
        cx.call(iotools.wget_fromurl, pathlib.Path(script).as_uri(), tgt, False)
        cx.ensure('all', sorted(os.listdir(tgt)) == sorted(names))
        for k, f in enumerate(names):
            cx.ensure('contents', pathlib.Path(tgt, f).read_text() == (kept if f in old else '%d' % k))


def _write_nc(path, ids, lat, lon, time, rsds, flag):
    import netCDF4
    with netCDF4.Dataset(path, 'w') as f:
        f.createDimension('station', len(ids))
        f.createDimension('time', len(time))
        for name, dims, v in (('station_id', ('station',), ids), ('lat', ('station',), lat), ('lon', ('station',), lon), ('time', ('time',), time), ('rsds', ('time', 'station'), rsds), ('rsds_flag', ('time', 'station'), flag)):
            f.createVariable(name, np.asarray(v).dtype, dims)[:] = v


def _campaign(cx, d):
    """files of one or several days for the same stations, written in an order that is not that of their names"""
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    m, days = cx.size('m', 1, 4), cx.size('days', 1, 3)
    ids = r.permutation(90)[:m].astype('i4') + 1
    lat, lon = r.uniform(50, 52, m), r.uniform(6, 14, m)
    t0 = 1366000000 + 86400 * int(r.integers(0, 100))
    out = {}
    for k in r.permutation(days):
        n = int(r.integers(1, 6))
        time = t0 + 86400.0 * k + np.arange(n)
        v = r.uniform(-5, 1200, (n, m))
        v[r.uniform(size=v.shape) < 0.2] = -999.0
        out['day%02d.nc' % k] = (time, v, r.integers(0, 4, (n, m)).astype('i4'))
        _write_nc(os.path.join(d, 'day%02d.nc' % k), ids, lat, lon, *out['day%02d.nc' % k])
    return ids, lat, lon, out


def _utc(time):
    return pd.DatetimeIndex(pd.to_datetime(np.asarray(time), unit='s', utc=True))


@contract(hope.parse_file, mode='bounded', samples=40)
def parsing(cx):
    """one column per station, one row per (UTC) time, for readings and flags alike, and each station's coordinates"""
    with _scratch() as d:
        ids, lat, lon, files = _campaign(cx, d)
        for f, (time, v, flag) in files.items():
            data, fl, st = cx.call(hope.parse_file, os.path.join(d, f))
            for got, want in ((data, v), (fl, flag)):
                cx.ensure('stations', list(got.columns) == list(ids))
                cx.ensure('times', bool((got.index == _utc(time)).all()) and len(got) == len(time))
                cx.eq_arr('values', got.values, want)
            cx.ensure('station table', list(st.index) == list(ids) and list(st.columns) == ['lat', 'lon'])
            cx.eq_arr('latitude', st['lat'].values, lat)
            cx.eq_arr('longitude', st['lon'].values, lon)


@contract(hope.dataset_to_h5, mode='bounded', samples=25)
def collecting(cx):
    """the summary holds the readings and flags of all files in name order; an existing target is refused and kept unless overwriting is asked for, which replaces it"""
    with _scratch() as d:
        src = os.path.join(d, 'nc')
        os.makedirs(src)
        ids, lat, lon, files = _campaign(cx, src)
        _touch(src, ['notes.txt'])
        out = os.path.join(d, 'all.h5')
        cx.call(hope.dataset_to_h5, src, out, verbose=False)
        before = _tree(d)
        cx.raises('existing target', ValueError, hope.dataset_to_h5, src, out, verbose=False)
        cx.ensure('kept', _tree(d) == before)
        if cx.choice('again', [False, True]):
            cx.call(hope.dataset_to_h5, src, out, overwrite=True, verbose=False)
        for key, q in (('data', 1), ('flag', 2)):
            got = pd.read_hdf(out, key=key, mode='r')
            cx.ensure('stations', list(got.columns) == list(ids))
            cx.eq_arr('values', got.values, np.concatenate([files[f][q] for f in sorted(files)]))
            cx.ensure('times', bool((got.index == _utc(np.concatenate([files[f][0] for f in sorted(files)]))).all()))
        st = pd.read_hdf(out, key='latlon', mode='r')
        cx.ensure('station table', list(st.index) == list(ids))
        cx.eq_arr('coordinates', st[['lat', 'lon']].values, np.array([lat, lon]).T)


@contract(nrcan_data.process_files, mode='bounded', samples=25)
def nrcan(cx):
    """one column per station file, horizontal and tilted readings apart, held until the next reading on a 10 ms grid at UTC-5; the site table by station"""
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    m = cx.size('m', 1, 3)
    with _scratch() as d:
        src = os.path.join(d, 'csv')
        os.makedirs(src)
        names = ['%s%02d' % (p, k) for p, k in zip(['AR', 'AB', 'Z'] * m, r.permutation(90)[:m])]
        n = cx.size('n', 2, 6)
        ticks = {}
        start, end = 36000.0, n + 20 + cx.choice('silence', [0, 300, 7000])      # readings may pause for long
        for s in names:
            t = np.round(start + 0.01 * np.sort(np.concatenate([[0, end], r.permutation(np.arange(1, n + 20))[:n]])), 2)
            ticks[s] = (t, r.uniform(0, 1200, len(t)), r.uniform(0, 1200, len(t)))
            hms = ['%02d:%02d:%05.2f' % (x // 3600, x % 3600 // 60, x % 60) for x in t]
            pd.DataFrame({'Date': '2015-10-08', 'Time': hms, 'G1 (W/m2)': ticks[s][1], 'G2 (W/m2)': ticks[s][2]}).to_csv(os.path.join(src, '20151008_%s_x.csv' % s), index=False)
        inside = cx.choice('table inside', [False, True])
        ll = os.path.join(src if inside else d, 'latlon_site.csv')
        lat, lon = r.uniform(40, 50, m), r.uniform(-80, -70, m)
        pd.DataFrame({'Site': names, 'Latitude': lat, 'Longitude': lon}).to_csv(ll, index=False)
        out = os.path.join(d, 'out.h5')
        cx.call(nrcan_data.process_files, src, ll, out)
        grid = pd.Timestamp('2015-10-08', tz='Etc/GMT+5') + pd.to_timedelta(np.arange(end + 1) * 10, unit='ms') + pd.Timedelta(hours=10)
        for key, q in (('data', 1), ('data_tilt', 2)):
            got = pd.read_hdf(out, key=key, mode='r')
            cx.ensure('stations', list(got.columns) == sorted(names))
            cx.ensure('grid', len(got) == end + 1 and bool((got.index == grid).all()))
            for s in names:
                t = ticks[s][0]
                want = ticks[s][q][np.searchsorted(t, start + 0.01 * np.arange(end + 1) + 0.001) - 1]
                cx.eq_arr('held readings', got[s].values, want)
        st = pd.read_hdf(out, key='latlon', mode='r')
        cx.ensure('sites', list(st.index) == names)
        cx.eq_arr('coordinates', st[['lat', 'lon']].values, np.array([lat, lon]).T)
