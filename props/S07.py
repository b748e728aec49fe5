"""S07: local flat-earth coordinates about a reference point."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools import spatial

R, F = 6378137.0, 1 / 298.257223563


def _radii(cx, lat0):
    e2 = 2 * F - F ** 2
    s = cx.sin(lat0 * (cx.pi / 180))
    w = 1 - e2 * (s * s)
    n = R / cx.sqrt(w)
    return n, n * (1 - e2) / w


@contract(spatial.lla2flat)
def flat_scalar(cx):
    """north = meridian radius * dlat, east = prime-vertical radius * cos(lat0) * dlon (WGS84)"""
    lat0, lon0 = cx.real('lat0', -89, 89), cx.real('lon0', -180, 180)
    lat, lon = cx.real('lat', -90, 90), cx.real('lon', -180, 180)
    e, n = cx.call(spatial.lla2flat, lat, lon, lat0, lon0)
    rn, rm = _radii(cx, lat0)
    k = cx.pi / 180
    cx.eq('north', n, rm * (lat - lat0) * k, tol=1e-9)
    cx.eq('east', e, rn * cx.cos(lat0 * k) * (lon - lon0) * k, tol=1e-9)


@contract(spatial.lla2flat)
def flat_rows(cx):
    """elementwise on arrays, the reference point maps to the origin, differences are additive"""
    n = cx.size('n')
    lat0, lon0 = cx.real('lat0', -89, 89), cx.real('lon0', -180, 180)
    lat, lon = cx.arr('lat', n, -90, 90), cx.arr('lon', n, -180, 180)
    e, nn = cx.call(spatial.lla2flat, lat, lon, lat0, lon0, method='matlab')
    rn, rm = _radii(cx, lat0)
    k = cx.pi / 180
    for i in cx.forall(n):
        cx.eq('north', cx.at(nn, i), rm * (cx.at(lat, i) - lat0) * k, tol=1e-9)
        cx.eq('east', cx.at(e, i), rn * cx.cos(lat0 * k) * (cx.at(lon, i) - lon0) * k, tol=1e-9)
    e0, n0 = cx.call(spatial.lla2flat, lat0, lon0, lat0, lon0)
    cx.eq('reference east', e0, 0.0)
    cx.eq('reference north', n0, 0.0)


@contract(spatial.lla2flat, mode='bounded')
def agrees_with_tmerc(cx):
    """near the reference both methods agree to first order and put the reference at the origin"""
    lat0, lon0 = cx.real('lat0', -70, 70), cx.real('lon0', -175, 175)
    d = cx.arr('d', 2, -0.02, 0.02)
    e1, n1 = cx.call(spatial.lla2flat, lat0 + d[0], lon0 + d[1], lat0, lon0, method='matlab')
    e2, n2 = cx.call(spatial.lla2flat, lat0 + d[0], lon0 + d[1], lat0, lon0, method='tmerc')
    cx.ensure('east', abs(e1 - e2) < 5)
    cx.ensure('north', abs(n1 - n2) < 5)
    e0, n0 = cx.call(spatial.lla2flat, lat0, lon0, lat0, lon0, method='tmerc')
    cx.ensure('origin', abs(e0) < 1e-6 and abs(n0) < 1e-6)


@contract(spatial.lla2flat)
def unknown_method(cx):
    """an unknown projection name is rejected"""
    lat0, lon0 = cx.real('lat0', -89, 89), cx.real('lon0', -180, 180)
    cx.raises('rejected', ValueError, spatial.lla2flat, lat0, lon0, lat0, lon0, cx.choice('m', ['utm', 'MATLAB', '']))
