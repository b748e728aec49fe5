"""S02: local coordinate system about an origin."""
import numpy as np
import pandas as pd
from pyproj import Proj
from pyvc.ctx import contract
from solarspatialtools import spatial
from S01 import utm_fwd, utm_inv


def _origin(cx):
    return cx.real('olat', -70, 70, special=(0.0, -0.05, 0.05)), cx.real('olon', -179, 179, special=(5.95, 6.05, 0.0, -0.05))


def _target(cx, o):
    return o[0] + cx.real('dlat', -0.2, 0.2), o[1] + cx.real('dlon', -0.2, 0.2)


@contract(spatial.latlon2lcs, spatial.latlon2utm, spatial._calc_zone)
def offset_from_origin(cx):
    """local coordinates are the UTM offsets from the origin, both points in the origin's zone and hemisphere"""
    olat, olon = o = _origin(cx)
    lat, lon = _target(cx, o)
    e, n = cx.call(spatial.latlon2lcs, lat, lon, olat, olon)
    z = cx.call(spatial._calc_zone, olon)
    x0, y0 = cx.call(utm_fwd, olat, olon, z, olat < 0)
    x1, y1 = cx.call(utm_fwd, lat, lon, z, olat < 0)
    cx.eq('east', e, x1 - x0, tol=1e-6)
    cx.eq('north', n, y1 - y0, tol=1e-6)


@contract(spatial.latlon2lcs, spatial.latlon2utm)
def offset_explicit_zone(cx):
    """an explicit zone applies to both points"""
    zone = cx.integer('zone', 1, 60)
    olat, olon = cx.real('olat', -70, 70), cx.real('d', -5, 5) + (6 * zone - 183)
    lat, lon = _target(cx, (olat, olon))
    e, n = cx.call(spatial.latlon2lcs, lat, lon, olat, olon, zone=zone)
    x0, y0 = cx.call(utm_fwd, olat, olon, zone, olat < 0)
    x1, y1 = cx.call(utm_fwd, lat, lon, zone, olat < 0)
    cx.eq('east', e, x1 - x0, tol=1e-6)
    cx.eq('north', n, y1 - y0, tol=1e-6)


@contract(spatial.latlon2lcs, spatial.latlon2utm, spatial._calc_zone)
def offset_rows(cx):
    """arrays and labelled series of targets are converted row by row"""
    m = cx.size('m')
    olat, olon = _origin(cx)
    lat, lon = cx.arr('dlat', m, -0.2, 0.2) + olat, cx.arr('dlon', m, -0.2, 0.2) + olon
    k = cx.choice('kind', ['array', 'series'])
    if k == 'series':
        lab = cx.index(cx.labels('site', m))
        e, n = cx.call(spatial.latlon2lcs, cx.call(pd.Series, lat, index=lab), cx.call(pd.Series, lon, index=lab), olat, olon)
        for i in cx.forall(m):
            cx.ensure('labels', cx.at(e.index, i) == cx.at(lab, i))
    else:
        e, n = cx.call(spatial.latlon2lcs, lat, lon, olat, olon)
    z = cx.call(spatial._calc_zone, olon)
    x0, y0 = cx.call(utm_fwd, olat, olon, z, olat < 0)
    for i in cx.forall(m):
        x1, y1 = cx.call(utm_fwd, cx.at(lat, i), cx.at(lon, i), z, olat < 0)
        cx.eq('east', cx.at(e, i), x1 - x0, tol=1e-6)
        cx.eq('north', cx.at(n, i), y1 - y0, tol=1e-6)


@contract(spatial.lcs2latlon, spatial.latlon2utm, spatial.utm2latlon, spatial._calc_zone)
def back_to_latlon(cx):
    """local coordinates map back through the UTM position of the origin in the selected zone"""
    olat, olon = _origin(cx)
    e, n = cx.real('e', -2e4, 2e4), cx.real('n', -2e4, 2e4)
    k = cx.choice('zone', ['default', 'given'])
    z = cx.call(spatial._calc_zone, olon)
    if k == 'default':
        lat, lon = cx.call(spatial.lcs2latlon, e, n, olat, olon)
    else:
        z = z + cx.choice('dz', [-1, 0, 1])
        cx.requires(cx.And(z >= 1, z <= 60))
        lat, lon = cx.call(spatial.lcs2latlon, e, n, olat, olon, zone=z)
    x0, y0 = cx.call(utm_fwd, olat, olon, z, olat < 0)
    x, y = cx.call(utm_inv, x0 + e, y0 + n, z, olat < 0)
    cx.eq('lon', lon, x)
    cx.eq('lat', lat, y)


@contract(spatial.lcs2latlon, spatial.latlon2lcs, spatial.latlon2utm, spatial.utm2latlon, spatial._calc_zone)
def round_trip(cx):
    """geographic -> local -> geographic is the identity, also across zone borders and the equator"""
    olat, olon = o = _origin(cx)
    lat, lon = _target(cx, o)
    k = cx.choice('zone', ['default', 'given'])
    kw = {}
    if k == 'given':
        z = cx.call(spatial._calc_zone, olon) + cx.choice('dz', [-1, 0, 1])
        cx.requires(cx.And(z >= 1, z <= 60))
        kw = {'zone': z}
    e, n = cx.call(spatial.latlon2lcs, lat, lon, olat, olon, **kw)
    la, lo = cx.call(spatial.lcs2latlon, e, n, olat, olon, **kw)
    cx.eq('lat', la, lat, tol=1e-6)
    cx.eq('lon', lo, lon, tol=1e-6)


@contract(spatial.latlon2lcs, spatial.lcs2latlon)
def origin_is_zero(cx):
    """the origin itself is (0, 0)"""
    olat, olon = _origin(cx)
    e, n = cx.call(spatial.latlon2lcs, olat, olon, olat, olon)
    cx.eq('east', e, 0.0)
    cx.eq('north', n, 0.0)
