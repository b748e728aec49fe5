"""S01: geographic <-> UTM conversion."""
import numpy as np
import pandas as pd
from pyproj import Proj
from pyvc.ctx import contract
from solarspatialtools import spatial


def utm_fwd(lat, lon, zone, south):
    """WGS84 UTM easting and northing in metres (reference)"""
    return Proj(proj='utm', zone=zone, datum='WGS84', units='m', south=south)(lon, lat)


def utm_inv(e, n, zone, south):
    return Proj(proj='utm', zone=zone, datum='WGS84', units='m', south=south)(e, n, inverse=True)


def _lat(cx, name='lat'):
    return cx.real(name, -80, 84, special=(0.0, -0.0, 80.0, -1e-9))


def _lon(cx, name='lon'):
    return cx.real(name, -180, 180, special=(-180.0, 180.0, 0.0, 6.0, 174.0, -174.0, 12.0, 179.9999))


@contract(spatial._calc_zone)
def zone_partition(cx):
    """zone z covers exactly the longitudes [6z-186, 6z-180), the antimeridian +180 belonging to 60"""
    lon = _lon(cx)
    z = cx.call(spatial._calc_zone, lon)
    cx.ensure('between 1 and 60', cx.And(z >= 1, z <= 60))
    cx.ensure('west edge', 6 * z - 186 <= lon)
    cx.ensure('east edge', cx.Or(lon < 6 * z - 180, cx.And(lon == 180, z == 60)))


@contract(spatial.latlon2utm, spatial._calc_zone)
def forward_scalar(cx):
    """a scalar point goes to WGS84 UTM metres in the zone of its longitude and its own hemisphere"""
    lat, lon = _lat(cx), _lon(cx)
    e, n, z = cx.call(spatial.latlon2utm, lat, lon)
    zone = cx.call(spatial._calc_zone, lon)
    x, y = cx.call(utm_fwd, lat, lon, zone, lat < 0)
    cx.eq('easting', e, x)
    cx.eq('northing', n, y)
    cx.eq('zone', z, zone)


@contract(spatial.latlon2utm)
def forward_zone(cx):
    """an explicit zone is used and reported"""
    lat, lon = _lat(cx), _lon(cx)
    d = cx.real('d', -8, 8)
    zone = cx.integer('zone', 1, 60)
    lon = d + (6 * zone - 183)
    e, n, z = cx.call(spatial.latlon2utm, lat, lon, zone)
    x, y = cx.call(utm_fwd, lat, lon, zone, lat < 0)
    cx.eq('easting', e, x)
    cx.eq('northing', n, y)
    cx.eq('zone', z, zone)


@contract(spatial.latlon2utm, spatial._calc_zone)
def forward_rows(cx):
    """arrays, lists and labelled series are converted row by row, keeping order and labels"""
    n = cx.size('n')
    lat, lon = cx.arr('lat', n, -80, 84), cx.arr('lon', n, -180, 180)
    k = cx.choice('kind', ['array', 'series'])
    if k == 'series':
        lab = cx.index(cx.labels('site', n))
        r = cx.call(spatial.latlon2utm, cx.call(pd.Series, lat, index=lab), cx.call(pd.Series, lon, index=lab))
        cx.is_type('container', r, pd.DataFrame)
        cx.ensure('columns', list(r.columns) == ['E', 'N', 'zone'])
        for i in cx.forall(n):
            cx.ensure('labels', cx.at(r.index, i) == cx.at(lab, i))
    else:
        r = cx.call(spatial.latlon2utm, lat, lon)
    cx.eq('rows', cx.shape(r)[0], n)
    cx.eq('columns', cx.shape(r)[1], 3)
    for i in cx.forall(n):
        zone = cx.call(spatial._calc_zone, cx.at(lon, i))
        x, y = cx.call(utm_fwd, cx.at(lat, i), cx.at(lon, i), zone, cx.at(lat, i) < 0)
        cx.eq('easting', cx.at(r, i, 0), x)
        cx.eq('northing', cx.at(r, i, 1), y)
        cx.eq('zone', cx.at(r, i, 2), zone)


@contract(spatial.utm2latlon)
def inverse_scalar(cx):
    """UTM to latitude/longitude inverts the WGS84 UTM projection of the given zone and hemisphere"""
    e, n = cx.real('e', 2e5, 8e5), cx.real('n', 0, 9e6)
    zone, south = cx.integer('zone', 1, 60), cx.boolean('south')
    if south:
        cx.requires(n >= 1.2e6)
    lat, lon = cx.call(spatial.utm2latlon, e, n, zone, south)
    x, y = cx.call(utm_inv, e, n, zone, south)
    cx.eq('lon', lon, x)
    cx.eq('lat', lat, y)


@contract(spatial.utm2latlon)
def inverse_rows(cx):
    """the inverse acts row by row and keeps labels"""
    m = cx.size('m')
    e, n = cx.arr('e', m, 2e5, 8e5), cx.arr('n', m, 1.2e6, 9e6)
    zone, south = cx.integer('zone', 1, 60), cx.boolean('south')
    k = cx.choice('kind', ['array', 'series'])
    if k == 'series':
        lab = cx.index(cx.labels('site', m))
        r = cx.call(spatial.utm2latlon, cx.call(pd.Series, e, index=lab), cx.call(pd.Series, n, index=lab), zone, south)
        cx.is_type('container', r, pd.DataFrame)
        cx.ensure('columns', list(r.columns) == ['lat', 'lon'])
        for i in cx.forall(m):
            cx.ensure('labels', cx.at(r.index, i) == cx.at(lab, i))
    else:
        r = cx.call(spatial.utm2latlon, e, n, zone, south)
    cx.eq('rows', cx.len(r), m)
    for i in cx.forall(m):
        x, y = cx.call(utm_inv, cx.at(e, i), cx.at(n, i), zone, south)
        cx.eq('lat', cx.at(r, i, 0), y)
        cx.eq('lon', cx.at(r, i, 1), x)


@contract(spatial.latlon2utm, spatial.utm2latlon, spatial._calc_zone)
def round_trip(cx):
    """there and back, in the reported zone and own hemisphere, is the identity"""
    lat, lon = _lat(cx), cx.real('lon', -179.9999, 179.9999, special=(0.0, 6.0, 174.0, -174.0, 12.0))
    e, n, z = cx.call(spatial.latlon2utm, lat, lon)
    la, lo = cx.call(spatial.utm2latlon, e, n, z, lat < 0)
    cx.eq('lat', la, lat, tol=1e-6)
    cx.eq('lon', lo, lon, tol=1e-6)


@contract(spatial.latlon2utm, spatial.utm2latlon)
def length_mismatch(cx):
    """coordinate arrays of different length are rejected"""
    n, m = cx.size('n'), cx.size('m')
    cx.requires(n != m)
    a, b = cx.arr('a', n, 10, 20), cx.arr('b', m, 10, 20)
    cx.raises('forward', ValueError, spatial.latlon2utm, a, b)
    cx.raises('inverse', ValueError, spatial.utm2latlon, a, b, 32)
