"""Reference programs for positions on the sphere; analysed, never run."""
import math

import numpy as np

from glass.lensing import deflect
from glass.points import displace, displacement


def round_trip(lon, lat, a1, a2):
    lon2, lat2 = displace(lon, lat, a1 + 1j * a2)
    return displacement(lon, lat, lon2, lat2)


def ref_round_trip(lon, lat, a1, a2):
    return a1 + 1j * a2


def both(lon, lat, a1, a2):
    l1, b1 = displace(lon, lat, a1 + 1j * a2)
    l2, b2 = deflect(lon, lat, a1 + 1j * a2)
    return l1 - lon + l2, b2


def ref_both(lon, lat, a1, a2):
    l1, b1 = displace(lon, lat, a1 + 1j * a2)
    return lon, b1


def both_pair(lon, lat, alpha):
    l1, b1 = displace(lon, lat, alpha)
    l2, b2 = deflect(lon, lat, alpha)
    return l1 - lon + l2, b2


def ref_both_pair(lon, lat, alpha):
    l1, b1 = displace(lon, lat, alpha)
    return lon, b1


def move(lon, lat, a1, a2):
    return displace(lon, lat, a1 + 1j * a2)


def ref_move(lon, lat, a1, a2):
    t = lat * math.pi / 180
    a = np.sqrt(a1 * a1 + a2 * a2)
    g = np.atan2(a2, a1)
    s = np.sin(t) * np.cos(a) + np.cos(t) * np.sin(a) * np.cos(g)
    d = np.atan2(np.sin(a) * np.sin(g), np.cos(t) * np.cos(a) - np.sin(t) * np.sin(a) * np.cos(g))
    return lon + d * 180 / math.pi, np.asin(s) * 180 / math.pi


def move_pair(lon, lat, alpha):
    return displace(lon, lat, alpha)


def ref_move_pair(lon, lat, alpha):
    return ref_move(lon, lat, alpha[0], alpha[1])


def round_trip_pair(lon, lat, alpha):
    lon2, lat2 = displace(lon, lat, alpha)
    return displacement(lon, lat, lon2, lat2)


def ref_round_trip_pair(lon, lat, alpha):
    return alpha[0] + 1j * alpha[1]
