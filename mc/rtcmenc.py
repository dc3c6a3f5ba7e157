""" RTCM 3 message construction from the published field lists """
from mc.bits import BW
from cssrlib.gnss import gtime_t

GPS0 = 315964800
LEAP = 18       # from 2017 on


def frame(w):
    """ message as handed to decode(): preamble, length, payload """
    p = w.bytes()
    return bytes([0xd3, len(p) >> 8, len(p) & 255])+p


def new(mt):
    w = BW()
    w.u(12, mt)
    return w


def gt(sec):
    """ library time from seconds of the GPS time scale since 1980-01-06 """
    t = gtime_t()
    t.time = GPS0+int(sec//1)
    t.sec = float(sec-sec//1)
    return t


def secs(t):
    return t.time-GPS0+t.sec
