"""Dates and times by locale data, with the time zone arithmetic of zoneinfo.

The instant is converted here; only the rendering of a given wall-clock
date or time by a CLDR pattern is Babel's.
"""
import datetime as dt
from functools import lru_cache
from zoneinfo import ZoneInfo

from babel.dates import format_date, format_time, get_datetime_format

from .refnum import locale


@lru_cache(None)
def zone(name):
    return ZoneInfo(name)


def shown(value, opts):
    """The wall-clock date or datetime to be shown."""
    if not isinstance(value, dt.datetime):
        return value
    if value.tzinfo is None:
        value = value.replace(tzinfo=dt.timezone.utc)
    if opts.get("timeZone") is not None:
        value = value.astimezone(dt.timezone.utc).astimezone(zone(opts["timeZone"]))
    return value


def format(value, opts, tag):
    loc = locale(tag)
    v = shown(value, opts)
    ds, ts = opts.get("dateStyle"), opts.get("timeStyle")
    d = t = None
    if ds or not ts:
        d = format_date(dt.date(v.year, v.month, v.day), format=ds or "medium", locale=loc)
    if ts:
        t = format_time(v, format=ts, locale=loc)
    if d is None:
        return t
    if t is None:
        return d
    pat = str(get_datetime_format(ds, locale=loc)).replace("'", "")
    return pat.replace("{0}", t).replace("{1}", d)
