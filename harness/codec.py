"""Tagged JSON <-> plain python values, for replay files and case hashing."""
import json, math, datetime, hashlib


def enc(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if type(x).__name__ == "Timestamp":
        return {"$ts": x.isoformat()}
    if isinstance(x, datetime.datetime):
        return {"$dt": x.isoformat()}
    if isinstance(x, datetime.date):
        return {"$d": x.isoformat()}
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return {"$f": "nan"}
        if math.isinf(x):
            return {"$f": "inf" if x > 0 else "-inf"}
        return x
    if isinstance(x, bytes):
        return {"$b": x.hex()}
    if isinstance(x, tuple):
        return {"$t": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return {"$s": sorted((enc(y) for y in x), key=lambda z: json.dumps(z, sort_keys=True))}
    if isinstance(x, dict):
        if all(isinstance(k, str) and not k.startswith("$") for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {"$m": [[enc(k), enc(v)] for k, v in x.items()]}
    raise TypeError("cannot encode %r (%s)" % (x, type(x)))


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k == "$ts":
                import pandas as pd
                return pd.Timestamp(v)
            if k == "$dt":
                return datetime.datetime.fromisoformat(v)
            if k == "$d":
                return datetime.date.fromisoformat(v)
            if k == "$f":
                return float(v)
            if k == "$b":
                return bytes.fromhex(v)
            if k == "$t":
                return tuple(dec(y) for y in v)
            if k == "$s":
                return set(dec(y) for y in v)
            if k == "$m":
                return {dec(a): dec(b) for a, b in v}
        return {k: dec(v) for k, v in x.items()}
    return x


def dumps(x, **kw):
    return json.dumps(enc(x), **kw)


def digest(x):
    return hashlib.sha1(json.dumps(enc(x)).encode("utf8", "surrogatepass")).digest()[:8]
