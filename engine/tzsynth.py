"""Turn a model of a timezone (offsets at finitely many points) into a TZif file."""
from __future__ import annotations
import datetime as _dt, os, random, struct, zoneinfo
from .ctx import EPOCH_ORD, MIN_LS, MAX_LS
from .models import EPOCH_LS


def tzif(trans, first_off):
    """trans: [(utc second from ordinal 0, offset after)], sorted."""
    types, idx = [first_off], []
    for _, o in trans:
        if o not in types:
            types.append(o)
        idx.append(types.index(o))
    names = b"".join(b"V%02d\0" % i for i in range(len(types)))

    def block(fmt, size):
        out = struct.pack(">4sc15x6l", b"TZif", b"2", 0, 0, 0, len(trans) if size else 0,
                          len(types), len(names))
        if size:
            out += b"".join(struct.pack(fmt, t - EPOCH_LS) for t, _ in trans)
            out += bytes(idx)
        for i, o in enumerate(types):
            out += struct.pack(">lbb", o, 0, 4 * i)
        return out + names
    data = block(">l", 0) + block(">q", 8)
    last = trans[-1][1] if trans else first_off
    return data + b"\n" + posix(last) + b"\n"


def posix(off):
    s = "-" if off > 0 else ""
    a = abs(off)
    h, m, x = a // 3600, a // 60 % 60, a % 60
    return f"<V>{s}{h}:{m:02}:{x:02}".encode()


def candidates(spec, n=6, rng=None):
    """Transition lists consistent with the model's points (best effort)."""
    rng = rng or random.Random(0)
    pts = {}      # utc second -> offset
    ranges = []   # (lo, hi, before, after): a transition lies in (lo, hi]
    for u, o, f in spec.get("u", ()):
        pts[u] = o
        if f:
            # second occurrence: overlap contains u + o
            pass
    for l, o0, o1 in spec.get("l", ()):
        if o0 == o1:
            pts[l - o0] = o0
        elif o0 > o1:
            pts[l - o0], pts[l - o1] = o0, o1
            ranges.append((l - o0, l - o1))
        else:
            # gap: before the transition o0, after it o1
            pts[l - o1], pts[l - o0] = o0, o1
            ranges.append((l - o1, l - o0))
    us = sorted(pts)
    if not us:
        return [(0, [])]
    out = []
    for k in range(n):
        trans = []
        for a, b in zip(us, us[1:]):
            if pts[a] == pts[b]:
                continue
            if (a, b) in ranges or b - a < 4:
                t = [b, a + 1, (a + b + 1) // 2, rng.randint(a + 1, b)][k % 4]
            else:
                t = [b, a + 1, (a + b + 1) // 2, rng.randint(a + 1, b)][(k // 2) % 4]
            trans.append((t, pts[b]))
        out.append((pts[us[0]], trans))
    uniq = []
    for x in out:
        if x not in uniq:
            uniq.append(x)
    return uniq


def matches(zi, spec):
    """Does the ZoneInfo reproduce the model's points?"""
    from .ctx import ls_to_naive, u_to_dt, _secs
    try:
        for l, o0, o1 in spec.get("l", ()):
            if MIN_LS <= l <= MAX_LS:
                n = ls_to_naive(l).replace(tzinfo=zi)
                if (_secs(n.utcoffset()), _secs(n.replace(fold=1).utcoffset())) != (o0, o1):
                    return False
        for u, o, f in spec.get("u", ()):
            if MIN_LS <= u <= MAX_LS:
                d = u_to_dt(u).astimezone(zi)
                if (_secs(d.utcoffset()), d.fold) != (o, f):
                    return False
    except (ValueError, OverflowError):
        return False
    return True


def realise(spec, n=6, rng=None):
    """[(first_off, trans)] whose zoneinfo behaviour equals the model."""
    import io
    ok = []
    for first, trans in candidates(spec, n, rng):
        try:
            zi = zoneinfo.ZoneInfo.from_file(io.BytesIO(tzif(trans, first)), key="Vfy/T")
        except Exception:
            continue
        if matches(zi, spec):
            ok.append((first, trans))
    return ok


def install(tmp, zones):
    """zones: {name: (first, trans)} -> {name: key}; extends the tz path."""
    out = {}
    os.makedirs(os.path.join(tmp, "Vfy"), exist_ok=True)
    for name, (first, trans) in zones.items():
        key = "Vfy/" + "".join(ch if ch.isalnum() else "_" for ch in name)
        with open(os.path.join(tmp, key), "wb") as f:
            f.write(tzif([tuple(t) for t in trans], first))
        out[name] = key
    path = [tmp] + [p for p in zoneinfo.TZPATH if p != tmp]
    zoneinfo.reset_tzpath(to=path)
    zoneinfo.ZoneInfo.clear_cache()
    return out
