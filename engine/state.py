"""The mutable state of the package: everything reachable from its modules that a call could change."""
import collections, enum, functools, types

SKIP = {"__builtins__", "__doc__", "__annotations__", "__dict__", "__weakref__", "__module__",
        "__qualname__", "__file__", "__spec__", "__loader__", "__cached__", "__path__"}



def native_key(k):
    if isinstance(k, tuple):
        return all(native_key(e) for e in k)
    return k is None or isinstance(k, (str, bytes, type, enum.Enum)) or type(k) in (int, bool, float)


class SymDict(dict):
    """A dict that starts empty (a memo): keys may be symbolic, and which entry a key finds is
    decided on the path."""
    same = None     # key equality, set by the loader

    def __init__(self, *a, **k):
        self.sym = []
        super().__init__()
        self.update(*a, **k)

    def _find(self, k):
        """("base", key) | ("sym", index) | None"""
        if native_key(k):
            if dict.__contains__(self, k):
                return "base", k
        else:
            if type(k).__hash__ is None:
                raise TypeError(f"unhashable type: '{type(k).__name__}'")
            for b in dict.keys(self):
                if SymDict.same(b, k):
                    return "base", b
        for i, (e, _) in enumerate(self.sym):
            if SymDict.same(e, k):
                return "sym", i
        return None

    def _at(self, w):
        return dict.__getitem__(self, w[1]) if w[0] == "base" else self.sym[w[1]][1]

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        w = self._find(k)
        if w is None:
            f = getattr(type(self), "__missing__", None)
            if f:
                return f(self, k)
            raise KeyError(k)
        return self._at(w)

    def get(self, k, d=None):
        w = self._find(k)
        return d if w is None else self._at(w)

    def __setitem__(self, k, v):
        w = self._find(k)
        if w is None:
            if native_key(k):
                dict.__setitem__(self, k, v)
            else:
                self.sym.append((k, v))
        elif w[0] == "base":
            dict.__setitem__(self, w[1], v)
        else:
            self.sym[w[1]] = self.sym[w[1]][0], v

    def setdefault(self, k, d=None):
        w = self._find(k)
        if w is None:
            self[k] = d
            return d
        return self._at(w)

    def pop(self, k, *d):
        w = self._find(k)
        if w is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._at(w)
        if w[0] == "base":
            dict.__delitem__(self, w[1])
        else:
            del self.sym[w[1]]
        return v

    def __delitem__(self, k):
        self.pop(k)

    def popitem(self):
        if self.sym:
            return self.sym.pop()
        return dict.popitem(self)

    def __len__(self):
        return dict.__len__(self) + len(self.sym)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        yield from dict.__iter__(self)
        for k, _ in list(self.sym):
            yield k

    def keys(self):
        return list(self)

    def values(self):
        return list(dict.values(self)) + [v for _, v in self.sym]

    def items(self):
        return list(dict.items(self)) + list(self.sym)

    def clear(self):
        dict.clear(self)
        self.sym = []

    def update(self, *a, **k):
        for x in a:
            for kk, v in (x.items() if hasattr(x, "items") else x):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        d = SymDict()
        dict.update(d, dict.items(self))
        d.sym = list(self.sym)
        return d


CONT = (SymDict, dict, list, set, collections.deque, collections.OrderedDict, collections.defaultdict)
_MISS = object()


def slots_of(C):
    return [a for b in C.__mro__ for a in _tuple(b.__dict__.get("__slots__", ()))
            if a not in ("__weakref__", "__dict__")]


def _tuple(s):
    return (s,) if isinstance(s, str) else tuple(s)


class State:
    def __init__(self, mods):
        self.mods = [m for m in mods if m is not None]
        names = {m.__name__ for m in self.mods}
        self.cells = []         # (holder kind, object, snapshot)
        self.caches = []
        seen = set()
        todo = [("mod", m) for m in self.mods]
        while todo:
            kind, o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if kind == "mod":
                d = {k: v for k, v in o.__dict__.items() if k not in SKIP}
                self.cells.append(("mod", o, d))
                kids = d.values()
            elif kind == "class":
                d = {k: v for k, v in o.__dict__.items() if k not in SKIP}
                self.cells.append(("class", o, d))
                kids = d.values()
            elif kind == "cont":
                self.cells.append(("cont", o, o.copy()))
                kids = list(o.values()) if isinstance(o, dict) else list(o)
            elif kind == "obj":
                d = {a: getattr(o, a) for a in slots_of(type(o)) if hasattr(o, a)}
                d.update(getattr(o, "__dict__", None) or {})
                self.cells.append(("obj", o, d))
                kids = d.values()
            else:
                kids = [o.__dict__, o.__defaults__, o.__kwdefaults__]
                for c in o.__closure__ or ():
                    try:
                        kids.append(c.cell_contents)
                    except ValueError:
                        pass
            for v in kids:
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                if isinstance(v, property):
                    todo += [("fn", f) for f in (v.fget, v.fset) if isinstance(f, types.FunctionType)]
                    continue
                if hasattr(type(v), "cache_clear"):
                    self.caches.append(v)
                    v = getattr(v, "__wrapped__", None)
                if isinstance(v, type):
                    if v.__module__ in names:
                        todo.append(("class", v))
                elif type(v) in CONT:
                    todo.append(("cont", v))
                elif isinstance(v, tuple):
                    todo += [("cont", x) for x in v if type(x) in CONT]
                elif isinstance(v, types.FunctionType):
                    if v.__module__ in names:
                        todo.append(("fn", v))
                elif type(v).__module__ in names:
                    todo.append(("obj", v))

    def _differs(self, kind, o, was):
        if kind == "cont":
            if len(o) != len(was):
                return True
            if isinstance(o, SymDict):
                return (any(dict.get(o, k, _MISS) is not v for k, v in dict.items(was))
                        or any(a is not b or x is not y for (a, x), (b, y) in zip(o.sym, was.sym)))
            if isinstance(o, dict):
                return any(o.get(k, _MISS) is not v for k, v in was.items())
            if isinstance(o, set):
                return o != was
            return any(a is not b for a, b in zip(o, was))
        if kind == "obj":
            d = {a: getattr(o, a) for a in slots_of(type(o)) if hasattr(o, a)}
            d.update(getattr(o, "__dict__", None) or {})
        else:
            d = o.__dict__
            if any(d.get(k, _MISS) is not v for k, v in was.items()):
                return True
            return any(k not in was and k not in SKIP for k in d) if len(d) != len(was) else False
        return len(d) != len(was) or any(d.get(k, _MISS) is not v for k, v in was.items())

    def changed(self):
        """What a call has written, or None."""
        for kind, o, was in self.cells:
            if self._differs(kind, o, was):
                return f"{kind} {getattr(o, '__name__', type(o).__name__)}"
        for c in self.caches:
            i = c.cache_info()
            if i.hits or i.misses or i.currsize:
                return f"cache of {getattr(c, '__name__', '?')}"
        return None

    def restore(self):
        for kind, o, was in self.cells:
            if not self._differs(kind, o, was):
                continue
            if kind == "cont":
                o.clear()
                o.update(was) if isinstance(o, (dict, set)) else o.extend(was)
            elif kind == "obj":
                for a in list(slots_of(type(o))) + list(getattr(o, "__dict__", ())):
                    if a in was:
                        object.__setattr__(o, a, was[a])
                    elif hasattr(o, a):
                        object.__delattr__(o, a)
            else:
                for k in [k for k in o.__dict__ if k not in was and k not in SKIP]:
                    delattr(o, k)
                for k, v in was.items():
                    if o.__dict__.get(k, _MISS) is not v:
                        setattr(o, k, v)
        for c in self.caches:
            c.cache_clear()


class SymCache:
    """functools.lru_cache under symbolic arguments: an earlier call's result is returned when the
    arguments are equal (decided on the path)."""

    def __init__(self, fn, eq):
        self.fn, self.eq, self.hits = fn, eq, 0
        self.entries = []
        functools.update_wrapper(self, fn)
        self.__wrapped__ = fn

    def __get__(self, o, t=None):
        return self if o is None else types.MethodType(self, o)

    def __call__(self, *a, **k):
        key = (*a, *(x for kv in sorted(k.items()) for x in kv))
        for e, n, r in self.entries:
            if n == (len(a), len(k)) and self.eq(key, e):
                self.hits += 1
                return r
        r = self.fn(*a, **k)
        self.entries.append((key, (len(a), len(k)), r))
        return r

    def cache_clear(self):
        self.entries, self.hits = [], 0

    def cache_info(self):
        return types.SimpleNamespace(hits=self.hits, misses=len(self.entries),
                                     currsize=len(self.entries))
