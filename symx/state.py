"""The state the package keeps between runs (module globals, class attributes, defaults, closures, memo tables).

Every path and every replay starts from one recorded state, so that what one path leaves behind cannot reach another;
running a harness concretely first and recording the state afterwards shows whether results depend on earlier runs.
"""
import collections
import enum
import functools
import sys
import types
import weakref

PACKAGE = "svdsuite"
_LRU = functools._lru_cache_wrapper
_SEQ = (list, collections.deque)
_ATOM = (str, int, float, bool, bytes, type(None), complex, range)


def _mine(name):
    return name == PACKAGE or (name or "").startswith(PACKAGE + ".")


def _hidden(k):
    return k.startswith("__") and k.endswith("__")


def load():
    """Import every module of the package, so that the first snapshot knows all of them."""
    import importlib
    import pkgutil

    root = importlib.import_module(PACKAGE)
    for m in pkgutil.walk_packages(root.__path__, PACKAGE + ".", onerror=lambda n: None):
        try:
            importlib.import_module(m.name)
        except Exception:  # optional dependencies
            pass


class State:
    """A snapshot: restore() brings everything back to it, diff() tells whether something changed since."""

    def __init__(self):
        self.dicts, self.seqs, self.sets, self.attrs, self.cells, self.lrus = [], [], [], [], [], []
        self.keep = {}
        todo = [m for n, m in list(sys.modules.items()) if _mine(n) and m is not None]
        while todo:
            self._visit(todo.pop(), todo)

    def _visit(self, o, todo):
        t = type(o)
        if t in _ATOM or id(o) in self.keep:
            return
        if isinstance(o, types.ModuleType):
            if not _mine(o.__name__):
                return
            self.keep[id(o)] = o
            self._bind(o, {k: v for k, v in vars(o).items() if not _hidden(k)}, todo)
            return
        if t is _LRU:
            self.keep[id(o)] = o
            self.lrus.append(o)
            todo.append(o.__wrapped__)
            return
        if isinstance(o, dict):
            self.keep[id(o)] = o
            self.dicts.append((o, list(o.items())))
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, _SEQ):
            self.keep[id(o)] = o
            self.seqs.append((o, list(o)))
            todo.extend(o)
        elif isinstance(o, set):
            self.keep[id(o)] = o
            self.sets.append((o, list(o)))
            todo.extend(o)
        elif isinstance(o, (tuple, frozenset)):
            self.keep[id(o)] = o
            todo.extend(o)
        elif isinstance(o, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            self.keep[id(o)] = o
            todo.append(o.data)
        elif t is types.FunctionType:
            if not _mine(o.__module__):
                return
            self.keep[id(o)] = o
            todo.extend(o.__defaults__ or ())
            todo.extend((o.__kwdefaults__ or {}).values())
            if o.__dict__:
                self._bind(o, dict(o.__dict__), todo)
            for c in o.__closure__ or ():
                if id(c) in self.keep:
                    continue
                self.keep[id(c)] = c
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.cells.append((c, v))
                todo.append(v)
        elif t in (staticmethod, classmethod):
            todo.append(o.__func__)
        elif t is property:
            todo.extend(x for x in (o.fget, o.fset, o.fdel) if x is not None)
        elif t is types.MethodType:
            todo.extend((o.__func__, o.__self__))
        elif t is functools.partial:
            todo.extend((o.func, o.args, o.keywords))
        elif isinstance(o, type):
            if not _mine(o.__module__):
                return
            self.keep[id(o)] = o
            d = {k: v for k, v in vars(o).items() if not _hidden(k)}
            if issubclass(o, enum.Enum):
                todo.extend(v for v in d.values() if type(v) in (types.FunctionType, staticmethod, classmethod, property))
                return
            self._bind(o, d, todo)
        elif _mine(getattr(t, "__module__", None)) and not isinstance(o, enum.Enum):
            self.keep[id(o)] = o
            d = dict(getattr(o, "__dict__", ()))
            for c in t.__mro__:
                for s in c.__dict__.get("__slots__", ()):
                    if isinstance(s, str) and s not in ("__dict__", "__weakref__") and hasattr(o, s):
                        d[s] = getattr(o, s)
            self._bind(o, d, todo)

    def _bind(self, o, d, todo):
        self.attrs.append((o, d))
        todo.extend(d.values())

    @staticmethod
    def _now(o):
        if isinstance(o, (types.ModuleType, type)):
            return {k: v for k, v in vars(o).items() if not _hidden(k)}
        return dict(getattr(o, "__dict__", ()))

    def diff(self):
        """has anything changed since the snapshot?"""
        for o, items in self.dicts:
            if len(o) != len(items) or any(a is not c or b is not d for (a, b), (c, d) in zip(o.items(), items)):
                return True
        for o, items in self.seqs + self.sets:
            if len(o) != len(items) or any(a is not b for a, b in zip(o, items)):
                return True
        for c, v in self.cells:
            if c.cell_contents is not v:
                return True
        for o, d in self.attrs:
            now = self._now(o)
            for k, v in d.items():
                if k in now and now[k] is not v or k not in now and getattr(o, k, None) is not v:
                    return True
            if any(k not in d for k in now):
                return True
        return False

    def restore(self):
        for o, items in self.dicts:
            if len(o) != len(items) or any(a is not c or b is not d for (a, b), (c, d) in zip(o.items(), items)):
                dict.clear(o)
                for k, v in items:
                    dict.__setitem__(o, k, v)
        for o, items in self.seqs:
            if len(o) != len(items) or any(a is not b for a, b in zip(o, items)):
                o.clear()
                o.extend(items)
        for o, items in self.sets:
            if len(o) != len(items) or any(a is not b for a, b in zip(o, items)):
                o.clear()
                o.update(items)
        for c, v in self.cells:
            if c.cell_contents is not v:
                c.cell_contents = v
        for o, d in self.attrs:
            now = self._now(o)
            for k, v in d.items():
                if now.get(k, self) is not v and getattr(o, k, self) is not v or k in now and now[k] is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        object.__setattr__(o, k, v)
            for k in now:
                if k not in d:
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass

    def clear_memo(self):
        for f in self.lrus:
            f.cache_clear()
