"""The state a package keeps outside its objects: taken once, put back before every path."""
import collections
import enum
import functools
import types

CONTAINERS = (list, dict, set, collections.deque)


class Snapshot:
    def __init__(self, modules, package="mau"):
        self.package = package
        self.seen = set()
        self.containers = []     # (object, copy)
        self.owners = []         # (class or instance, its attributes)
        self.caches = []
        todo = []
        for m in modules:
            g = vars(m)
            self.owners.append((m, dict(g), len(g)))
            todo.extend(v for k, v in g.items() if not k.startswith("_X_") and k != "__builtins__")
        while todo:
            self._visit(todo.pop(), todo)

    def _own(self, t):
        mod = getattr(t, "__module__", None) or ""
        return isinstance(mod, str) and (mod == self.package or mod.startswith(self.package + "."))

    def _visit(self, x, todo):
        t = type(x)
        if t in (str, int, bool, float, type(None), types.ModuleType) or id(x) in self.seen:
            return
        if isinstance(x, CONTAINERS):
            self.seen.add(id(x))
            if isinstance(x, dict):
                self.containers.append((x, dict(x)))
                todo.extend(x.values())
            else:
                self.containers.append((x, list(x)))
                todo.extend(x)
        elif t in (tuple, frozenset):
            todo.extend(x)
        elif isinstance(x, functools._lru_cache_wrapper):
            self.seen.add(id(x))
            self.caches.append(x)
            todo.append(x.__wrapped__)
        elif isinstance(x, types.FunctionType):
            if not self._own(x):
                return
            self.seen.add(id(x))
            todo.extend(x.__defaults__ or ())
            todo.extend((x.__kwdefaults__ or {}).values())
            for c in x.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
            if x.__dict__:
                self.owners.append((x, dict(x.__dict__), len(x.__dict__)))
                todo.extend(x.__dict__.values())
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo.extend(f for f in (x.fget, x.fset, x.fdel) if f is not None)
        elif isinstance(x, enum.EnumMeta):
            return
        elif isinstance(x, type):
            if not self._own(x):
                return
            self.seen.add(id(x))
            d = {k: v for k, v in vars(x).items() if k not in ("__dict__", "__weakref__", "_abc_impl")}
            self.owners.append((x, d, len(vars(x))))
            todo.extend(d.values())
        elif self._own(t) and not isinstance(x, enum.Enum) and hasattr(x, "__dict__"):
            self.seen.add(id(x))
            self.owners.append((x, dict(vars(x)), len(vars(x))))
            todo.extend(vars(x).values())
        elif t is functools.partial:
            todo.extend((x.func, *x.args, *x.keywords.values()))

    def restore(self):
        for x, was in self.containers:
            if isinstance(x, dict):
                if len(x) == len(was) and all(a is b for a, b in zip(x.values(), was.values())) and \
                        all(a is b for a, b in zip(x, was)):
                    continue
                dict.clear(x)
                for k, v in was.items():
                    dict.__setitem__(x, k, v)
            elif isinstance(x, set):
                if len(x) != len(was) or any(a is not b for a, b in zip(x, was)):
                    set.clear(x)
                    set.update(x, was)
            elif len(x) != len(was) or any(a is not b for a, b in zip(x, was)):
                x.clear()
                x.extend(was)
        for o, was, size in self.owners:
            d = vars(o)
            extra = len(d) != size
            for k, v in was.items():
                if d.get(k, self) is not v:
                    setattr(o, k, v)
            if extra:
                for k in [k for k in d if k not in was]:
                    if k in ("__dict__", "__weakref__", "_abc_impl"):
                        continue
                    delattr(o, k)
        for c in self.caches:
            c.cache_clear()
