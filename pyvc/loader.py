"""Load modules of the program under verification from source into module values."""
import ast
import os
from .terms import *
from .values import *
from . import lib


class Loader:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.sources = {}

    def path_of(self, name):
        base = os.path.join(self.root, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return p
        return None

    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "os.path":
            return self.import_module("os").ns["path"]
        path = self.path_of(name) if name.split(".")[0] == "zielen" else None
        if path is None:
            f = lib.MODULES.get(name)
            m = f(self) if f else ModV(name, {})
            self.mods[name] = m
            return m
        m = ModV(name, {})
        self.mods[name] = m
        src = open(path, encoding="utf-8").read()
        self.sources[name] = path
        tree = ast.parse(src, path)
        from .interp import Interp
        I = Interp(self)
        env = Env(m)
        env.vars = m.ns
        for st in tree.body:
            try:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        top = a.name.split(".")[0]
                        self.import_module(a.name)
                        m.ns[a.asname or top] = self.import_module(a.name if a.asname else top)
                elif isinstance(st, ast.ImportFrom):
                    src_m = self.import_module(st.module)
                    for a in st.names:
                        sub = self.path_of(st.module + "." + a.name) if st.module.startswith("zielen") else None
                        if sub and a.name not in src_m.ns:
                            m.ns[a.asname or a.name] = self.import_module(st.module + "." + a.name)
                        else:
                            m.ns[a.asname or a.name] = src_m.ns.get(a.name, Opaque(st.module + "." + a.name))
                else:
                    I.stmt(st, env)
            except (Unsupported, PyRaise) as e:
                names = [t.id for t in getattr(st, "targets", []) if isinstance(t, ast.Name)]
                if hasattr(st, "name"):
                    names.append(st.name)
                for n in names:
                    m.ns[n] = Opaque("%s.%s (%s)" % (name, n, e))
        return m

    def func(self, qual):
        """Find a function or class by qualified name, e.g. zielen.utils.get_path_ancestry."""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if self.path_of(mn):
                v = self.import_module(mn)
                for p in parts[i:]:
                    if isinstance(v, ModV):
                        v = v.ns.get(p)
                    elif isinstance(v, ClassV):
                        v = v.lookup(p)
                    else:
                        v = None
                    if v is None:
                        return None
                return v
        return None
