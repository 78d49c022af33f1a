"""Name, attribute and call-signature resolution over the syntax trees of the package and its shipped clients.

Flow-insensitive typing (annotations and constructor calls) decides which class an expression has; whatever cannot be
typed is left alone, so a report always names a use that cannot succeed."""
import ast
import builtins
import os

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__annotations__", "__class__", "__module__", "__qualname__", "__debug__"}
KEEP = {"staticmethod", "classmethod", "property", "abstractmethod", "override", "final", "overload", "no_grad", "export", "script", "inference_mode", "lru_cache", "cache", "wraps", "contextmanager", "ignore", "unused"}
TRANSPARENT = {"staticmethod", "classmethod", "property", "abstractmethod", "override", "final", "no_grad", "export", "script", "inference_mode", "lru_cache", "cache", "ignore", "unused"}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.vars, self.fields, self.stores = {}, set(), [], {}
        self.dynamic = False
        self.bases = []
        self.enum = None
        self.dataclass = any(dname(d).split(".")[-1] in ("dataclass",) for d in node.decorator_list)
        self.props, self.setters = set(), set()


class Func:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        decs = [dname(d).split(".")[-1] for d in getattr(node, "decorator_list", [])]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs or "setter" in decs or "cached_property" in decs
        self.opaque = any(d not in TRANSPARENT and d not in ("setter", "getter", "deleter", "cached_property") for d in decs)


def dname(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return dname(d.value) + "." + d.attr
    return d.id if isinstance(d, ast.Name) else "?"


class Mod:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.top, self.imports, self.classes, self.funcs, self.star = set(), {}, {}, {}, []
        self.values = {}  # module-level name -> expression (single assignment)
        self.pkg = path.endswith("__init__.py")


def bound_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


class World:
    def __init__(self, root, package="drdmannturb", clients=("examples",), site=()):
        self.root, self.package, self.site = root, package, site
        self.mods, self.viol, self.count, self.seen = {}, [], {}, set()
        self.ext = {}
        self.loose = set()  # attribute names stored on objects of unknown type
        self.funcs_seen = []
        for base in (package,) + tuple(clients):
            for d, _, fs in os.walk(os.path.join(root, base)):
                for f in sorted(fs):
                    if f.endswith(".py"):
                        self.add(os.path.join(d, f))
        for m in self.mods.values():
            self.collect(m)
        for m in self.mods.values():
            for c in m.classes.values():
                self.members(c)

    # ---- building
    def add(self, p):
        rel = os.path.relpath(p, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        self.mods[name] = Mod(name, p, rel, ast.parse(open(p, encoding="utf8").read(), p))

    def absname(self, m, node):
        if not node.level:
            return node.module or ""
        parts = m.name.split(".")
        parts = parts[: len(parts) - node.level + (1 if m.pkg else 0)]
        return ".".join(parts + ([node.module] if node.module else []))

    def collect(self, m):
        for n in self.module_stmts(m.tree.body):
            if isinstance(n, ast.Import):
                for a in n.names:
                    b = a.asname or a.name.split(".")[0]
                    m.top.add(b)
                    m.imports[b] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                src = self.absname(m, n)
                for a in n.names:
                    if a.name == "*":
                        m.star.append(src)
                        continue
                    b = a.asname or a.name
                    m.top.add(b)
                    m.imports[b] = ("from", src, a.name)
            elif isinstance(n, ast.ClassDef):
                m.top.add(n.name)
                m.classes[n.name] = Cls(m, n)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.top.add(n.name)
                m.funcs[n.name] = Func(m, n)
            else:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    nm = n.targets[0].id
                    m.values[nm] = None if nm in m.values else n.value
                m.top |= bound_names(n) if not isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.With)) else self.header_bound(n)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.top |= set(n.names)

    def header_bound(self, n):
        out = set()
        for f in ("target", "items", "test", "iter"):
            v = getattr(n, f, None)
            for x in v if isinstance(v, list) else [v]:
                if x is not None:
                    out |= bound_names(x)
        for h in getattr(n, "handlers", []):
            if h.name:
                out.add(h.name)
        return out

    def module_stmts(self, body):
        for n in body:
            yield n
            if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for f in ("body", "orelse", "finalbody"):
                    yield from self.module_stmts(getattr(n, f, []))
                for h in getattr(n, "handlers", []):
                    yield from self.module_stmts(h.body)
            elif isinstance(n, ast.Match):
                for c in n.cases:
                    yield from self.module_stmts(c.body)

    def members(self, c):
        n = c.node
        for s in self.module_stmts(n.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(c.mod, s, c)
                decs = [dname(d).split(".")[-1] for d in s.decorator_list]
                if "setter" in decs:
                    c.setters.add(s.name)
                else:
                    c.methods[s.name] = f
                if f.prop:
                    c.props.add(s.name)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.vars.add(s.target.id)
                if "ClassVar" not in ast.dump(s.annotation):
                    c.fields.append((s.target.id, s.value is not None, s))
            elif isinstance(s, ast.ClassDef):
                c.vars.add(s.name)
            elif not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                c.vars |= bound_names(s)
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            c.dynamic = True
        for f in ast.walk(n):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                pass
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
                if f.attr in ("__dict__", "__class__"):
                    c.dynamic = c.dynamic or f.attr == "__dict__"
                if isinstance(f.ctx, ast.Store):
                    c.stores.setdefault(f.attr, [])
            if isinstance(f, ast.Call) and dname(f.func).split(".")[-1] in ("setattr", "vars", "register_buffer", "register_parameter", "add_module", "register_module", "__setattr__"):
                a = f.args[1] if dname(f.func) in ("setattr",) and len(f.args) > 1 else (f.args[0] if f.args else None)
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    c.stores.setdefault(a.value, [])
                else:
                    c.dynamic = True
        for f in ast.walk(n):
            if isinstance(f, ast.Assign):
                for t in f.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        c.stores.setdefault(t.attr, []).append(f.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                                c.stores.setdefault(x.attr, []).append(None)
            elif isinstance(f, ast.AnnAssign) and isinstance(f.target, ast.Attribute) and isinstance(f.target.value, ast.Name) and f.target.value.id == "self":
                c.stores.setdefault(f.target.attr, []).append(("ann", f.annotation, f.value))
            elif isinstance(f, (ast.AugAssign, ast.For, ast.With, ast.NamedExpr)):
                for x in ast.walk(f.target if hasattr(f, "target") else f.items[0] if f.items else f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        c.stores.setdefault(x.attr, []).append(None)
        for f in ast.walk(c.mod.tree):
            if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) and not (isinstance(f.value, ast.Name) and f.value.id == "self"):
                self.loose.add(f.attr)
            if isinstance(f, ast.Call) and dname(f.func) == "setattr" and len(f.args) > 1:
                if isinstance(f.args[1], ast.Constant):
                    self.loose.add(f.args[1].value)

    # ---- resolution
    def lookup(self, mname, name, depth=0):
        """-> ("class", Cls) | ("func", Func) | ("mod", name) | ("value", mod, name) | ("unknown",) | None (missing)"""
        if depth > 12:
            return ("unknown",)
        m = self.mods.get(mname)
        if m is None:
            return ("unknown",)
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.imports:
            return self.target(m.imports[name], depth + 1)
        if name in m.top:
            return ("value", m, name)
        if mname + "." + name in self.mods:
            return ("mod", mname + "." + name)
        for s in m.star:
            if s in self.mods:
                r = self.lookup(s, name, depth + 1)
                if r is not None:
                    return r
            else:
                return ("unknown",)
        if name in BUILTIN or "__getattr__" in m.funcs:
            return ("unknown",)
        return None

    def target(self, imp, depth=0):
        if imp[0] == "mod":
            return ("mod", imp[1]) if imp[1] in self.mods else ("ext", imp[1])
        _, src, nm = imp
        if src in self.mods:
            return self.lookup(src, nm, depth)
        if src.split(".")[0] == self.package:
            return None
        return ("ext", src + "." + nm)

    def resolve(self, m, e, env=None):
        """Static meaning of an expression used as a callee, base or annotation."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return ("unknown",)
        if isinstance(e, ast.Name):
            if env and e.id in env:
                return ("unknown",)
            if e.id in m.top or m.star:
                return self.lookup(m.name, e.id) or ("unknown",)
            return ("unknown",)
        if isinstance(e, ast.Attribute):
            r = self.resolve(m, e.value, env)
            if r[0] == "mod":
                return self.lookup(r[1], e.attr) or ("missing", r[1], e.attr)
            if r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
            if r[0] == "class":
                c = r[1]
                f = self.find(c, e.attr)
                if isinstance(f, Func):
                    return ("method", f, c, False)
        return ("unknown",)

    def mro(self, c, seen=()):
        """[Cls...] of the package, complete flag."""
        out, full = [c], True
        for b in c.node.bases:
            r = self.resolve(c.mod, b.value if isinstance(b, ast.Subscript) else b)
            if r[0] == "class" and r[1] not in seen:
                o, f = self.mro(r[1], seen + (c,))
                out += o
                full = full and f
            elif r[0] == "ext" and r[1] in ("abc.ABC", "typing.Protocol", "typing.Generic", "typing_extensions.Protocol") or dname(b) in ("object", "Protocol", "ABC", "Generic"):
                continue
            elif r[0] == "ext":
                e = self.external(r[1])
                if e is None:
                    full = False
                else:
                    out.append(e)
            else:
                full = False
        if c.node.keywords and any(k.arg == "metaclass" and dname(k.value).split(".")[-1] != "ABCMeta" for k in c.node.keywords):
            full = False
        return out, full

    def external(self, dotted):
        """Members of an external class, read from its installed source."""
        if dotted in self.ext:
            return self.ext[dotted]
        self.ext[dotted] = None
        alias = {"torch.nn.Module": "torch.nn.modules.module.Module", "pickle.Unpickler": None}
        d = alias.get(dotted, dotted)
        if d is None:
            return None
        mod, cl = d.rsplit(".", 1)
        for s in self.site:
            p = os.path.join(s, *mod.split(".")) + ".py"
            if not os.path.exists(p):
                p = os.path.join(s, *mod.split("."), "__init__.py")
            if os.path.exists(p):
                try:
                    t = ast.parse(open(p, encoding="utf8").read())
                except SyntaxError:
                    return None
                for n in t.body:
                    if isinstance(n, ast.ClassDef) and n.name == cl:
                        em = Mod(mod, p, p, ast.Module([n], []))
                        e = Cls(em, n)
                        keep = set(self.loose)
                        self.members(e)
                        self.loose = keep
                        e.dynamic = False
                        e.external = True
                        e.node = ast.ClassDef(name=cl, bases=[], keywords=[], body=n.body, decorator_list=[])
                        self.ext[dotted] = e
                        return e
        return None

    def find(self, c, name):
        for k in self.mro(c)[0]:
            if name in k.methods:
                return k.methods[name]
            if name in k.vars:
                return "var"
        return None

    def subclasses(self, c):
        return [k for m in self.mods.values() for k in m.classes.values() if k is not c and c in self.mro(k)[0]]

    def has_attr(self, c, name):
        """True / False / None (unknown)."""
        ks, full = self.mro(c)
        if any(k.dynamic for k in ks):
            return None
        if name.startswith("__") and name.endswith("__"):
            return None
        for k in ks:
            if name in k.methods or name in k.vars or name in k.stores or name in k.setters:
                return True
        for k in self.subclasses(c):
            if k.dynamic or name in k.methods or name in k.vars or name in k.stores:
                return None
        if name in self.loose:
            return None
        return False if full else None

    # ---- types
    def ann_class(self, m, a):
        if a is None:
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            cs = [self.ann_class(m, x) for x in (a.left, a.right) if not (isinstance(x, ast.Constant) and x.value is None)]
            return cs[0] if len(cs) == 1 else None
        if isinstance(a, ast.Subscript) and dname(a.value).split(".")[-1] == "Optional":
            return self.ann_class(m, a.slice)
        r = self.resolve(m, a)
        return r[1] if r[0] == "class" else None

    def type_of(self, ctx, e):
        m = ctx.mod
        if isinstance(e, ast.Name):
            return ctx.types.get(e.id)
        if isinstance(e, ast.Call):
            r = self.callee(ctx, e.func)
            return r[1] if r[0] == "class" else None
        if isinstance(e, ast.Attribute):
            b = self.type_of(ctx, e.value)
            if b is not None:
                return self.attr_type(b, e.attr)
        return None

    def attr_type(self, c, name, depth=0):
        got = set()
        for k in self.mro(c)[0]:
            if getattr(k, "external", False):
                continue
            if name in k.props or name in k.methods:
                return None
            for nm, _, s in k.fields:
                if nm == name and name not in k.stores:
                    t = self.ann_class(k.mod, s.annotation)
                    got.add(t)
            for v in k.stores.get(name, []):
                if v is None:
                    return None
                if isinstance(v, tuple):
                    got.add(self.ann_class(k.mod, v[1]))
                    continue
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                got.add(self.store_type(k, v))
        got = list(got)
        return got[0] if len(got) == 1 else None

    def store_type(self, k, v):
        if isinstance(v, ast.Call):
            r = self.resolve(k.mod, v.func)
            return r[1] if r[0] == "class" else None
        if isinstance(v, ast.Name):  # a parameter annotated with a class, rebound nowhere
            for f in k.methods.values():
                if any(x is v for x in ast.walk(f.node)):
                    c = Ctx(self, k.mod, f.node, k, f)
                    return c.types.get(v.id)
        return None

    # ---- calls
    def callee(self, ctx, f):
        if isinstance(f, ast.Name):
            if f.id in ctx.nested:
                return ("func", Func(ctx.mod, ctx.nested[f.id]))
            if f.id in ctx.local_names():
                return ("unknown",)
            return self.resolve(ctx.mod, f)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and ctx.cls is not None:
                ks, full = self.mro(ctx.cls)
                for k in ks[1:]:
                    if f.attr in k.methods:
                        return ("method", k.methods[f.attr], k, True) if not getattr(k, "external", False) else ("unknown",)
                return ("unknown",)
            t = self.type_of(ctx, f.value)
            if t is not None:
                g = self.find(t, f.attr)
                if isinstance(g, Func) and not g.prop and f.attr not in self.shadowed(t):
                    return ("method", g, t, True) if not getattr(g.cls, "external", False) else ("unknown",)
                return ("unknown",)
            if isinstance(f.value, ast.Name) and f.value.id in ctx.local_names():
                return ("unknown",)
            return self.resolve(ctx.mod, f)
        return ("unknown",)

    def shadowed(self, c):
        return set().union(*[set(k.stores) for k in self.mro(c)[0]])

    def signature(self, r):
        """-> (positional names, required set, all names, varargs, varkw, label) or None"""
        if r[0] == "func":
            f, skip = r[1], 0
        elif r[0] == "method":
            f = r[1]
            skip = 0 if f.static or (not r[3] and not f.classm) else 1
            subs = [k for k in self.subclasses(r[2]) if f.node.name in k.methods]
            if subs and r[3]:
                return None
        elif r[0] == "class":
            c = r[1]
            ks, full = self.mro(c)
            if "__new__" in c.methods or c.node.keywords:
                return None
            for k in ks:
                if "__init__" in k.methods:
                    if getattr(k, "external", False):
                        return None
                    f, skip = k.methods["__init__"], 1
                    break
                if k.dataclass:
                    return self.dc_signature(c)
            else:
                return None
            if any(dname(d).split(".")[-1] not in ("dataclass", "runtime_checkable", "final") for d in c.node.decorator_list):
                return None
        else:
            return None
        if f.opaque or f.prop:
            return None
        a = f.node.args
        posn = [x.arg for x in a.posonlyargs + a.args][skip:]
        nd = len(a.defaults)
        req = set(posn[: max(0, len(posn) - nd)])
        kwo = [x.arg for x in a.kwonlyargs]
        req |= {x for x, d in zip(kwo, a.kw_defaults) if d is None}
        kw = a.kwarg
        if kw is not None and isinstance(f.node, ast.FunctionDef):
            body = f.node.body
            stub = all(isinstance(b, (ast.Pass, ast.Raise)) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) for b in body)
            dyn = any(isinstance(q, ast.Call) and dname(q.func) in ("locals", "vars", "eval", "exec") for b in body for q in ast.walk(b))
            if not stub and not dyn and not any(isinstance(q, ast.Name) and q.id == kw.arg for b in body for q in ast.walk(b)):
                kw = "discarded"
        return posn, req, set(posn[len(a.posonlyargs) - skip if a.posonlyargs else 0:]) | set(kwo), a.vararg, kw, getattr(f.node, "name", "?")

    def dc_signature(self, c):
        ks, full = self.mro(c)
        if not full or any("InitVar" in ast.dump(s.annotation) or "KW_ONLY" in ast.dump(s.annotation) for k in ks for _, _, s in k.fields):
            return None
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and d.keywords and any(k.arg in ("init", "kw_only") for k in d.keywords):
                return None
        fs = {}
        for k in reversed(ks):
            for nm, has, s in k.fields:
                if isinstance(s.value, ast.Call) and dname(s.value.func).split(".")[-1] == "field":
                    kw = {q.arg: q.value for q in s.value.keywords}
                    if "init" in kw and getattr(kw["init"], "value", True) is False:
                        continue
                    has = "default" in kw or "default_factory" in kw
                fs[nm] = has
        return list(fs), {x for x, h in fs.items() if not h}, set(fs), None, None, c.name

    # ---- checking
    def report(self, rule, m, node, scope, text):
        self.viol.append((rule, "%s:%d in %s" % (m.rel, getattr(node, "lineno", 0), scope), text))

    def n(self, rule):
        self.count[rule] = self.count.get(rule, 0) + 1

    def check(self):
        for m in self.mods.values():
            self.check_imports(m)
            Ctx(self, m, m.tree, None, None).check()


class Ctx:
    """One scope (module, function or lambda) being checked."""

    def __init__(self, w, mod, node, cls, func, outer=None):
        self.w, self.mod, self.node, self.cls, self.func, self.outer = w, mod, node, cls, func, outer
        self.types, self.nested, self._locals = {}, {}, None
        self.body = node.body if isinstance(node, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef)) else [ast.Expr(node.body)] if isinstance(node, ast.Lambda) else []
        self.infer()

    def local_names(self):
        if self._locals is None:
            s = set(self.outer.local_names()) if self.outer is not None and not isinstance(self.outer.node, ast.Module) else set()
            if not isinstance(self.node, ast.Module):
                s |= self.own_names()
            self._locals = s
        return self._locals

    def params(self):
        a = getattr(self.node, "args", None)
        if a is None:
            return []
        return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]

    def scope_nodes(self):
        """Nodes of this scope, not those of nested functions, classes or comprehension scopes (but their headers)."""
        todo = list(self.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
                continue
            if isinstance(n, ast.Lambda):
                todo += n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
                continue
            if isinstance(n, ast.ClassDef):
                todo += n.decorator_list + n.bases + [k.value for k in n.keywords]
                continue
            todo += list(ast.iter_child_nodes(n))

    def own_names(self):
        out = {a.arg for a in self.params()}
        g = set()
        for n in self.scope_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.Global):
                g |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                out.add(n.rest)
        return out - g

    def infer(self):
        if self.outer is not None:
            self.types.update({k: v for k, v in self.outer.types.items()})
        own = {}
        if isinstance(self.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            ps = self.node.args.posonlyargs + self.node.args.args
            for i, a in enumerate(self.params()):
                t = self.w.ann_class(self.mod, a.annotation)
                if i == 0 and ps and a is ps[0] and self.cls is not None and self.func is not None and not self.func.static and not self.func.classm:
                    t = self.cls
                own[a.arg] = [t]
        for n in self.scope_nodes():
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not isinstance(self.node, ast.Module):
                self.nested[n.name] = n
                own.setdefault(n.name, []).append(None)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                own.setdefault(n.id, [])
        stores = {}
        for n in self.scope_nodes():
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                stores.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                stores.setdefault(n.target.id, []).append(("ann", n.annotation))
        counts = {}
        for n in self.scope_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                counts[n.id] = counts.get(n.id, 0) + 1
        for nm in own:
            ts = list(own[nm])
            vs = stores.get(nm, [])
            if counts.get(nm, 0) != len(vs):
                ts.append(None)
            for v in vs:
                if isinstance(v, tuple):
                    ts.append(self.w.ann_class(self.mod, v[1]))
                elif isinstance(v, ast.Constant) and v.value is None:
                    continue
                elif isinstance(v, ast.Call):
                    r = ("unknown",) if isinstance(v.func, ast.Name) and v.func.id in own else self.w.resolve(self.mod, v.func)
                    ts.append(r[1] if r[0] == "class" else None)
                else:
                    ts.append(None)
            if ts and all(t is not None and t is ts[0] for t in ts):
                self.types[nm] = ts[0]
            else:
                self.types.pop(nm, None)
            if nm in self.nested and counts.get(nm, 0):
                self.nested.pop(nm)
        if isinstance(self.node, ast.Module):
            pass
        # an isinstance test narrows a name: leave such names untyped
        for n in self.scope_nodes():
            if isinstance(n, ast.Call) and dname(n.func) in ("isinstance", "cast", "hasattr", "getattr") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id != "self":
                self.types.pop(n.args[0].id, None)

    def label(self):
        if isinstance(self.node, ast.Module):
            return "<module>"
        return ((self.cls.name + ".") if self.cls else "") + getattr(self.node, "name", "<lambda>")

    def guarded(self):
        """Attribute names some test of this scope looks for (hasattr / getattr / try-except AttributeError)."""
        out = set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Call) and dname(n.func) in ("hasattr", "getattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
        return out

    def check(self):
        w, m = self.w, self.mod
        if not isinstance(self.node, ast.Module):
            w.funcs_seen.append((m.rel, self.label()))
        caught = set()
        for t in ast.walk(self.node):
            if isinstance(t, ast.Try) and any(h.type is None or any(x in ast.dump(h.type) for x in ("AttributeError", "NameError", "TypeError", "'Exception'", "ImportError")) for h in t.handlers):
                for s in t.body:
                    caught |= {id(x) for x in ast.walk(s)}
        guard = self.guarded()
        outer_guard = self.outer
        while outer_guard is not None:
            guard |= outer_guard.guarded()
            outer_guard = outer_guard.outer
        self.names(caught)
        for n in self.scope_nodes():
            if id(n) in caught:
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attr(n, guard)
            elif isinstance(n, ast.Call):
                self.call(n)
            elif isinstance(n, ast.Assign):
                self.unpack(n)
        for n in self.scope_nodes():
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                Ctx(w, m, n, self.cls if not isinstance(self.node, ast.Module) else None, None, self).check()
            elif isinstance(n, ast.ClassDef):
                c = m.classes.get(n.name)
                if c is not None and c.node is n:
                    for s in w.module_stmts(n.body):
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            Ctx(w, m, s, c, Func(m, s, c), self if not isinstance(self.node, ast.Module) else None).check()

    # names
    def names(self, caught):
        w, m = self.w, self.mod
        ext_star = any(s not in w.mods for s in m.star)
        if ext_star:
            return
        own = set() if isinstance(self.node, ast.Module) else self.own_names()
        enc = self.local_names()
        for n in self.scope_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                w.n("every name is bound")
                if n.id in enc or n.id in m.top or n.id in BUILTIN or id(n) in caught:
                    continue
                if w.lookup(m.name, n.id) is not None:
                    continue
                if isinstance(self.node, ast.Module) and n.id in self.own_names():
                    continue
                w.report("every name is bound", m, n, self.label(), "name %r is bound nowhere" % n.id)
        if not isinstance(self.node, ast.Module) and not isinstance(self.node, ast.Lambda):
            Flow(self, own, caught).run()

    def attr(self, n, guard):
        w = self.w
        base = n.value
        if isinstance(base, ast.Name) and base.id not in self.local_names() and base.id in self.mod.top or isinstance(base, ast.Attribute):
            r = w.resolve(self.mod, n, self.local_names())
            if r[0] == "missing":
                w.n("module attributes exist")
                w.report("module attributes exist", self.mod, n, self.label(), "module %s has no %r" % (r[1], r[2]))
                return
            r = w.resolve(self.mod, base, self.local_names())
            if r[0] == "mod":
                w.n("module attributes exist")
            if r[0] == "value" and r[1].values.get(r[2]) is not None:
                mem = enum_members(r[1].values[r[2]])
                if mem is not None and not n.attr.startswith("_"):
                    w.n("enumeration members exist")
                    if n.attr not in mem:
                        w.report("enumeration members exist", self.mod, n, self.label(), "%s has no member %r" % (r[2], n.attr))
            if r[0] == "class":
                c = r[1]
                w.n("attributes exist")
                if w.has_attr(c, n.attr) is False and n.attr not in guard and n.attr not in ("mro",):
                    w.report("attributes exist", self.mod, n, self.label(), "class %s has no %r" % (c.name, n.attr))
                return
        t = w.type_of(self, base)
        if t is not None:
            w.n("attributes exist")
            if n.attr not in guard and w.has_attr(t, n.attr) is False:
                w.report("attributes exist", self.mod, n, self.label(), "%s objects have no attribute %r" % (t.name, n.attr))

    def call(self, n):
        w = self.w
        r = w.callee(self, n.func)
        sg = w.signature(r)
        if sg is None:
            return
        w.n("calls match signatures")
        posn, req, names, va, kw, label = sg
        if r[0] == "class":
            label = r[1].name
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        np_ = len([a for a in n.args if not isinstance(a, ast.Starred)])
        if not va and np_ > len(posn):
            w.report("calls match signatures", self.mod, n, self.label(), "%s takes %d positional arguments, %d given" % (label, len(posn), np_))
            return
        for k in n.keywords:
            if k.arg is not None and k.arg not in names and not kw:
                w.report("calls match signatures", self.mod, n, self.label(), "%s has no parameter %r" % (label, k.arg))
                return
            if k.arg is not None and k.arg not in names and kw == "discarded":
                w.report("calls match signatures", self.mod, n, self.label(), "%s discards the argument %r" % (label, k.arg))
                return
            if k.arg is not None and not star and k.arg in posn[:np_]:
                w.report("calls match signatures", self.mod, n, self.label(), "%s gets %r twice" % (label, k.arg))
                return
        if not star and not dstar:
            miss = req - set(posn[:np_]) - {k.arg for k in n.keywords}
            if miss:
                w.report("calls match signatures", self.mod, n, self.label(), "%s is called without %s" % (label, ", ".join(sorted(miss))))

    def unpack(self, n):
        w = self.w
        if not (len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call)):
            return
        if any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
            return
        r = w.callee(self, n.value.func)
        if r[0] not in ("func", "method") or r[1].opaque or r[1].prop:
            return
        if r[0] == "method" and [k for k in w.subclasses(r[2]) if r[1].node.name in k.methods]:
            return
        f = r[1].node
        if isinstance(f, (ast.AsyncFunctionDef, ast.Lambda)):
            return
        c = Ctx(w, r[1].mod, f, r[1].cls, r[1])
        sizes = set()
        for x in c.scope_nodes():
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return
            if isinstance(x, ast.Return):
                if not isinstance(x.value, ast.Tuple) or any(isinstance(y, ast.Starred) for y in x.value.elts):
                    return
                sizes.add(len(x.value.elts))
        if len(sizes) == 1:
            w.n("unpackings match results")
            k = sizes.pop()
            if k != len(n.targets[0].elts):
                w.report("unpackings match results", self.mod, n, self.label(), "%s returns %d values, %d expected" % (f.name, k, len(n.targets[0].elts)))


def enum_members(e):
    if isinstance(e, ast.Call) and dname(e.func).split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") and len(e.args) > 1:
        a = e.args[1]
        if isinstance(a, (ast.List, ast.Tuple)):
            out = set()
            for x in a.elts:
                if isinstance(x, ast.Tuple) and x.elts:
                    x = x.elts[0]
                if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
                    return None
                out.add(x.value)
            return out
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return set(a.value.replace(",", " ").split())
        if isinstance(a, ast.Dict) and all(isinstance(k, ast.Constant) for k in a.keys):
            return {k.value for k in a.keys}
    return None


class Flow:
    """Locals read where no assignment can have happened on any path."""

    def __init__(self, ctx, own, caught):
        self.ctx, self.caught = ctx, caught
        self.own = own
        self.skip = set()
        for n in ctx.scope_nodes():
            if isinstance(n, ast.Nonlocal):
                self.skip |= set(n.names)

    def run(self):
        self.block(list(self.ctx.body), {a.arg for a in self.ctx.params()})

    def use(self, e, s):
        """Loads of expression e under the set s of possibly bound names; adds walrus targets."""
        if e is None:
            return s
        for n in self.loads(e):
            if isinstance(n, ast.NamedExpr):
                s = s | bound_names(n.target)
        for n in self.loads(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in self.own and n.id not in s and n.id not in self.skip and id(n) not in self.caught:
                    self.ctx.w.report("every name is bound", self.ctx.mod, n, self.ctx.label(), "local %r is read before any assignment" % n.id)
        return s

    def loads(self, e):
        todo = [e]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.Lambda,)):
                todo += n.args.defaults
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                todo.append(n.generators[0].iter)
                continue
            todo += list(ast.iter_child_nodes(n))

    def store(self, t, s):
        self.use_targets(t, s)
        return s | bound_names(t)

    def use_targets(self, t, s):
        for x in ast.walk(t):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                self.use(x.value, s)
                if isinstance(x, ast.Subscript):
                    self.use(x.slice, s)

    def block(self, body, s):
        """-> possibly bound names after the block, or None when it cannot be left normally."""
        for n in body:
            s = self.stmt(n, s)
            if s is None:
                return None
        return s

    def join(self, *xs):
        xs = [x for x in xs if x is not None]
        return set().union(*xs) if xs else None

    def every(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        return out

    def stmt(self, n, s):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults:
                self.use(d, s)
            return s | {n.name}
        if isinstance(n, ast.ClassDef):
            return s | {n.name}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return s | {(a.asname or a.name).split(".")[0] for a in n.names}
        if isinstance(n, ast.Assign):
            s = self.use(n.value, s)
            for t in n.targets:
                s = self.store(t, s)
            return s
        if isinstance(n, ast.AugAssign):
            s = self.use(n.value, s)
            if isinstance(n.target, ast.Name):
                self.use(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), s)
            return self.store(n.target, s)
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                s = self.use(n.value, s)
                return self.store(n.target, s)
            return s
        if isinstance(n, (ast.Return, ast.Raise)):
            for f in ("value", "exc", "cause"):
                self.use(getattr(n, f, None), s)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return s  # keep: the names reach the loop exit or head
        if isinstance(n, ast.If):
            s = self.use(n.test, s)
            return self.join(self.block(n.body, set(s)), self.block(n.orelse, set(s)))
        if isinstance(n, (ast.For, ast.AsyncFor)):
            s = self.use(n.iter, s)
            s = s | self.every(n.body)
            s = self.store(n.target, s)
            a = self.block(n.body, set(s))
            b = self.block(n.orelse, set(s))
            return self.join(s, a, b)
        if isinstance(n, ast.While):
            s = s | self.every(n.body)
            s = self.use(n.test, s)
            a = self.block(n.body, set(s))
            b = self.block(n.orelse, set(s))
            return self.join(s, a, b)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                s = self.use(i.context_expr, s)
                if i.optional_vars is not None:
                    s = self.store(i.optional_vars, s)
            r = self.block(n.body, set(s))
            return r if r is not None else None
        if isinstance(n, ast.Try):
            a = self.block(n.body, set(s))
            mid = s | self.every(n.body)
            outs = [self.block(n.orelse, set(a)) if a is not None else None]
            for h in n.handlers:
                outs.append(self.block(h.body, set(mid) | ({h.name} if h.name else set())))
            r = self.join(*outs)
            if n.finalbody:
                f = self.block(n.finalbody, set(self.join(mid, *outs) or mid))
                if f is None:
                    return None
                return self.join(r, f) if r is not None else None
            return r
        if isinstance(n, ast.Delete):
            for t in n.targets:
                self.use_targets(t, s)
                if isinstance(t, ast.Name):
                    s = s - {t.id}
            return s
        if isinstance(n, ast.Match):
            s = self.use(n.subject, s)
            outs = [set(s)]
            for c in n.cases:
                b = set(s) | {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                outs.append(self.block(c.body, b))
            return self.join(*outs)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                s = self.use(x, s)
        return s


def check_imports(self, m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            src = self.absname(m, n)
            if src.split(".")[0] != self.package:
                continue
            if src not in self.mods:
                if not os.path.isdir(os.path.join(self.root, *src.split("."))):
                    self.n("imports resolve")
                    self.report("imports resolve", m, n, "<module>", "there is no module %s" % src)
                continue
            for a in n.names:
                if a.name == "*":
                    continue
                self.n("imports resolve")
                if self.lookup(src, a.name) is None:
                    self.report("imports resolve", m, n, "<module>", "%s does not define %r" % (src, a.name))
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == self.package:
                    self.n("imports resolve")
                    if a.name not in self.mods:
                        self.report("imports resolve", m, n, "<module>", "there is no module %s" % a.name)
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
            for x in n.value.elts:
                if isinstance(x, ast.Constant):
                    self.n("exported names exist")
                    if self.lookup(m.name, x.value) is None:
                        self.report("exported names exist", m, x, "<module>", "__all__ lists %r, which is not defined" % x.value)


World.check_imports = check_imports
