"""AST rewriting of the code under test (regenerated from /repo's source on every run)."""
import ast
import importlib.abc
import importlib.util
import sys
import os

PURE_CALLS = {"len", "isinstance", "getattr", "hasattr", "int", "str", "bool", "max", "min", "abs", "hex", "tuple",
              "type"}
NO_REWRITE = {"super", "locals", "globals", "vars", "eval", "exec", "cast", "TypeVar"}


def pure(n):
    """Syntactically side-effect free and scope-neutral (may be evaluated speculatively inside a lambda)."""
    for s in ast.walk(n):
        if isinstance(s, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda)):
            return False
        if isinstance(s, ast.Call):
            if not (isinstance(s.func, ast.Name) and s.func.id in PURE_CALLS):
                if not (isinstance(s.func, ast.Attribute) and s.func.attr in
                        ("lower", "upper", "startswith", "endswith", "isdigit", "strip", "get", "isalpha", "isalnum")):
                    return False
    return True


def scope_neutral(n):
    for s in ast.walk(n):
        if isinstance(s, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
            return False
    return True


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _sx(attr):
    return ast.Attribute(value=_name("_sx"), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_sx(attr), args=list(args), keywords=[])


def _lam(body):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body
    )


def pure_function(node, in_enum=False):
    """No effects beyond local variables; calls only to known pure functions (and reports in enum conversions)."""
    n = 0
    allowed = set()
    for s in node.body:
        for x in ast.walk(s):
            n += 1
            if in_enum and isinstance(x, ast.Try):
                continue
            if in_enum and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) == \
                    "warnings.warn":
                allowed.update(id(y) for y in ast.walk(x))
                continue
            if id(x) in allowed:
                continue
            if in_enum and isinstance(x, ast.Call) and ast.unparse(x.func) == "cls":
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Try, ast.With, ast.Global, ast.Nonlocal, ast.Import,
                              ast.ImportFrom, ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.Delete, ast.While)):
                return False
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(x, ast.Call):
                if any(isinstance(p, ast.Raise) and any(y is x for y in ast.walk(p)) for p in ast.walk(s)):
                    continue
                if not pure(x):
                    return False
            if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.JoinedStr)) and not \
                    any(isinstance(p, (ast.Raise, ast.For)) and any(y is x for y in ast.walk(p)) for p in ast.walk(s)):
                return False
    return n < 400 and any(isinstance(x, (ast.If, ast.IfExp, ast.BoolOp)) for s in node.body for x in ast.walk(s))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0  # > 0 inside a function body

    # -- scopes
    def _func(self, node):
        summ = isinstance(node, ast.FunctionDef) and pure_function(node, getattr(self, 'in_enum', False))
        self.depth += 1
        known = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        outer, self.loads = getattr(self, "loads", None), {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.loads[x.id] = self.loads.get(x.id, 0) + 1
        node.body = self.block(node.body, known)
        self.depth -= 1
        self.loads = outer
        if summ:
            node.decorator_list = node.decorator_list + [_sx("summarize")]
        return node

    def block(self, stmts, known):
        """Visit a statement list, tracking names that are certainly bound (for if-assignment merging)."""
        out = []
        known = set(known)
        for s in stmts:
            if isinstance(s, ast.If) and self.depth:
                m = self.merge_if(s, known) or self.guard_if(s, known)
                if m is not None:
                    out.extend(m)
                    continue
                s.test = self.visit(s.test)
                s.body = self.block(s.body, known)
                s.orelse = self.block(s.orelse, known)
                out.append(s)
                continue
            if isinstance(s, (ast.For, ast.While, ast.With)):
                for f in ("iter", "test", "target"):
                    if hasattr(s, f):
                        setattr(s, f, self.visit(getattr(s, f)))
                if isinstance(s, ast.For) and self.depth:
                    s.iter = ast.copy_location(_call("iter_lift", s.iter), s.iter)
                if isinstance(s, ast.With):
                    s.items = [self.visit(i) for i in s.items]
                s.body = self.block(s.body, known)
                if hasattr(s, "orelse"):
                    s.orelse = self.block(s.orelse, known)
                out.append(s)
                continue
            if isinstance(s, ast.Try):
                s.body = self.block(s.body, known)
                for h in s.handlers:
                    h.body = self.block(h.body, known)
                s.orelse = self.block(s.orelse, known)
                s.finalbody = self.block(s.finalbody, known)
                out.append(s)
                continue
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            known.add(n.id)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                known.add(s.target.id)
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def merge_if(self, s, known):
        """`if c: x = A [else: x = B]` with pure right-hand sides -> conditional values (one path)."""
        def assigns(body):
            r = []
            for b in body:
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and pure(b.value):
                    r.append((b.targets[0], b.value))
                else:
                    return None
            return r

        a = assigns(s.body)
        if not a or len(a) > 4 or not scope_neutral(s.test):
            return None
        b = assigns(s.orelse) if s.orelse else []
        if b is None or len(b) > 4:
            return None
        reads = {ast.dump(n) for n in ast.walk(s.test) if isinstance(n, ast.Attribute)}
        keys = {}
        for t, v in a + b:
            if isinstance(t, ast.Name):
                keys[t.id] = t
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.attr not in ("text", "tail"):
                keys[ast.unparse(t)] = t
            else:
                return None
        names_a = [ast.unparse(t) for t, _ in a]
        names_b = [ast.unparse(t) for t, _ in b]
        if len(set(names_a)) != len(names_a) or len(set(names_b)) != len(names_b):
            return None
        for k, t in keys.items():
            if k in names_a and k in names_b:
                continue
            if isinstance(t, ast.Name):
                if k not in known:
                    return None
            else:
                ld = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
                if ast.dump(ld) not in reads:
                    return None
        self.tmp = getattr(self, "tmp", 0) + 1
        c = f"_sx_c{self.tmp}"
        import copy

        test = self.visit(copy.deepcopy(s.test))
        load = {}
        for k, t in keys.items():
            x = copy.deepcopy(t)
            x.ctx = ast.Load()
            load[k] = x

        # new values are computed from the old state first, then all stored
        merged = []
        da = dict(zip(names_a, [v for _, v in a]))
        db = dict(zip(names_b, [v for _, v in b]))
        order = list(dict.fromkeys(names_a + names_b))
        # sequential dependencies between the assignments of a branch defeat simultaneous evaluation
        for d in (da, db):
            seen = []
            for k, v in d.items():
                src = {ast.unparse(n) for n in ast.walk(v) if isinstance(n, (ast.Name, ast.Attribute))}
                if src & set(seen):
                    return None
                seen.append(k)
        tmps = []
        for i, k in enumerate(order):
            va = self.visit(copy.deepcopy(da[k])) if k in da else copy.deepcopy(load[k])
            vb = self.visit(copy.deepcopy(db[k])) if k in db else copy.deepcopy(load[k])
            tn = f"{c}_{i}"
            tmps.append(tn)
            merged.append(ast.Assign(targets=[ast.Name(id=tn, ctx=ast.Store())],
                                     value=_call("ifexp", _name(c), _lam(va), _lam(vb))))
        for tn, k in zip(tmps, order):
            merged.append(ast.Assign(targets=[copy.deepcopy(keys[k])], value=_name(tn)))
        plain = ast.If(test=_name(c), body=self.block(copy.deepcopy(s.body), known),
                       orelse=self.block(copy.deepcopy(s.orelse), known))
        st = [
            ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=_call("truth", test)),
            ast.If(test=_call("is_sym", _name(c)), body=merged, orelse=[plain]),
        ]
        for x in st:
            ast.copy_location(x, s)
        if all(k in names_a and k in names_b for k in keys):
            known.update(k for k, t in keys.items() if isinstance(t, ast.Name))
        return st

    def guard_if(self, s, known):
        """`if c: warnings.warn(...)` -> the warning is recorded under the condition (one path)."""
        import copy

        def report_only(body):
            for b in body:
                if isinstance(b, ast.Pass):
                    continue
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                        and b.value.func.attr == "warn" and scope_neutral(b):
                    found.append(b)
                    continue
                if isinstance(b, ast.If) and scope_neutral(b.test) and report_only(b.body) and report_only(b.orelse):
                    continue
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and pure(b.value):
                    assigned.add(b.targets[0].id)
                    continue
                return False
            return True

        found, assigned = [], set()
        if not scope_neutral(s.test) or not report_only(s.body) or not report_only(s.orelse) or not found:
            return None
        for n in assigned:
            inside = sum(1 for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == n)
            if inside != self.loads.get(n, 0):
                return None
        self.tmp = getattr(self, "tmp", 0) + 1
        c = f"_sx_g{self.tmp}"
        st = [ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())],
                         value=_call("truth", self.visit(copy.deepcopy(s.test))))]
        arms = []
        for tag, body in (("a", s.body), ("b", s.orelse)):
            if not body:
                arms.append(ast.Constant(value=None))
                continue
            fn = ast.parse(f"def {c}{tag}():\n    pass").body[0]
            fn.body = self.block(copy.deepcopy(body), known)
            st.append(fn)
            arms.append(_name(c + tag))
        plain = ast.If(test=_name(c), body=self.block(copy.deepcopy(s.body), known),
                       orelse=self.block(copy.deepcopy(s.orelse), known))
        st.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_call("guard", _name(c), *arms)), body=[plain], orelse=[]))
        for x in st:
            ast.copy_location(x, s)
        return st

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        outer, self.in_enum = getattr(self, "in_enum", False), any("Enum" in ast.unparse(b) for b in node.bases)
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        self.in_enum = outer
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def generic_visit(self, node):
        return super().generic_visit(node)

    # -- expressions
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    def visit_BoolOp(self, node):
        if not self.depth:
            return self.generic_visit(node)
        neutral = all(scope_neutral(v) for v in node.values)
        purev = [pure(v) for v in node.values]
        vals = [self.visit(v) for v in node.values]
        if not neutral or not all(purev[1:]):
            # keep native short circuit semantics (truth tests fork)
            node.values = vals
            return node
        f = "and_" if isinstance(node.op, ast.And) else "or_"
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = _call(f, _lam(v), _lam(r))
        return ast.copy_location(r, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if len(node.ops) == 1:
            op = node.ops[0]
            m = {ast.Is: "is_", ast.IsNot: "isnot", ast.In: "in_", ast.NotIn: "notin"}.get(type(op))
            if m:
                return ast.copy_location(_call(m, node.left, node.comparators[0]), node)
            return node
        if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            parts = []
            left = node.left
            for o, c in zip(node.ops, node.comparators):
                if not isinstance(c, (ast.Name, ast.Constant, ast.Attribute)):
                    return node
                parts.append(self.visit_Compare(ast.copy_location(ast.Compare(left=left, ops=[o], comparators=[c]), node)))
                left = c
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
        return node

    def visit_IfExp(self, node):
        p = pure(node.body) and pure(node.orelse)
        self.generic_visit(node)
        if not self.depth or not p:
            return node
        return ast.copy_location(_call("ifexp", node.test, _lam(node.body), _lam(node.orelse)), node)

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant(value="") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(
                    ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load())
                )
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        s = {ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}.get(type(node.op))
        if s:
            return ast.copy_location(_call("setop", ast.Constant(value=s), node.left, node.right), node)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NO_REWRITE:
            return self.generic_visit(node)
        if not self.depth:
            return self.generic_visit(node)
        func = node.func
        f = self.visit(func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(func=_sx("call"), args=[f] + args, keywords=kws), node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.depth and node.attr in ("text", "tail", "tag") and isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getattr_lift", node.value, ast.Constant(value=node.attr)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(_call("getitem", node.value, node.slice), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or not node.keys or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [
            ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)
        ]
        return ast.copy_location(_call("mkdict", ast.List(elts=pairs, ctx=ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        return ast.copy_location(_call("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        return ast.copy_location(_call("mkset", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        return ast.copy_location(
            _call("mkdict", ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                         generators=node.generators)), node)

    # -- statements
    def visit_Assign(self, node):
        if not self.depth:
            return self.generic_visit(node)
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                v = self.visit(t.value)
                s = self.visit(t.slice)
                return ast.copy_location(ast.Expr(value=_call("setitem", v, s, node.value)), node)
            if isinstance(t, ast.Attribute) and t.attr in ("text", "tail"):
                return ast.copy_location(
                    ast.Expr(value=_call("setattr_lower", self.visit(t.value), ast.Constant(value=t.attr), node.value)),
                    node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        op = {ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}.get(type(node.op))
        if op and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign(targets=[node.target], value=_call("setop", ast.Constant(value=op), _name(node.target.id),
                                                              node.value)), node)
        return node

    def visit_Delete(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(
            node.targets[0].slice, ast.Slice
        ):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(value=_call("delitem", self.visit(t.value), self.visit(t.slice))), node)
        return self.generic_visit(node)

    def _iter(self, node):
        self.generic_visit(node)
        if self.depth:
            node.iter = ast.copy_location(_call("iter_lift", node.iter), node.iter)
        return node

    visit_For = _iter
    visit_comprehension = _iter

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for case in node.cases:
            if case.guard is not None:
                case.guard = self.visit(case.guard)
            case.body = [self.visit(s) for s in case.body]
        if self.depth:
            node.subject = _call("resolve", node.subject)
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    # class pattern expressions and annotations must stay untouched: only bodies are rewritten
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, functions):
        self.path = path
        self.functions = functions

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import runtime

        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__["_sx"] = runtime
        module.__file__ = self.path
        exec(transform(src, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            file, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            file, pkg = base + ".py", False
        else:
            return None
        self.loaded.append(name)
        spec = importlib.util.spec_from_loader(name, Loader(file, None), origin=file, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f
