"""Cheaper versions of the z3 Python functions the engine spends its time in (same results; one default context)."""
import sys

Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3_PATH not in sys.path:
    sys.path.append(Z3_PATH)
import z3  # noqa: E402
from z3 import z3 as Z  # noqa: E402
from z3 import z3core as C  # noqa: E402

CTX = z3.main_ctx()
REF = CTX.ref()


def raw(f):
    return f.__defaults__[0].f


_bool = raw(C.Z3_get_bool_value)
_and, _or, _not = raw(C.Z3_mk_and), raw(C.Z3_mk_or), raw(C.Z3_mk_not)
_inc, _dec = raw(C.Z3_inc_ref), raw(C.Z3_dec_ref)
_simplify = raw(C.Z3_simplify)
BoolRef, Ast = z3.BoolRef, Z.Ast


def is_true(a):
    return _bool(REF, a.ast) == 1


def is_false(a):
    return _bool(REF, a.ast) == -1


def _ast_init(self, ast, ctx=None):
    self.ast = ast
    self.ctx = CTX
    _inc(REF, ast)


def _ast_del(self):
    if _dec is not None and CTX.ctx is not None and self.ast is not None:
        _dec(REF, self.ast)
        self.ast = None


def _junction(mk, slow):
    def f(*args):
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            args = args[0]
        n = len(args)
        for a in args:
            if type(a) is not BoolRef:
                return slow(*args)
        return BoolRef(mk(REF, n, (Ast * n)(*[a.ast for a in args])))

    return f


_slow_not, _slow_simplify = z3.Not, z3.simplify


def Not(a, ctx=None):
    if type(a) is BoolRef:
        return BoolRef(_not(REF, a.ast))
    return _slow_not(a)


def simplify(a, *args, **kw):
    if args or kw or type(a) not in (BoolRef, z3.ArithRef):
        return _slow_simplify(a, *args, **kw)
    r = _simplify(REF, a.ast)
    if type(a) is BoolRef:
        return BoolRef(r)
    return Z._to_expr_ref(r, CTX)


def install():
    if z3.is_true is is_true:
        return
    Z.AstRef.__init__, Z.AstRef.__del__ = _ast_init, _ast_del
    new = {"is_true": is_true, "is_false": is_false, "And": _junction(_and, z3.And), "Or": _junction(_or, z3.Or),
           "Not": Not, "simplify": simplify}
    for k, f in new.items():
        setattr(z3, k, f)
        setattr(Z, k, f)


install()
