"""Contracts of zkp_u256's additive layer (each proved in U01/U03), used at
call sites so that callers are checked against them."""
from . import expr as X
from .exe import Unsupported

def word(v):
    while len(v) != 4:
        v = v[0]
    return X.concat(list(v))
def limbs(w):
    return (tuple(X.trunc(X.lshr(w, X.c(64 * i, 256)), 64) for i in range(4)),)
def deref(ex, st, a):
    n = 0
    while hasattr(a, "cell"):
        a = ex.load(st, a)
        n += 1
        if n > 4:
            raise Unsupported("pointer chain")
    return word(a)
def _assign(f):
    def g(ex, st, inst, args):
        ex.store(st, args[0], limbs(f(deref(ex, st, args[0]), deref(ex, st, args[1]))))
        return ()
    return g
def _value(f):
    def g(ex, st, inst, args):
        return limbs(f(deref(ex, st, args[0]), deref(ex, st, args[1])))
    return g
def _rel(f):
    def g(ex, st, inst, args):
        return f(deref(ex, st, args[0]), deref(ex, st, args[1]))
    return g
lt = X.ult
def _neg(ex, st, inst, args):
    return limbs(X.sub(X.c(0, 256), deref(ex, st, args[0])))
REL = {"lt": lt, "ge": lambda a, b: X.bnot(lt(a, b)), "gt": lambda a, b: lt(b, a), "le": lambda a, b: X.bnot(lt(b, a)),
       "eq": X.eq, "ne": lambda a, b: X.bnot(X.eq(a, b))}
ADDITIVE = [
    (r"impl std::ops::SubAssign(<&zkp_u256::U256>)? for zkp_u256::U256>::sub_assign$", _assign(X.sub)),
    (r"impl std::ops::AddAssign(<&zkp_u256::U256>)? for zkp_u256::U256>::add_assign$", _assign(X.add)),
    (r"impl std::ops::Sub(<&?zkp_u256::U256>)? for &?zkp_u256::U256>::sub$", _value(X.sub)),
    (r"impl std::ops::Add(<&?zkp_u256::U256>)? for &?zkp_u256::U256>::add$", _value(X.add)),
]
for _n, _f in (("add", X.add), ("sub", X.sub)):
    _t = r"(impl \S*%sInline<&zkp_u256::U256> for zkp_u256::U256|<zkp_u256::U256 as \S*%sInline<&zkp_u256::U256>)" % (_n.title(), _n.title())
    ADDITIVE.append((_t + r">::%s(_inline)?$" % _n, _value(_f)))
    ADDITIVE.append((_t + r">::%s_assign(_inline)?$" % _n, _assign(_f)))
for _n, _f in REL.items():
    ADDITIVE.append((r"<zkp_u256::U256 as std::cmp::Partial(Ord|Eq)>::%s$" % _n, _rel(_f)))
