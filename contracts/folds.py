"""Callee contracts used modularly: a call to one of these functions is replaced by its
contract once the called sub-program has been verified against it (dv/jx.py, fold)."""
from dv import jx
from dv import terms as T
from . import spec as S


def _tw(x, m, h):
    return S.tw_explicit((x - m) / h)


jx.FOLDS["_tw_cuml_kern"] = (3, _tw, lambda x, m, h: T.fn("TW", (x - m) / h))
