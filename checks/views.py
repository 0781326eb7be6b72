"""How specifications look at abstract values: rows, stages, collections of rows, blocks, notations, masks."""
from core import *
import core


def deref(v):
    while isinstance(v, N) and v.tag == "ref":
        v = v.args[0]
    return v


def dty(ty):
    while ty[0] in ("ref", "ptr"):
        ty = ty[2]
    return LY.unbox(ty)


def self_key(f):
    """(name of the self type, is it a reference) of a method"""
    if f.get("impl_self") is None:
        return None
    t = dty(core.P.ty(f["impl_self"]))
    return t[1].split("::")[-1] if t[0] == "adt" else t[1] if len(t) > 1 and isinstance(t[1], str) else None


def api(owner, method, trait=None, exported=True):
    """functions named Owner::method (trait: last segment of the implemented trait)"""
    out = []
    for f in core.P.fns.values():
        if f["kind"] not in ("Fn", "AssocFn") or not f.get("body") or f["method"] != method and f["name"].split("::")[-1] != method:
            continue
        if exported and not f["exported"]:
            continue
        tr = f["trait"]
        trn = tr.split("<")[0].split("::")[-1] if tr else None
        if trn != trait:
            continue
        if owner is None:
            if f.get("impl_self") is None:
                out.append(f)
        elif self_key(f) == owner:
            if owner == "Iter" and not LY.is_ty(dty(core.P.ty(f["impl_self"])), "Iter"):
                continue
            out.append(f)
    return out


def stage_of(v, ty):
    """the stage (a poly) of a staged value, or None"""
    v, ty = deref(v), dty(ty)
    if v.tag == "ite":
        a, b = stage_of(v.args[1], ty), stage_of(v.args[2], ty)
        return ite(v.args[0], a, b) if a is not None and b is not None else None
    if LY.is_ty(ty, "Stage"):
        return v if v.tag == "poly" else None
    if LY.is_row_ty(ty) or LY.is_ty(ty, "Mask"):
        return slen(v) if v.tag == "seq" else None
    if LY.is_ty(ty, "PnBlock"):
        if v.tag != "seq":
            return None
        x = seq_at(v, ZERO, None)
        return stage_of(x, elem_ty(ty)) if x is not None else None
    if LY.is_ty(ty, "RowAccumulator") and erased(ty):
        return slen(v) if v.tag == "seq" else None
    if v.tag != "agg":
        return None
    fs = adt_fields(ty)
    if fs is None:
        return None
    if LY.is_ty(ty, "PlaceNot"):
        return INV.pn_parts(v, ty)[1]
    if LY.is_ty(ty, "RowAccumulator"):
        k = [i for i, (n, t) in enumerate(fs) if LY.is_row_ty(t)]
        return stage_of(v.args[1][k[0]], fs[k[0]][1]) if k else None
    if LY.is_ty(ty, "SameStageVec") or LY.is_ty(ty, "Iter"):
        return v.args[1][LY.ssv_fields(ty)[1]]
    for pref in ("Stage", "SameStageVec", "Row", "RowBuf", "AnnotBlock"):
        k = [i for i, (n, t) in enumerate(fs) if LY.is_ty(dty(t), pref)]
        if len(k) >= 1:
            return stage_of(v.args[1][k[0]], fs[k[0]][1])
    return None


def acc_row(v, ty):
    """the accumulated row of a RowAccumulator: the first row field"""
    v = deref(v)
    if erased(ty):
        return v
    fs = adt_fields(ty)
    k = [i for i, (n, t) in enumerate(fs) if LY.is_row_ty(t)]
    return v.args[1][k[0]]


def at(row, i, F=None):
    x = seq_at(deref(row), i, decider(F, 2) if F is not None else None)
    return x


class Rows:
    """a collection seen as a sequence of rows: n rows of stage st, row q's bell at p is cell(q, p)"""

    def __init__(self, v, ty):
        v, ty = deref(v), dty(ty)
        self.v, self.ty = v, ty
        b, s = LY.ssv_fields(ty)
        self.bells, self.st = deref(v.args[1][b]), v.args[1][s]

    def total(self):
        return slen(self.bells)


def block_parts(v, ty):
    """(rows value, rows type, annotations value, annotations type)"""
    v, ty = deref(v), dty(ty)
    fs = adt_fields(ty)
    rf, af = LY.block_fields(ty)
    return v.args[1][rf], fs[rf][1], v.args[1][af], fs[af][1]
