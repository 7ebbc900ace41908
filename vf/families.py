"""Named inputs: constructors of codes with small parameters, as (label, thunk) pairs."""
import networkx as nx
import numpy as np

from . import env  # noqa: F401
from . import gen, la
from qldpc import abstract, codes, objects


def named_quantum():
    C = codes
    out = {
        "FiveQubitCode": C.FiveQubitCode, "SteaneCode": C.SteaneCode,
        "IcebergCode(1)": lambda: C.IcebergCode(1), "IcebergCode(2)": lambda: C.IcebergCode(2),
        "IcebergCode(3,alt)": lambda: C.IcebergCode(3, alternative_logicals=True),
        "IcebergCode(4)": lambda: C.IcebergCode(4), "C4Code": C.C4Code, "C6Code": C.C6Code,
    }
    for r, c in [(2, None), (3, None), (4, None), (5, None), (2, 3), (3, 2), (3, 4), (2, 5), (5, 3), (6, 4)]:
        for rot in (True, False):
            if not rot and (c or r) * r > 12:
                continue
            out[f"SurfaceCode({r},{c},rotated={rot})"] = lambda r=r, c=c, rot=rot: C.SurfaceCode(r, c, rotated=rot)
    for q in (3, 4, 5):
        for rot in (True, False):
            out[f"SurfaceCode(3,2,rotated={rot},field={q})"] = lambda q=q, rot=rot: C.SurfaceCode(3, 2, rotated=rot, field=q)
    for r, c in [(2, None), (4, None), (2, 4), (4, 2), (6, 2), (6, 4)]:
        out[f"ToricCode({r},{c})"] = lambda r=r, c=c: C.ToricCode(r, c)
    for r, c in [(2, None), (3, None), (2, 3), (3, 2), (3, 4)]:
        out[f"ToricCode({r},{c},rotated=False)"] = lambda r=r, c=c: C.ToricCode(r, c, rotated=False)
    for q in (3, 4):
        out[f"ToricCode(2,4,field={q})"] = lambda q=q: C.ToricCode(2, 4, field=q)
        out[f"ToricCode(2,3,rotated=False,field={q})"] = lambda q=q: C.ToricCode(2, 3, rotated=False, field=q)
    for args in [(2, 2), (3, 2), (2, 3), (2, 4)]:
        for per in (False, True):
            if args == (2, 4) and per:
                continue
            out[f"GeneralizedSurfaceCode({args},periodic={per})"] = lambda a=args, per=per: C.GeneralizedSurfaceCode(*a, periodic=per)
    out["GeneralizedSurfaceCode(2,3,field=3)"] = lambda: C.GeneralizedSurfaceCode(2, 3, field=3)
    out["GeneralizedSurfaceCode(2,2,periodic,field=3)"] = lambda: C.GeneralizedSurfaceCode(2, 2, periodic=True, field=3)
    for r, c in [(2, None), (3, None), (2, 3), (3, 2), (4, 3)]:
        out[f"BaconShorCode({r},{c})"] = lambda r=r, c=c: C.BaconShorCode(r, c)
    for q in (3, 4):
        out[f"BaconShorCode(2,3,field={q})"] = lambda q=q: C.BaconShorCode(2, 3, field=q)
    out["SHYPSCode(2)"] = lambda: C.SHYPSCode(2)
    out["SHYPSCode(2,3)"] = lambda: C.SHYPSCode(2, 3)
    out["SHYPSCode(3,2)"] = lambda: C.SHYPSCode(3, 2)
    out["SHYPSCode(2,set_logicals=False)"] = lambda: C.SHYPSCode(2, set_logicals=False)
    return out


def polys():
    """(orders, poly_a, poly_b) of small quasi-cyclic codes."""
    import sympy
    x, y, z = sympy.symbols("x y z")
    return [
        ((3, 3), 1 + x + y, 1 + x + y), ((6, 3), x**3 + y + y**2, y**3 + x + x**2),
        ((4, 2), 1 + x * y, x**2 + y), ((2, 2), 1 + x, 1 + y), ((3, 2), 1 + x, 1 + y), ((1, 5), x + y, 1 + y**2),
        ((5, 1), 1 + x, y + x**2), ((4, 4), 1 + x + x**-1 * y, 1 + y + x * y**-2),
        ((3, 4), x**2 * y**3 + x, 1 + y + x**-1), ((2, 6), y + y**2 + x, 1 + x * y**3 + y**5),
        ((3, 5), x**-1 + y**-2, x**-2 * y**-1 + 1), ((5, 3), 1 + x, 1 + x * y + y**2),
    ]


def abelian_groups():
    return {
        "C1": abstract.CyclicGroup(1), "C2": abstract.CyclicGroup(2), "C3": abstract.CyclicGroup(3), "C4": abstract.CyclicGroup(4),
        "C2xC2": abstract.CyclicGroup(2) * abstract.CyclicGroup(2), "C2xC3": abstract.CyclicGroup(2) * abstract.CyclicGroup(3),
        "C5": abstract.CyclicGroup(5),
    }


def nonabelian_groups():
    return {"D3": abstract.DihedralGroup(3), "Q8": abstract.QuaternionGroup(), "A4": abstract.AlternatingGroup(4),
            "S3": abstract.SymmetricGroup(3), "D4": abstract.DihedralGroup(4)}


def with_field(group, q):
    """The same group, with lifts over GF(q)."""
    return abstract.Group(*group.generators, field=q) if q != 2 else group


def random_member(rng, group, members=None, terms=None, q=2):
    members = members or list(group.generate())
    t = rng.randrange(0, 4) if terms is None else terms
    return abstract.RingMember(group, *[(rng.randrange(1, q), rng.choice(members)) for _ in range(t)])


def random_protograph(rng, group, r, c, q=2, zeros=0.2):
    members = list(group.generate())
    M = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            M[i, j] = abstract.RingMember(group) if rng.random() < zeros else random_member(rng, group, members, rng.randrange(1, 3), q)
    return abstract.RingArray(M)
