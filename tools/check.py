#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

CHECKS = {}
VALS = ("tok", "u8", "box", "unit", "u32", "wide")


def check(pid, level="model_checking"):
    def d(f):
        CHECKS[pid] = (f, level)
        return f
    return d


@check("C01")
def c01(c):
    from types_ import check_numbering
    check_numbering(c, "bij")


@check("C02")
def c02(c):
    from derive_ import check_derive
    check_derive(c)


@check("C03")
def c03(c):
    from types_ import check_numbering
    from derive_ import check_order_derived
    check_numbering(c, "ord")
    check_order_derived(c)


@check("C04")
def c04(c):
    from values import check_values
    check_values(c, [], nrandom=8000 if c.thorough else 1200, sizes=range(0, 6 if c.thorough else 5))


@check("C05")
def c05(c):
    from maps import check_family, SPARSE
    check_family(c, SPARSE, ["dict"], range(0, 6 if c.thorough else 5), vals=VALS,
                 nrandom=6000 if c.thorough else 900, embeds=10 if c.thorough else 3, u16=6)


@check("C06")
def c06(c):
    from maps import check_family, SPARSE
    check_family(c, SPARSE, ["dict", "entry"], range(0, 6 if c.thorough else 5), vals=VALS,
                 nrandom=6000 if c.thorough else 900, embeds=10 if c.thorough else 3, u16=3)


@check("C07")
def c07(c):
    from maps import check_family, SPARSE
    check_family(c, SPARSE, ["iter"], range(0, 5 if c.thorough else 4), vals=VALS,
                 nrandom=6000 if c.thorough else 900, embeds=4 if c.thorough else 1)


@check("C08")
def c08(c):
    from maps import check_family, SPARSE
    check_family(c, SPARSE, ["drain", "retain"], range(0, 5 if c.thorough else 5), vals=VALS,
                 nrandom=6000 if c.thorough else 900, embeds=6 if c.thorough else 1)


@check("C09")
def c09(c):
    from maps import check_family, TOTAL
    check_family(c, TOTAL, ["dict"], range(0, 6 if c.thorough else 5), vals=VALS,
                 nrandom=4000 if c.thorough else 600, embeds=6 if c.thorough else 2)


@check("C10")
def c10(c):
    from maps import check_family, TOTAL
    check_family(c, TOTAL, ["iter", "bulk"], range(0, 5 if c.thorough else 4), vals=VALS,
                 nrandom=4000 if c.thorough else 600, embeds=2 if c.thorough else 0.3)
    check_family(c, TOTAL, ["bulk"], range(0, 4), handles="{1,2}", nrandom=0, embeds=0.5)


@check("C12")
def c12(c):
    from maps import check_family, SET
    check_family(c, SET, ["dict"], range(0, 5 if c.thorough else 4), handles="{1,2}",
                 nrandom=6000 if c.thorough else 900, embeds=4 if c.thorough else 1, u16=6)


@check("C13")
def c13(c):
    from maps import check_family, SET
    check_family(c, SET, ["iter"], range(0, 6 if c.thorough else 5),
                 nrandom=6000 if c.thorough else 900, embeds=8 if c.thorough else 2)


@check("C11")
def c11(c):
    from maps import check_family, SPARSE, TOTAL
    feat = ["dict", "drain", "retain", "entry", "clone", "iter", "fault"]
    check_family(c, SPARSE, feat, [0, 1, 2] + [3] * c.thorough, judge="drops", ledger=True, randfeat=feat + ["into"],
                 nrandom=5000 if c.thorough else 600, embeds=2 if c.thorough else 0.5, bigmax=70)
    feat = ["dict", "bulk", "clone", "iter", "fault"]
    check_family(c, TOTAL, feat, [0, 1, 2] + [3] * c.thorough, judge="drops", ledger=True, randfeat=feat + ["into"],
                 nrandom=3000 if c.thorough else 400, embeds=1 if c.thorough else 0.3, bigmax=70)
    check_family(c, SPARSE, ["clone", "into", "fault"], [0, 1, 2], handles="{1,2}", judge="drops", ledger=True, nrandom=0, embeds=0.2)
    check_family(c, TOTAL, ["bulk", "clone", "fault"], [0, 1, 2], handles="{1,2}", judge="drops", ledger=True, nrandom=0, embeds=0.2, bigmax=20)


@check("C14")
def c14(c):
    from atomic_ import check_register
    check_register(c)


@check("C15")
def c15(c):
    from atomic_ import check_ordering
    check_ordering(c)


@check("C16")
def c16(c):
    from limits_ import check_limits
    check_limits(c)


@check("C17")
def c17(c):
    from maps import check_family, SPARSE, TOTAL, SET
    from values import check_values
    h, t = "{1,2}", c.thorough
    # two objects side by side
    check_family(c, SPARSE, ["dict", "drain", "clone"], [0, 1, 2], h, focus=["clone", "iter", "drain"], nrandom=3000 if t else 300, vals=VALS,
                 embeds=2 if t else 0.5)
    check_family(c, TOTAL, ["dict", "clone"], [0, 1, 2, 3], h, focus=["clone", "iter", "bulk"], nrandom=3000 if t else 200, embeds=2 if t else 0.5, bigmax=130, vals=VALS)
    check_family(c, SET, ["dict", "clone"], [0, 1, 2] + [3] * t, h, focus=["clone", "iter"], nrandom=3000 if t else 300, embeds=2 if t else 1)
    # an iterator and its clone
    check_values(c, ["clone"], sizes=range(0, 4), nrandom=2000 if t else 200, embeds=0.5)
    check_family(c, SPARSE, ["drain", "clone", "iter"], [0, 1, 2] + [3] * t, nrandom=0, embeds=0.5)
    check_family(c, TOTAL, ["clone", "iter"], [0, 1, 2] + [3] * t, nrandom=0, embeds=0.2, bigmax=70)
    check_family(c, SET, ["clone", "iter"], [0, 1, 2, 3], nrandom=0, embeds=0.5)
    if t: # both at once
        check_family(c, SPARSE, ["clone", "iter"], [0, 1, 2], h, nrandom=0, embeds=0.1)


@check("C18")
def c18(c):
    from maps import check_family, SPARSE, TOTAL, SET
    from values import check_values
    from atomic_ import check_cell_debug
    check_cell_debug(c)
    check_values(c, ["dbg"], judge="dbg", nrandom=3000 if c.thorough else 500, sizes=range(0, 6), clone=False)
    n = 3000 if c.thorough else 300
    check_family(c, SPARSE, ["drain", "dbg", "iter"], range(0, 4), nrandom=n, focus=["dbg"], vals=VALS, embeds=2 if c.thorough else 0.5)
    check_family(c, TOTAL, ["dbg", "iter"], range(0, 4), nrandom=n, focus=["dbg"], vals=VALS, embeds=1 if c.thorough else 0.3, bigmax=130)
    check_family(c, SET, ["dbg", "iter"], range(0, 5), nrandom=n, focus=["dbg"], embeds=3 if c.thorough else 1)


@check("C19")
def c19(c):
    from hostile_ import check_hostile
    check_hostile(c)


@check("C20")
def c20(c):
    from mem_ import check_cost
    check_cost(c)


@check("C21")
def c21(c):
    from borrow_ import check_borrow
    check_borrow(c)


@check("C22")
def c22(c):
    from narrow_ import check_narrow
    check_narrow(c)


if __name__ == "__main__":
    pid = sys.argv[1]
    f, level = CHECKS[pid]
    sys.exit(vf.main(pid, f, level))
