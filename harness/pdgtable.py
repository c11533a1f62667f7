"""Writes spec/pdg_table.json, the reference particle table the
specification uses (from the table shipped with mcpid, read directly):
/opt/venv/bin/python -m harness.pdgtable"""
import csv
import json
import pathlib
from decimal import Decimal
from fractions import Fraction

import mcpid.lookup

ROOT = pathlib.Path(__file__).resolve().parent.parent


def sci(s):
    """Decimal text as significand (9 digits) and exponent."""
    if not s:
        return [0, 9999]  # unknown
    d = Decimal(s)
    if d == 0:
        return [0, 0]
    sign = -1 if d < 0 else 1
    d = abs(d)
    e = d.adjusted()
    return [sign * int((d.scaleb(-e) * 10**8).to_integral_value()), e]


def giga(s):
    return sci(str(Decimal(s).scaleb(-3)) if s else s)


def twelfths(s):
    """Quantum number as twelfths, 9999 when unknown."""
    if s == "?":
        return 9999
    f = Fraction(s) if s else Fraction(0)
    assert (f * 12).denominator == 1
    return int(f * 12)


def main():
    path = pathlib.Path(mcpid.lookup.__file__).parent / "_mcpid.csv"
    lines = [l for l in open(path) if not l.startswith("#")]
    rows = []
    for r in csv.DictReader(lines):
        rows.append({
            "code": int(r["id"]), "name": r["name"], "quarks": r["quarks"], "latex": r["latex"],
            "charge": twelfths(r["charge"]), "i": twelfths(r["i"]), "g": twelfths(r["g"]),
            "p": twelfths(r["p"]), "c": twelfths(r["c"]),
            "mass": giga(r["mass"]), "massupper": giga(r["massupper"]), "masslower": giga(r["masslower"]),
            "width": giga(r["width"]), "widthupper": giga(r["widthupper"]), "widthlower": giga(r["widthlower"]),
        })
    out = ROOT / "spec" / "pdg_table.json"
    out.write_text("[\n" + ",\n".join(json.dumps(r) for r in rows) + "\n]\n")
    print(len(rows), len({r["name"] for r in rows}))


main()
