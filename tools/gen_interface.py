"""Writes spec/Interface.tla: the names the library offers, taken once from the pinned tree (names only; kept under review by hand)."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{ROOT}/lib")
import st  # noqa: E402
import vlib  # noqa: E402

so = vlib.build("dbg")
syms = vlib.exported(so)
us = st.load()
names = {u.name for u in us}


def tset(xs):
    xs = sorted(xs)
    lines, cur = [], "  "
    for x in xs:
        y = f'"{x}", '
        if len(cur) + len(y) > 118:
            lines.append(cur.rstrip())
            cur = "  "
        cur += y
    lines.append(cur.rstrip().rstrip(","))
    return "{\n" + "\n".join(lines) + " }"


gen = {u.name: sorted(s[len(u.name) + 2:] for s in syms | names if s.startswith(u.name + "__")) for u in us if u.generics}
out = ["----------------------------- MODULE Interface -----------------------------",
       "(* The interface the library documents: which functions and function blocks   *)",
       "(* exist, which of them the structured text declares external (so that the   *)",
       "(* library must export them), and for which types each generic one is        *)",
       "(* available. What they do is specified elsewhere.                           *)",
       f"FunctionBlocks == {tset(u.name for u in us if u.kind == 'FUNCTION_BLOCK')}",
       f"Functions == {tset(u.name for u in us if u.kind == 'FUNCTION' and not u.generics)}",
       f"Generics == {tset(gen)}",
       "(* names of the specialisations a generic call links to                      *)",
       f"Specialisations == {tset(g + '__' + s for g, l in gen.items() for s in l)}",
       "(* parameters of native functions in the order of their meaning (a caller *)",
       "(* may name them); only functions of more than one parameter                *)",
       "Parameters == [",
       ",\n".join(f"  {u.name} |-> <<" + ", ".join('"%s"' % v["name"].upper() for v in u.inputs()) + ">>" for u in us if (u.external or u.generics) and u.kind == "FUNCTION" and len(u.inputs()) > 1) + " ]",
       "============================================================================="]
with open(f"{ROOT}/spec/Interface.tla", "w") as f:
    f.write("\n".join(out) + "\n")
