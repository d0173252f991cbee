"""Builds the executor in its three configurations and checks that the specifications parse."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{ROOT}/lib")
import vlib  # noqa: E402

vlib.build_all(list(vlib.KINDS))
vlib.build_vclock()
os.makedirs(f"{ROOT}/work/setup", exist_ok=True)
r = vlib.tlc("MCBigInt", "MCBigInt.cfg", workdir=f"{ROOT}/work/setup", tag="bigint")
print("BigInt:", "ok" if r.ok else r.text[-2000:])
sys.exit(0 if r.ok else 1)
