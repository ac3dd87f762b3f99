"""setup: the overridden operators agree with the TLA+ text they replace."""
import os, re, sys
import lib
pure = os.path.join(lib.BUILD, "pure")
os.makedirs(pure, exist_ok=True)
for m in ("BigFix", "Cplx"):
    s = open(os.path.join(lib.SPEC, m + ".tla")).read()
    s = re.sub(r"MODULE %s\b" % m, "MODULE %sPure" % m, s, count=1)
    s = s.replace("EXTENDS BigFix,", "EXTENDS BigFixPure,")
    s = s.replace("\nK == 80", "\nK == 6")        # and the override runs with 15 * 6 fractional bits
    open(os.path.join(pure, m + "Pure.tla"), "w").write(s)
r = lib.tlc("AgreeBigFix", jvm=["-Dbigfix.bits=90"])
if r["rc"] != 0 or not r["states"]:
    print(r["out"][-4000:])
    sys.exit("overrides do not agree with the specification")
print("overrides agree with the specification text:", r["states"], "states")
