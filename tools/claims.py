fbnote = ("Exhaustive over a bounded abstract model (requirement-level invariants and the operational machine agree on all histories "
          "up to the bound), and every recorded call of the debug and optimised builds of the real code must be a step of the "
          "specification. Trusts TLC, the call executor and the structured-text layout rules; the clock is the repository's mock.")
for _i in ("T01", "T02", "T03"):
    CLAIMED[_i] = (REPLAY, fbnote)
for _i in ("C01", "C02", "C03", "E01", "E02"):
    CLAIMED[_i] = (REPLAY, fbnote.replace("; the clock is the repository's mock", ""))
CLAIMED["A01"] = (TLC, "Random interleavings of adjacent instances; every instance must follow its own specification and no byte outside "
                  "the called instance may change. Trusts TLC and the call executor.")
CLAIMED["T04"] = (TLC, "Bounds semantics of the production clock: ET must lie between the elapsed times the specification derives from the "
                  "clock readings before and after each call; the monotonic clock is virtual (preloaded library) so that every schedule "
                  "can be produced, plus a few calls on the real clock. Trusts TLC, the executor and the preloaded clock.")
CLAIMED["A02"] = (TLC, "The interface is an explicit specification (spec/Interface.tla); TLC compares it with the declarations of the "
                  "structured-text sources and the symbols of both builds. Trusts the structured-text reader and nm.")
CLAIMED["A04"] = (TLC, "The calling convention and the type hierarchy are an explicit specification (spec/Signatures.tla); TLC lowers every declaration and compares it with the "
                  "machine types the exported function takes in the compiled code. Trusts the structured-text reader, rustc's LLVM IR and the stated convention.")
CLAIMED["A05"] = (TLC, "An observer that remembers the first outcome of every call is model-checked to notice memory between calls and builds that differ; the outcomes "
                  "of real calls with arbitrary arguments in four builds and random orders must be explained by it. Trusts TLC and the executor.")
CLAIMED["A06"] = (TLC, "Readers of a text in two memories that agree on it are model-checked (those that look beyond it are told apart); real calls are made with every argument reduced by the "
                  "specification's footprint between inaccessible pages and with other surroundings, and TLC requires one outcome. Trusts TLC and the executor; a page is the unit of protection.")
CLAIMED["A07"] = (TLC, "Calls, copies and creations of instances are model-checked against each instance's own history (and the model shown to reject state kept elsewhere); the behaviours TLC generates "
                  "and random ones run on real instances of every type, copied over each other and restored; every call must be a step of the specification from the copied state. Trusts TLC and the executor.")
CLAIMED["A03"] = (TLC, "Calls as several steps of concurrent tasks are model-checked in all interleavings (and the model shown to reject shared scratch state); calls of every kind "
                  "of function run concurrently in eight threads of the real library and every distinct outcome must be a step of the specification of that "
                  "function. Trusts TLC and the executor; which calls overlap is up to the scheduler.")
textnote = ("The operations are specified over sequences of characters with explicit UTF-8/UTF-16 encodings; their algebraic laws are "
            "model-checked for all texts up to the bound and every recorded call of the debug and optimised builds must be a step of "
            "the specification (exhaustive small scope plus random). Trusts TLC and the call executor.")
for _i in ("S01", "S02", "S03", "S04", "S05", "S06", "S07"):
    CLAIMED[_i] = (TLC, textnote)
numnote = ("Conversions are specified over exact numbers of any size (BigInt, IEEE-754 values as exact dyadic rationals); rounding is "
           "decided, never computed in floating point, and the rounding rule is model-checked on a tiny format and at all binade edges. "
           "Every recorded call of the debug and optimised builds must be a step of the specification. Trusts TLC and the executor.")
for _i in ("N01", "N02", "N03", "N04"):
    CLAIMED[_i] = (TLC, numnote)
datenote = ("The Gregorian calendar is specified by closed formulas that are model-checked against walking the calendar day by day; "
            "times are exact integers. Every recorded call of the debug and optimised builds must be a step of the specification "
            "(boundary-directed and random; every day of the range in the thorough tier). Trusts TLC and the executor.")
for _i in ("D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08"):
    CLAIMED[_i] = (TLC, datenote)
CLAIMED["M01"] = CLAIMED["M02"] = (TLC, "The requirement (an extreme argument; clamping) is specified over typed values and model-checked against a running maximum for all "
    "short lists; every recorded call of both builds must be a step of the specification. Trusts TLC and the executor.")
for _i in ("B01", "B02", "B03", "B04"):
    CLAIMED[_i] = (TLC, "Words are bit sequences; the closed forms are model-checked against moving one place at a time for every byte, and every recorded call of both "
                   "builds must be a step of the specification (all shift amounts of interest, every bit and byte position). Trusts TLC and the executor.")
for _i in ("R01", "R02", "R03"):
    CLAIMED[_i] = (TLC, "Results are decided in exact integer arithmetic against brackets of the mathematical function (series in fixed point with checked constants, integer "
                   "powers); constants and identities are model-checked; every recorded call of both builds must be a step of the specification. Trusts TLC, the executor "
                   "and, for the last few units of precision, the platform's mathematical library.")

stnote = ("Structured text is executed by an interpreter of the language subset the sources use (lib/stvm.py), with every call of an external function going to the "
          "real library; the specification judges every recorded result. Trusts TLC, the executor and the interpreter as a stand-in for the compiler.")
for _i in ("L01", "L02", "L03", "L04", "L05", "L06"):
    CLAIMED[_i] = (TLC, stnote)
