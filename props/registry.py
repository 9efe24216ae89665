"""The properties: their texts, which builds each runs on, budgets (seconds of
search per worker) and what goes into the evidence.  tools/gen.py writes
properties.jsonl and MANIFEST.json from here."""

_SAN = ["-fsanitize=address", "-fsanitize=bounds,null,return,unreachable,vla-bound,object-size",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]


def _cfg(opt="-O1", defs=(), san=True):
    s = _SAN if san else []
    return dict(cflags=[opt] + s + list(defs), cxxflags=["-O1"] + (["-fsanitize=address"] if san else []),
                ldflags=(["-fsanitize=address,undefined"] if san else []))


CONFIGS = {
    "asan": _cfg(),                                        # AddressSanitizer + UBSan (memory checks)
    "aggr": _cfg(defs=["-DMJS_AGGRESSIVE_GC=1"]),          # collects before every instruction
    "off0": _cfg(defs=["-DMJS_INIT_OFFSET_SIZE=0"]),       # jump offsets reserved with 0 bytes: always moved
    "off4": _cfg(defs=["-DMJS_INIT_OFFSET_SIZE=4"]),
    "o3": _cfg(opt="-O3", san=False),
    "tsan": dict(cflags=["-O1", "-fsanitize=thread"], cxxflags=["-O1", "-fsanitize=thread"],
                 ldflags=["-fsanitize=thread"]),
}

PROPS = {}


def prop(pid, *, title, statement, over, qtext, why, files, mech, technique, note, rule, assumptions,
         configs, quick, thorough, libs=(), file=None, hook=None, observe=None):
    PROPS[pid] = dict(file=file or pid + ".cc", configs=configs, quick=quick, thorough=thorough, rule=rule,
                      assumptions=assumptions, libs=list(libs), title=title, statement=statement, over=over,
                      qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, hook=hook,
                      observe=observe)


_LANG = ["Scripts stay inside the subset where mJS promises ES6 behaviour; where mJS knowingly differs (order of for..in, "
         "sign of zero, division by zero, integer operators on non-integers, a right-hand side that modifies the target of a "
         "compound assignment) the case is judged only up to that operation",
         "Functions do not read names that a caller shadows (mJS resolves free names in the callers' scopes, there are no closures) "
         "and loop bodies do not redeclare the loop's own variables (a loop has one scope)",
         "The reference interpreter in lib/lang.cc is right about ES6"]

exec(open(__file__.replace("registry.py", "texts.py")).read())
