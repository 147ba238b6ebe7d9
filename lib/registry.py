"""Which harness runs decide which property, within which bounds."""
class R:
    def __init__(s, h, t=40, tt=400, tier="q", reach=(), defs=(), samples=12, mem=3500, max_steps=20000000, random=False, ideal_hash=False, real_hash=False, cost=None, **params):
        s.h = h; s.t = t; s.tt = tt; s.tier = tier; s.reach = list(reach); s.defs = list(defs); s.samples = samples; s.mem = mem; s.max_steps = max_steps; s.random = random; s.ideal_hash = ideal_hash; s.real_hash = real_hash; s.params = params; s.cost = t if cost is None else cost
    def label(s): return s.h + "(" + ",".join("%s=%s" % kv for kv in sorted(s.params.items())) + ")" + ("".join(s.defs))
class P:
    def __init__(s, runs, bounds, assumptions=(), level="model_checking", budget=150, budget_thorough=1500, strict=False):
        s.runs = list(runs); s.bounds = bounds; s.assumptions = list(assumptions); s.level = level; s.budget = budget; s.budget_thorough = budget_thorough; s.strict = strict
COMMON_ASSUMPTIONS = [
 "LLVM 18 -O1 bitcode of the sources is taken as the meaning of the C code; the pinned configuration (NDEBUG, reference counting on, computed goto on) is the one analysed",
 "libc, talloc, clock, shared memory, locks and stdio are small models (/verif/models); recorded paths are replayed on a native ASan/UBSan build with the real talloc, json-c and libyaml",
 "XXH3 is an arbitrary function of the hashed bytes (functionally consistent) when they are symbolic",
 "allocation succeeds unless the property is about allocation failure"]
PROPS = {}

