from registry import PROPS, P, R
OPS = {0: "append", 1: "append_str", 2: "escape", 3: "escape_append", 4: "replace", 5: "reduce", 6: "addcslashes", 7: "stripcslashes", 8: "ltrim", 9: "rtrim", 10: "truncate", 11: "indent", 12: "indent_append", 13: "implode", 14: "copy", 15: "extend", 16: "compact", 17: "asprintf_append", 18: "asprintf", 19: "ctor", 20: "search", 21: "eq", 22: "eq_strl", 23: "roundtrip", 24: "edits"}
def strruns(ops, szs, rcs=(0,), **kw): return [R("str", op=o, n=n, m=m, k=k, rc=rc, hs=1 if rc == 1 and o not in (2, 3, 23) else 0, reach=["done"], **kw) for o in ops for (n, m, k) in szs for rc in rcs]
SM = ((0, 0, 0), (1, 1, 0), (2, 2, 1), (3, 1, 2)); BIG = ((4, 2, 2), (3, 3, 3), (5, 1, 1))
PROPS["P15"] = P(strruns((0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20), SM, (0, 1)) + strruns((0, 1, 3, 4, 5, 8, 9, 10, 11, 12, 13, 20), BIG, (0,), tier="t"),
  "operand lengths up to 3 (thorough 5) bytes, every byte value; every operation; count/position arguments up to 2 past the length (extend up to +40)")
PROPS["P16"] = P(strruns((0, 1, 3, 5, 7, 8, 9, 10, 14, 15, 16, 17), SM[1:], (2,)) + strruns((12,), ((2, 1, 1),), (2,)) + strruns((21, 22), ((0, 0, 0), (1, 1, 0), (2, 2, 0), (3, 3, 0), (2, 1, 0)), (1, 2)) + strruns((24,), ((1, 1, 2), (2, 1, 2), (2, 2, 3)), (0, 1, 2))
  + strruns((0, 5, 7, 8, 9, 10), BIG, (2,), tier="t") + strruns((24,), ((2, 2, 4), (3, 1, 4)), (0, 1, 2), tier="t"),
  "contents up to 3 (thorough 5) bytes, up to 3 holders, edit sequences up to 3 (thorough 4) operations; the hash function is an arbitrary function of the bytes, so collisions are included")
PROPS["P17"] = P(strruns((6,), SM, (0, 2)) + strruns((7,), ((0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0)), (0, 2)) + strruns((23,), ((1, 1, 0), (2, 1, 0), (2, 2, 0)), (0,)) + strruns((6,), ((4, 2, 0),), (0,), tier="t") + strruns((7,), ((5, 0, 0),), (0,), tier="t") + strruns((23,), ((3, 1, 0), (3, 2, 0)), (0,), tier="t"),
  "texts up to 4 (thorough 5) bytes to decode, 3 (thorough 4) to encode, escape sets up to 2 characters, every byte value")
MPB = dict(reach=["done"], t=60)
def mp(n, nk, l, c, nh, o, **kw): return R("map", n=n, nk=nk, l=l, cap=c, nh=nh, own=o, **dict(MPB, **kw))
PROPS["P18"] = P([mp(n, nk, l, c, nh, o, what=0) for (n, nk, l, c, nh, o) in ((0, 2, 3, 0, 2, 1), (1, 3, 2, 3, 2, 1), (2, 3, 2, 3, 1, 1), (3, 4, 2, 3, 1, 1), (3, 3, 3, 3, 1, 1), (3, 3, 4, 3, 0, 1), (4, 5, 2, 4, 1, 0), (7, 8, 1, 4, 1, 1), (12, 13, 1, 0, 0, 1), (3, 4, 2, 8, 2, 1), (3, 4, 3, 8, 0, 1))] + [mp(2, 3, 2, 3, 0, 1, what=0, str=1)]
  + [mp(n, nk, l, c, nh, o, what=0, tier="t") for (n, nk, l, c, nh, o) in ((2, 3, 2, 3, 2, 1), (1, 3, 2, 3, 3, 1), (0, 3, 3, 0, 2, 1), (3, 3, 4, 3, 1, 1), (3, 4, 5, 3, 0, 1), (14, 15, 2, 0, 0, 1), (4, 4, 3, 8, 1, 1))],
  "maps of up to 5 distinct keys (15 with fixed hashes), histories of up to 4 (thorough 5) free add/update/remove/rehash/compact operations after up to 12 insertions; hashes of up to 2 (thorough 3) keys symbolic over 255 values, so every bucket collision and equal hash between them is included")
PROPS["P19"] = P([mp(n, nk, l, c, nh, 1, what=1, sort=s, share=sh) for (n, nk, l, c, nh, s, sh) in ((3, 4, 2, 3, 1, 1, 0), (3, 3, 3, 3, 0, 1, 0), (3, 4, 2, 3, 1, 0, 1), (4, 4, 3, 8, 0, 0, 1), (6, 6, 2, 3, 0, 1, 0), (2, 3, 2, 3, 1, 0, 0), (3, 3, 2, 3, 0, 1, 1), (3, 3, 2, 8, 0, 1, 1))]
  + [mp(n, nk, l, c, nh, 1, what=1, sort=s, share=sh, tier="t") for (n, nk, l, c, nh, s, sh) in ((3, 3, 2, 3, 2, 0, 0), (3, 3, 3, 3, 1, 1, 0), (3, 3, 4, 3, 0, 1, 1), (5, 6, 3, 8, 0, 1, 1))],
  "maps of up to 6 keys, histories of up to 3 (thorough 4) free operations including sorting, rehashing and compaction, one other holder")
def sk(n, l, cap, **kw): return R("stack", n=n, l=l, cap=cap, reach=["done"], **kw)
PROPS["P20"] = P([sk(0, 3, 0), sk(0, 4, 4), sk(2, 3, 2), sk(3, 3, 3, own=0), sk(2, 3, 8), sk(1, 3, 3, fixed=1), sk(2, 3, 2, fixed=1), sk(0, 3, 1, fixed=1), sk(2, 2, 2, share=1), sk(2, 3, 4, share=1), sk(2, 2, 2, fixed=1, share=1), sk(2, 2, 3, strs=1), sk(3, 2, 3, strs=1, share=1)]
  + [sk(0, 5, 3, tier="t"), sk(3, 5, 3, tier="t"), sk(2, 5, 3, fixed=1, tier="t"), sk(2, 4, 2, share=1, tier="t"), sk(3, 4, 3, strs=1, tier="t"), sk(10, 3, 3, tier="t")],
  "lists of up to 6 (thorough 13) elements, histories of up to 4 (thorough 5) free operations (push, push of an own element, pop, set at any index up to 2 past the end, save, restore, truncate, copy), growable and fixed size, up to 2 holders")
def vl(mode, **kw): return R("value", mode=mode, reach=["done"], **kw)
PROPS["P21"] = P([vl(0, type=t, n=3, nest=1) for t in (0, 1, 2, 3, 4, 5, 8)] + [vl(0, type=t, n=1, nest=1) for t in (6, 7)] + [vl(0, type=6, lite=1, nest=2, kids=1), vl(0, type=7, lite=1, nest=2, kids=1), vl(1, n=2, nest=1), vl(1, type=5, type2=5, n=3), vl(1, type=3, type2=3), vl(2, n=1, lite=1, kids=1), vl(0, type=7, n=1, nest=1, depth=30, kids=1)]
  + [vl(0, type=6, n=2, nest=1, tier="t"), vl(0, type=7, n=2, nest=1, tier="t"), vl(0, type=6, lite=1, nest=2, tier="t"), vl(2, n=2, tier="t"), vl(1, n=3, nest=2, lite=1, tier="t")],
  "texts up to 3 bytes (every byte value), integers in 11 windows of 256 values including both ends of long, 12 representative floats, lists and maps of up to 2 entries nested up to 2")
def ow(l, nv, pre, **kw): return R("own", l=l, nv=nv, pre=pre, reach=["done"], **kw)
PROPS["P22"] = P([ow(3, 2, 0), ow(3, 2, 1), ow(3, 2, 2), ow(3, 2, 3), ow(2, 3, 4), ow(3, 3, 1, lo=3), ow(3, 2, 3, lo=3), ow(4, 2, 0, small=1, hi=5)]
  + [ow(4, 2, p, tier="t") for p in (0, 1, 2, 3)] + [ow(3, 3, p, tier="t") for p in (1, 2, 3, 4)] + [ow(5, 2, 3, lo=3, tier="t")],
  "2 or 3 holders, histories of up to 4 (thorough 5) assignments, stores, removals, edits and drops over strings, lists, maps, closures, pointers and user objects, from empty or from scripted sharing states")
def pa(nest, w, **kw): return R("path", nest=nest, w=w, reach=["done"], real_hash=True, **dict(dict(t=80), **kw))
PROPS["P04"] = P([pa(0, 0), pa(0, 1), pa(0, 2), pa(0, 5), pa(1, 0), pa(1, 1), pa(1, 2, paths=3), pa(1, 4), pa(1, 5), pa(1, 0, compat=1)] + [pa(n, 3, paths=2, ks=k, v=v) for n in (0, 1) for k in (0, 1) for v in (0, 1)] + [pa(2, w, k0=k) for w in (0, 5) for k in (0, 1, 2, 3)] + [pa(2, 4, k0=k) for k in (0, 1, 2)] + [pa(2, 0, k0=k, compat=1, paths=4) for k in (0, 1, 3)]
  + [pa(1, 2, tier="t"), pa(3, 0, k0=0, paths=4, tier="t"), pa(3, 0, k0=1, paths=4, tier="t"), pa(3, 4, k0=0, paths=3, tier="t"), pa(3, 4, k0=1, paths=3, tier="t"), pa(3, 5, k0=1, paths=3, tier="t"), pa(2, 1, k0=1, tier="t"), pa(2, 1, k0=0, tier="t")],
  "templates nesting up to 2 (thorough 3) with/each/if/section blocks over 7 argument paths, probing every combination of up to nest+1 parent steps, plain/this/dot scope, up to 3 segments out of 9 names and indexes, block parameters (1 or 2 per block, shadowing), @root/@index/@key/@first/@last/user data with parent steps; one leaf byte per data leaf symbolic; one path segment or one key an arbitrary byte")
def cn(w, nv, **kw): return R("cond", w=w, nv=nv, reach=["done"], **dict(dict(t=80), **kw))
PROPS["P05"] = P([cn(0, 1), cn(1, 1), cn(4, 0), cn(2, 1, fns=4)] + [cn(w, 2, v0=v, cost=5) for w in (2, 3) for v in (0, 1, 2, 3, 4, 7, 8, 10, 12)] + [cn(2, 2, v0=v, fns=4, cost=8) for v in (0, 2, 4, 10)] + [cn(w, 2, v0=v, fns=4, tier="t") for w in (2, 3) for v in range(13)] + [cn(2, 3, v0=v, tier="t") for v in range(13)],
  "values of 13 kinds (missing, null, booleans, integers at and around 0 and both ends, any 64-bit integer for includeZero, a float, strings up to 2 arbitrary bytes, lists and maps of up to 2 entries), in every conditional form (if, unless, #, ^, with, each; else, ^, no else, empty bodies), else chains of up to 2 (thorough 3) links, conditionals nested 2 deep")
def lp(w, **kw): return R("loop", w=w, reach=["done"], real_hash=True, **dict(dict(t=150), **kw))
PROPS["P06"] = P([lp(0, cost=10), lp(2, dk=0), lp(2, dk=1), lp(0, dk=1, ks=1, max=3), lp(0, dk=0, max=5, d=2, f=0), lp(0, dk=1, max=3, d=2, f=1)] + [lp(1, dk=dk, max=m, min=m, d=1, f=f) for (dk, m) in ((0, 1), (0, 3), (1, 2)) for f in (0, 1, 2)]
  + [lp(1, dk=dk, max=5, min=4, d=2, f=f, tier="t") for dk in (0, 1) for f in (0, 1, 2)] + [lp(0, dk=1, ks=1, max=5, tier="t"), lp(1, dk=0, max=2, d=1, ks=1, f=0, tier="t")],
  "lists and maps of 0 to 5 entries (contents symbolic, an arbitrary key byte, maps with removed entries) and every other kind of value; each, section and with, with 0-2 block parameters; an inner loop or with over 6 sources, shadowing parameters; all loop variables printed before, inside and after, with up to 3 parent steps")
def pt(w, **kw): return R("part", w=w, reach=["done"], real_hash=True, **dict(dict(t=100), **kw))
PROPS["P07"] = P([pt(0, host=h) for h in (0, 1, 2, 3)] + [pt(0, host=1, compat=1), pt(1), pt(1, compat=1), pt(2), pt(2, compat=1), pt(4)] + [pt(3, host=h, vb=v, nc=2) for h in (0, 3) for v in (0, 1, 2, 3)] + [pt(3, host=h, vb=v, tier="t") for h in (0, 1, 2, 3) for v in (0, 1, 2, 3)],
  "calls and partial blocks with 8 context arguments, up to 2 hash arguments of 6 kinds, from the top level and inside each/with/block parameters; names static, missing and by subexpression over an arbitrary byte; indented partials with arbitrary bytes in text and value; @partial-block passed on, nested, repeated, with context and hash; recursion over data 3 deep; both modes")
def hp(w, **kw): return R("helper", w=w, reach=["done"], real_hash=True, **dict(dict(t=80), **kw))
PROPS["P08"] = P([hp(w, host=h) for w in (0, 1, 2, 3) for h in (0, 1)] + [hp(w, lit=1, host=1) for w in (0, 2, 3)] + [hp(0, lit=2), hp(1, lit=2), hp(4), hp(6), hp(7), hp(7, host=1)] + [hp(5, base=b) for b in range(10)]
  + [hp(w, lit=l, host=h, tier="t") for w in (0, 1, 2, 3) for l in (1, 2) for h in (0, 1)],
  "calls with up to 3 positional and 3 hash arguments, every pair out of 20 argument kinds (paths to every type, parent paths, data, this, literals of every type with an arbitrary byte in strings, nested calls 2 deep), plain, block (main/inverse/^, block parameters, nested) and subexpression forms, at the top and inside a block; precedence over 10 names in 9 forms with and without an overriding helperMissing; every one-character change of every built-in name; overridden built-ins")
def es(w, **kw): return R("esc", w=w, reach=["done"], real_hash=True, **dict(dict(t=80), **kw))
PROPS["P01"] = P([es(0, n=n, **k) for n in (1, 2) for k in ({}, dict(noesc=1), dict(compat=1), dict(safe=1))] + [es(w, **k) for w in (1, 2, 3) for k in ({}, dict(noesc=1), dict(compat=1))] + [es(2, n=2)] + [es(0, n=3, tier="t"), es(0, n=3, compat=1, tier="t"), es(0, n=3, noesc=1, tier="t")],
  "string values of up to 2 (thorough 3) arbitrary bytes and of up to 170 bytes repeating one arbitrary byte, other scalars and a nested list mixing plain and safe strings; all three tag forms in 19 positions (field, parent, data, block parameter, list element, whole list, helper results plain, safe and nested, lookup, each/with/if/section bodies, block helpers nested 2 deep, partials with context and hash, partial block fallback), literal text of one arbitrary byte between them; escaping on, off and compatibility mode")
def tx(w, n, **kw): return R("text", w=w, n=n, reach=["done"], real_hash=True, **dict(dict(t=100), **kw))
PROPS["P02"] = P([tx(0, n, pos=p) for n in (1, 2) for p in range(5)] + [tx(0, 3, pos=p, cost=15) for p in (0, 1, 2, 3)] + [tx(0, 2, pos=p, alone=1) for p in (0, 1)] + [tx(0, 0, pos=0, alone=1)] + [tx(0, 2, pos=p, noesc=1) for p in (1,)] + [tx(1, n) for n in (0, 1, 2, 3, 4)] + [tx(2, n) for n in (0, 1, 2, 3, 4)] + [tx(1, 5, cost=6), tx(3, 1), tx(3, 2), tx(4, 2, pos=0), tx(4, 2, pos=1), tx(4, 3, pos=0), tx(5, 2), tx(5, 3, cost=9)] + [tx(6, 1, pos=p) for p in range(10)]
  + [tx(2, 5, cost=17), tx(3, 3, tier="t"), tx(0, 3, pos=4, tier="t"), tx(4, 3, pos=1, tier="t"), tx(1, 6, tier="t"), tx(2, 6, tier="t"), tx(0, 4, pos=2, tier="t")],
  "texts of up to 3 (thorough 4) arbitrary bytes (NUL, backslashes, braces, newlines included) before, between, behind and inside tags, next to every tag form, behind one or two backslashes, in both block branches, in partials and partial blocks; comment bodies of up to 5 (thorough 6) arbitrary bytes of both kinds; raw block bodies of 2 (thorough 3) arbitrary bytes behind 5 tag-like prefixes; texts of 1000 to 17000 bytes around the scanner's buffer sizes")
def wp(sh, pos, w, **kw): return R("ws", sh=sh, pos=pos, w=w, reach=["done"], real_hash=True, **dict(dict(t=150, n=2), **kw))
WSN = [1, 1, 1, 2, 3, 3, 4, 3, 2, 4, 2, 2, 2, 3, 4, 5, 3, 4, 4, 3]   # tags per shape
PROPS["P03"] = P([wp(sh, p, 1, til=1, cost=4) for sh in range(20) for p in range(min(WSN[sh], 3) + 1) if not (p == WSN[sh] and sh in (3, 9, 11, 12))] + [wp(sh, p, 2, cost=8) for sh in range(20) for p in range(0, WSN[sh], 2)] + [wp(sh, 0, 2, off=1, cost=6) for sh in (1, 2, 4, 11, 12)] + [wp(2, 0, 2, compat=1)]
  + [wp(sh, p, 2, cost=8, tier="t") for sh in range(20) for p in range(1, WSN[sh], 2)] + [wp(sh, 0, 4, n=1, til=1, t=300, tier="t") for sh in (3, 8, 10, 12)] + [wp(sh, p, 1, n=3, til=1, tier="t") for sh in (2, 4, 5, 12, 15) for p in (0, 1, 2)] + [wp(sh, 0, 3, n=2, t=400, tier="t") for sh in (3, 7, 12)] + [wp(9, 0, 5, n=1, tier="t")],
  "20 arrangements of up to 5 tags (expressions in three forms, comments of both kinds, partials, blocks with else, else-if chains, inverted blocks, raw blocks, partial blocks, nesting, one after the other); one or two (thorough 3 to 5) of the texts between them any string of 2 (thorough 3) bytes of blanks, tabs, newlines, carriage returns and a letter, the others a newline, empty or a letter; every combination of ~ on the tags next to one of them; standalone handling on and off. Not covered: an inverted block that also has an else, and tags behind the first of several else-ifs, where Handlebars itself looks at other texts")
def md(tm, **kw): return R("mod", tm=tm, reach=["done"], real_hash=True, **dict(dict(t=100, tt=900, cost=15), **kw))
PROPS["P23"] = P([md(t, k=1) for t in range(11)] + [md(t, k=1, nz=2, cost=3) for t in (11, 12, 13)] + [md(t, k=2, nz=3, cost=2) for t in range(11)] + [md(t, k=3, nz=3, cost=6) for t in (1, 3, 5)] + [md(t, k=1, flags=1) for t in (1, 3)] + [md(t, k=0, twice=1, cost=3) for t in (1, 3, 8)] + [md(t, k=2, tier="t") for t in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10)] + [md(t, k=3, tier="t") for t in (0, 6)],
  "14 templates using every opcode and operand kind (nested and sibling blocks 5 deep, literals of every type, hashes, subexpressions, block parameters, partials, partial blocks, raw blocks, else chains, a symbolic text byte), in sequences of up to 3 moves: normalized or not, to null, to its own address or (single moves; thorough 2 and 3) to any 64-bit address, copied as normalized or patched, patched at once or only after another move; the original image and everything it was compiled from is destroyed before the move")
def vf(tm, **kw): return R("mod", tm=tm, ver=1, sym=0, **dict(dict(t=100, reach=["done"], real_hash="ideal_hash" not in kw, cost=4), **kw))
PROPS["P24"] = P([vf(t, w=0, quiet=1, norm=nm, **{"from": f}) for (t, top, nm) in ((6, 800, 0), (6, 800, 1), (0, 6000, 0)) for f in range(0, top, 200)] + [vf(t, w=w) for w in (1, 2, 4) for t in (6, 3)] + [vf(6, w=0, np=3, **{"from": 0}), vf(6, w=0, np=3, **{"from": 110}), vf(6, w=3, ideal_hash=True, **{"from": 16}), vf(6, w=3, ideal_hash=True, **{"from": 76}), vf(6, w=3, ideal_hash=True, **{"from": 300})]
  + [vf(t, w=0, quiet=1, tier="t", **{"from": f}) for (t, top) in ((1, 9000), (3, 9000)) for f in range(0, top, 200)],
  "each single byte of the image of 2 (thorough 4) modules replaced by each other value (decided against the real XXH3), normalized or not; the size field replaced by every smaller value below 150 and by every value that differs in one of its two low bytes while the block is that long; every 32-bit version; two bytes up to 40 apart replaced at once by any values (with a hash free of collisions)")

def ca(be, l=3, **kw): return R("cache", be=be, l=l, reach=["done"], real_hash=True, **dict(dict(t=120, sy=0, cost=20 if be == 1 else 12), **kw))
def cw(be, l=3, **kw): return R("cachew", be=be, l=l, reach=["done"], real_hash=True, **dict(dict(t=120, cost=20 if be == 1 else 3), **kw))
PROPS["P25"] = P([ca(b, cfg=c) for b in (0, 1, 2) for c in (0, 2)] + [ca(0, cfg=c) for c in (1, 3, 4)] + [ca(b, cfg=4, l=2, cost=3) for b in (1, 2)] + [ca(b, nop=10, l=2) for b in (0, 1, 2)] + [ca(b, o0=10, nop=11, l=2, how=h, cost=4) for b in (0, 1, 2) for h in (0, 1)]
  + [ca(b, l=1, sy=1, cost=2) for b in (0, 1, 2)] + [ca(2, l=2, fault=1), ca(1, l=2, fault=2), ca(2, kl=14), ca(2, kl=16), ca(2, dbroom=3000), ca(1, slots=1), ca(1, room=4000), ca(1, room=2000)]
  + [cw(b) for b in (0, 1, 2)] + [cw(b, age=11) for b in (0, 1, 2)] + [cw(b, l=1, sy=1, cost=5) for b in (0, 1, 2)] + [cw(b, l=2, age=11, pre=5, cost=3) for b in (0, 1, 2)] + [cw(0, entries=1), cw(0, msize=1), cw(0, entries=2, pre=3, cost=5), cw(2, l=2, fault=1), cw(2, l=2, fault=1, pre=5, cost=8), cw(2, dbroom=3000, tight=1), cw(2, l=2, age=11, pre=9)]
  + [ca(b, l=4, t=900, tier="t") for b in (0, 2)] + [ca(b, l=2, sy=1, t=600, tier="t") for b in (0, 1, 2)] + [cw(b, l=4, t=900, tier="t") for b in (0, 2)] + [cw(b, l=4, age=11, t=900, tier="t") for b in (0, 2)],
  "all three caches; histories of up to 3 (thorough 4) renders of 6 nested templates, passing time (any tick of 0 to 12 s around the age limit), collections, resets, changed options, failing renders, re-created caches, helpers that collect or reset while a cached template runs; texts one byte apart with an arbitrary byte; the direct interface with up to 3 (thorough 4) free operations on 3 texts and modules held across them; entry, size and age limits; every single failing lmdb or mprotect call; full stores and blocks")
PROPS["P26"] = P([cw(1, l=2, slots=9, room=6000, rooms=3, tight=1), cw(1, l=2, room=1000, rooms=20, tight=1), cw(1, slots=2), cw(1), cw(1, l=1, sy=1, cost=8), cw(1, l=0, ctor=1, page=256), cw(1, l=0, ctor=2, cost=2), cw(1, l=0, ctor=3, cost=2), cw(1, l=2, fault=1), cw(1, l=2, fault=1, pre=5)]
  + [cw(1, l=2, two=1, nk=2, oop=o, pre=p, cost=20) for o in range(5) for p in (0, 1)] + [cw(1, l=1, two=1, oop=o, pre=5, cost=10) for o in range(5)] + [cw(1, l=1, two=1, oop=o, pre=3, room=3000, tight=1, cost=10) for o in range(5)] + [ca(1, l=2, fault=2), ca(1, slots=1), ca(1, room=2000)]
  + [cw(1, l=2, two=1, nk=2, oop=o, pre=5, t=900, tier="t") for o in range(5)] + [cw(1, slots=9, room=6000, rooms=3, tight=1, t=600, tier="t")],
  "blocks of 1000 to 8192 bytes, 1 to 9 slots, histories of up to 3 free operations with modules held across them; any requested size (up to 2000 bytes accepted, any value refused) and any number of slots; one failing mprotect at any call; a second process running one whole operation (lookup, addition, reset, reset and addition, lookup and release) between any two shared-memory steps of the first (lock, unlock, protection changes, every atomic access, sleeping)")

def nm(w, k, **kw): return R("names", w=w, k=k, reach=["done"], **dict(dict(t=60, cost=1), **kw))
PROPS["P30"] = P([nm(w, 0) for w in range(4)] + [nm(w, 1, n=n) for w in (0, 1) for n in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24)] + [nm(0, 2, n=n) for n in range(0, 21)],
  "every int value of an opcode, token, node and value type; every string of up to 24 bytes as an opcode or token name, of up to 20 bytes as a built-in helper's name")
def pr(tm, **kw): return R("ast", w=1, tm=tm, reach=["done"], real_hash=True, **dict(dict(t=60, cost=1), **kw))
def ol(tm, **kw): return R("ast", w=2, tm=tm, reach=["done"], real_hash=True, **dict(dict(t=60, cost=1), **kw))
PROPS["P31"] = P([R("ast", w=0, l=4, reach=["done"], t=60, cost=2), R("ast", w=0, l=5, reach=["done"], t=900, tier="t")]
  + [pr(t, **(dict(quoted=1) if t == 16 else dict(nows=1) if t in (11, 17) else {})) for t in range(20)] + [pr(t, any=1) for t in range(20)] + [pr(t, any=1, two=1) for t in (0, 1, 3, 5, 6, 7, 9, 10, 12, 14, 16, 18)] + [pr(t, reps=r) for t in (0, 1, 5, 8, 9, 15) for r in (7, 400)]
  + [pr(t, any=1, two=1, t=600, tier="t") for t in (2, 4, 8, 11, 15, 17, 19)] + [pr(t, any=1, two=1, reps=2, t=600, tier="t") for t in range(20)]
  + [ol(t) for t in range(20)] + [ol(t, loc=1) for t in (0, 3, 9, 12)] + [ol(t, flags=f) for t in (1, 3, 7, 12) for f in (1, 4096, 8191)] + [ol(0, nest=n) for n in (100, 127, 128, 129, 200)],
  "lists of up to 4 (thorough 5) operations on up to 3 nodes; 20 templates with every kind of node with one or two arbitrary bytes in texts, literals, comments, names and literal segments and texts of up to 400 repeated bytes, printed, written as a template and parsed again; the opcode listings of the same templates under compiler flags, with locations, and of blocks nested up to 200 deep")

def ag(tm, l=2, **kw): return R("again", tm=tm, l=l, reach=["done"], real_hash=True, **dict(dict(tt=900, mask=0xefff, cost=20), **kw))
def _tm(r, t): r.t = t; return r
PROPS["P10"] = P([_tm(ag(i), 150) for i in range(16) if i != 12] + [_tm(ag(12, mask=0x0029), 150), _tm(ag(0, l=1, cm=1, mask=0xffff, cost=4), 150)] + [_tm(ag(i, grow=1), 150) for i in (3, 4, 6, 10, 14, 15)] + [_tm(ag(i, two=1, mask=0x278d), 150) for i in (1, 3, 7, 8, 13)] + [_tm(ag(i, key=1, hole=1, cm=1), 150) for i in (0, 5)]
  + [_tm(ag(i, l=3, mask=0x2ce9, tier="t"), 900) for i in (0, 1, 3, 6, 7, 8, 10, 13)] + [_tm(ag(i, two=1, tier="t"), 900) for i in range(16) if i != 12] + [_tm(ag(i, grow=1, tier="t"), 900) for i in range(16) if i != 12],
  "every history of up to 2 (thorough 3) renders of 16 templates (loops over maps and lists, partials, partial blocks, changed delimiters, lambdas, block helpers that render their bodies; nine of them failing at different depths, one at the recursion limit), each on a reused or a fresh interpreter, in one or two contexts, with an arbitrary byte in the data's texts, the data growing in between, lists and maps with a removed entry")

def er(w, **kw): return R("err", w=w, reach=["done"], real_hash=True, **dict(dict(t=60, cost=1), **kw))
PROPS["P14"] = P([er(0, bad=b, pre=(b * 7 + k) % 20) for b in range(22) for k in range(20)] + [er(0, bad=b, pre=p, n=1, m=2, t=120, tier="t") for b in range(22) for p in range(20)] + [er(0, bad=b, pre=p, n=3, m=1, t=300) for (b, p) in ((0, 3), (3, 13), (15, 5), (19, 7))]
  + [er(1, tm=t, t=150, cost=15) for t in range(14)] + [er(1, tm=t, l=3, t=900, tier="t") for t in (1, 2, 5, 11, 13)] + [er(2, k=k, n=n) for k in range(5) for n in (1, 2, 3, 100, 230, 240, 256, 480, 500, 700)],
  "22 invalid templates behind 20 kinds of valid ones with 3 (thorough 4) arbitrary bytes of text between, line breaks included: code, message, first and last line and column; every history of 2 (thorough 3) parses, scans and renders of 14 templates, nine of them failing, with the same parser or another one; messages about names of up to 700 arbitrary bytes")
# ---- P12: limits
def dp(k, lo, cnt, floor=28, **kw): return R("deep", k=k, lo=lo, cnt=cnt, floor=floor, real_hash=True, max_steps=2000000000, **dict(dict(t=120, cost=5, reach=["done"]), **kw))
_LIM = {0: 30, 1: 30, 2: 30, 3: 29, 4: 30, 7: 61, 8: 30, 9: 91, 10: 93, 11: 29, 12: 95, 14: 30, 16: 30, 17: 30, 19: 95, 20: 30, 21: 30, 22: 30, 23: 95, 24: 30, 26: 61, 27: 254, 28: 510}
PROPS["P12"] = P([dp(k, 0, 12 if k in (27, 28) else 26, floor=_LIM[k] - 2) for k in _LIM] + [dp(k, l - 5, 10, floor=l - 2, mono=1, cost=120 if l > 200 else 30 if l > 90 else 8, t=300, reach=["done", "limit", "works"]) for k, l in _LIM.items()]
  + [dp(k, l + 8, 24, floor=l - 2, step=9, cost=10) for k, l in _LIM.items() if l < 90] + [dp(k, 0, 16, floor=9999, step=19, cost=6) for k in (5, 6, 18)] + [dp(k, 0, 4, cost=15) for k in (13, 15, 29, 25)] + [dp(25, 5900, 2), dp(0, 2500, 1), dp(7, 3000, 1), dp(8, 2500, 1), dp(3, 2500, 1), dp(11, 2000, 1), dp(20, 2000, 1)]
  + [dp(k, 0, 40, floor=_LIM[k] - 2, fl=f, cost=10) for k in (1, 2, 3, 11, 17, 20) for f in (1, 9)] + [dp(12, 88, 12, floor=93, fl=1, cost=30), dp(19, 88, 12, floor=93, fl=1, cost=30)] + [dp(30, n, 1, floor=28, cost=25, t=150) for n in (2, 3, 29, 40)]
  + [dp(30, 4, 1, floor=28), dp(30, 17, 1, floor=28), dp(30, 27, 3, floor=28, t=400, tier="t"), dp(30, 30, 30, floor=28, t=900, tier="t")] + [dp(k, 0, 200, floor=_LIM[k] - 2, mono=1, t=900, tier="t") for k in _LIM if _LIM[k] < 90] + [dp(k, 0, 110, floor=93, t=900, tier="t") for k in (12, 19, 23)] + [dp(k, 60, 200, floor=_LIM[k] - 2, t=900, tier="t") for k in (27,)],
  "23 nesting constructs at every depth from 0 to past the limit (compiler stack of 64, interpreter stack of 96, 512 nested programs), one arbitrary byte of data; every period-3 mixture of 8 block constructs at depths 2 to 40; endless recursion; paths, parent chains, parameters and statement lists up to 300; templates nested 2000 to 6000 deep in the parser; a depth that works implies that the one below does; the context is used again afterwards")
# ---- P13: failing allocations
def oo(op, tm=0, **kw): return R("oom", op=op, tm=tm, reach=["done"], real_hash=True, **dict(dict(t=120, cost=4, same=1), **kw))
PROPS["P13"] = P([oo(op, t) for op in (0, 1, 2, 3, 5) for t in range(17)] + [oo(0, t, rest=1) for t in range(17)] + [oo(op, t, rest=1, tier="t") for op in (1, 2, 3, 5) for t in range(17)] + [oo(8, t, cost=15) for t in range(17) if t != 16] + [oo(8, 0, be=1, cost=20), oo(8, 3, be=1, tier="t", t=600)] + [oo(8, t, be=2, cost=10) for t in (0, 3, 6, 12)] + [oo(8, t, be=2, tier="t", t=600) for t in range(16)] + [oo(op, cost=10) for op in (4, 6, 7, 9, 10, 11)] + [oo(op, rest=1, cost=10) for op in (4, 6, 7, 10, 11)],
  "every single failing allocation (and every point from which all allocations fail) in lexing, parsing, printing, compiling, serializing and rendering 17 templates that cover each construct, in value dumps and conversions, string, map and stack operations, the three caches, the partial loader and closures, with an arbitrary byte in template or data: an error of kind out-of-memory or the complete right result, nothing invalid touched, locks and files released, same result afterwards in the same and in a fresh context; allocations made by talloc inside the error report itself, and by lmdb, json-c and libyaml, do not fail")
# ---- P29: partial loader
def lo_(w, **kw): return R("load", w=w, max_steps=400000000, reach=["done"], **dict(dict(t=60, cost=3, real_hash=True), **kw))
PROPS["P29"] = P([lo_(0, n=n, len=m, base=b, ext=e) for (n, m, b, e) in ((0, 1, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (1, 3, 1, 1), (1, 2, 2, 2), (1, 2, 3, 0), (0, 2, 1, 1))] + [lo_(0, n=2, len=2), lo_(0, n=3, len=1, t=300, cost=20), lo_(0, n=1, len=300, fix=298)] + [lo_(1, l=3), lo_(1, l=3, fails=1), lo_(1, l=4, kinds=6, cost=10), lo_(1, l=4, fails=1, t=300, tier="t"), lo_(2, n=80), lo_(1, l=2, kinds=6, base=1, ext=1)] + [lo_(3, t0=t) for t in range(9)],
  "names of 0 to 3 bytes (one arbitrary, the others of five kinds), four base directories, three extensions, contents of 0 to 300 bytes; the file opened, its bytes, and that it is opened once; every history of 3 (thorough 4) lookups of 6 names with any one file operation failing; listing and count; nine templates rendered with the loader and with a map of the same partials. A file system of regular files is modelled; an empty file is an error (the test suite requires it); a partial block whose file is missing is an error, not its fallback")
# ---- P11: arbitrary templates
def an(w, **kw): return R("any", w=w, **dict(dict(t=120, cost=4, real_hash=True, reach=["done"]), **kw))
PROPS["P11"] = P([an(w, tm=m) for w in (1, 2, 3) for m in range(22)] + [an(w, tm=m, fl=1) for w in (1, 2) for m in range(22)] + [an(4, tm=m, fl=f, reach=[]) for m in range(22) for f in (0, 1)] + [an(5, tm=m, t2=q) for m in range(22) for q in (4, 7, 16, 21)] + [an(5, tm=m, t2=q, tier="t") for m in range(22) for q in range(22) if q not in (4, 7, 16, 21)]
  + [an(0, n=1, pre=a, post=z, fl=1, cost=1) for a in range(20) for z in range(11)] + [an(0, n=1, pre=a, post=z, cost=1, tier="t") for a in range(20) for z in range(11)] + [an(0, n=3), an(0, n=3, fl=1), an(0, n=4)] + [an(0, n=2, pre=a, post=z, mix=1, at=(a + z) % 2, fl=f, cost=12) for a in range(20) for (z, f) in ((1, 0), (a % 11, 1))]
  + [an(0, n=2, pre=a, post=z, mix=1, at=t, tier="t", t=300) for a in range(20) for z in range(11) for t in (0, 1)] + [an(0, n=3, pre=a, post=1, mix=1, at=a % 3, tier="t", t=900) for a in range(1, 20)],
  "every template of up to 4 bytes; every byte placed between 20 openings and 11 endings, and every byte next to each of 32 representative ones (thorough: two of those); 22 templates that cover every construct with any byte replaced by any byte, any byte inserted anywhere, cut anywhere, any span removed, and joined with the rest of another; default and compatibility mode with delimiter changes; rendered with data, partials and helpers; the context renders rightly afterwards")
# ---- P09: delimiters and outer lookup
def de(w, **kw): return R("delim", w=w, **dict(dict(t=200, cost=50 if w == 0 else 20 if w == 2 else 1, real_hash=True, reach=["done", "same"] if w == 0 else ["done"]), **kw))
PROPS["P09"] = P([de(0, pair=k) for k in (0, 3, 4, 6, 9, 17)] + [de(0, pair=k, tier="t", t=400) for k in (1, 2, 5, 7, 8, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20)] + [de(0, pair=k, spaces=s, nl=n, pair2=q, tier="t", t=400) for k in (0, 3, 9, 17) for (s, n, q) in ((1, 0, 1), (0, 1, 1), (0, 0, 17), (0, 0, 2))] + [de(0, pair=0, third=1, p0=p, tier="t", t=600) for p in range(24)]
  + [de(1, depth=n, form=f) for n in (1, 2, 3, 5) for f in range(9)] + [de(2, tail=x) for x in (3, 4, 10)] + [de(2, tail=x, tier="t") for x in (0, 1, 2, 5, 6, 7, 8, 9, 11)],
  "21 pairs of delimiters (four of them with arbitrary bytes that appear nowhere else in the template); the change placed after each of 24 pieces of template (text, mustaches, blocks, partials, triple mustaches, comments, old tags, further changes, truncated tags) and before each of them (thorough: two of them, with extra spaces or a line break, a second pair after it), one byte of which is arbitrary; against the same template with default tags and a comment for the change; outer lookup over every set of contexts that have the name, up to 5 deep, in nine forms. Outside: text ending in { directly before a tag, a backslash directly before delimiters, delimiters with a backslash, = or space, pieces in which the delimiter occurs inside the tag")
# ---- P27: JSON data
def js(w, **kw): return R("json", w=w, **dict(dict(t=300, cost=15, real_hash=True, reach=["done"]), **{("type" if k == "root" else k): v for k, v in kw.items()}))
PROPS["P27"] = P([js(0, how=h) for h in (0, 1, 2)] + [js(0, how=3, ws=1, root=6, nest=1), js(0, how=2, ws=15, root=7), js(0, ws=15, root=6, nest=2, n=1, kids=1, cost=5), js(0, ws=15, root=7, nest=2, n=1, kids=1, cost=5), js(0, how=3, root=5, n=3), js(0, root=6, kids=3, n=1, cost=20), js(0, root=7, kids=3, n=1, tier="t", t=900)] + [js(2, how=h, cost=20) for h in (0, 1, 3)]
  + [js(1, tm=x, compat=f, n=1, kids=1, nest=2) for x in range(11) for f in (0, 1)] + [js(1, tm=x, n=1, root=7, cost=24) for x in (2, 3, 6)] + [js(1, tm=0, how=2, kids=1, cost=25)] + [js(1, tm=x, compat=f, n=1, root=r, tier="t", t=900) for x in range(11) for f in (0, 1) for r in (6, 7)],
  "documents of every type: strings of up to 2 (3 alone) arbitrary bytes, integers of up to 3 arbitrary digits and at the ends of 32 and 64 bits, 6 floats, lists and objects of up to 2 (3) entries with an empty key and a key of one arbitrary byte, nested up to 2 (3) deep; four ways of handing them in, four kinds of white space; every accessor, lookup past either end, iteration, lazily and converted, 11 templates against the same tree built natively, in both modes; every truncation and one arbitrary byte behind the document. The text is parsed by json-c, of which a model for standard JSON is used (its extensions, such as comments or trailing commas, stay accepted; integers beyond 64 bits and keys with NUL bytes are json-c's limits)")
# ---- P28: YAML data
def ya(w, **kw): return R("yaml", w=w, **dict(dict(t=200, cost=3, real_hash=True, reach=["done"]), **kw))
PROPS["P28"] = P([ya(0, style=0), ya(0, style=1), ya(0, style=1, n=3, cost=10), ya(0, style=1, any=1), ya(0, style=2, n=5), ya(0, style=3, n=5), ya(0, style=3, lit=1, n=4), ya(0, style=3, lit=2, n=4), ya(0, style=1, n=4, tier="t", t=600), ya(0, style=1, n=5, tier="t", t=900)]
  + [ya(1, shape=s, n=1, **k) for s in range(7) for k in (dict(), dict(sk=1, a=1, b=1), dict(num=1, a=3, b=0))] + [ya(1, shape=s, n=2, a=1, b=1, tier="t", t=600) for s in range(5)]
  + [ya(2, shape=s, ws=w, a=a, b=b, n=1) for (s, w) in ((0, 0), (1, 1), (2, 2), (3, 5), (4, 4), (5, 0), (6, 1), (3, 12)) for (a, b) in ((0, 2), (1, 3), (2, 1), (3, 0))] + [ya(2, shape=4, a=a, n=k) for (a, k) in ((1, 3), (2, 3), (3, 3))] + [ya(2, shape=0, a=9, b=9, n=2, tier="t", t=600)]
  + [ya(3, bad=b) for b in range(12)],
  "plain scalars of 42 chosen words and of up to 3 (thorough 5) arbitrary bytes, quoted, literal and folded ones of up to 5; seven shapes of documents nested up to 3 deep, built node by node and written as flow style text with four kinds of white space, several documents; every truncation of a text, text behind the document, aliases to an enclosing node, unknown aliases, keys that are no scalars, the empty stream. libyaml parses the text; a model of it for flow style is used (block style, explicit tags and merge keys are not covered; explicit tags are ignored by the library)")
