#!/usr/bin/env python3
"""Writes the family of derived declarations explored by mcd, each with the schema its attributes document.

usage: gen.py OUT.rs quick|thorough [EXCLUDED_KEY...]

Every declaration is a module of its own that imports nothing but the derive macro. The schema is the plain
data of the declaration (layout, fields, tag, start, skips); how it is numbered and laid out on the wire is
worked out by the interpreter in src/schema.rs, not here.
"""
import itertools, sys

LEAF = {
    "u8": ("u8", "Ty::U8"), "u16": ("u16", "Ty::U16"), "u32": ("u32", "Ty::U32"), "u64": ("u64", "Ty::U64"),
    "bool": ("bool", "Ty::Bool"), "str": ("String", "Ty::Str"), "bytes": ("Vec<u8>", "Ty::Bytes"),
    "arr2": ("[u8; 2]", "Ty::Arr2"), "scalar": ("cbored::Scalar", "Ty::Scalar"),
    "data": ("cbored::DataOwned", "Ty::Data"), "ofu64": ("cbored::CborDataOf<u64>", "Ty::OfU64"),
}
LEAVES = list(LEAF)


class D:
    """one declaration"""
    def __init__(self, key, kind, **kw):
        self.key, self.kind = key, kind
        self.__dict__.update(kw)


decls = []
index = {}


def add(d):
    assert d.key not in index, d.key
    index[d.key] = d
    decls.append(d)
    return d.key


def ref(key):
    return ("d", key)


def lst(t):
    return ("list", t)


def vlist(t):
    return ("vlist", t)  # list by #[cborrepr(variant = "vec")], whatever the type looks like


def rec(key, layout, types, named=True, tag=None, start=None, skips=(), opt=None, names=None, attrs=None):
    """opt[i]: field i is optional (mapint), the last one of array_lastopt always is"""
    n = len(types)
    if opt is None:
        opt = [False] * n
    if layout == "array_lastopt":
        opt = [False] * (n - 1) + [True]
    return add(D(key, "rec", layout=layout, types=list(types), named=named, tag=tag, start=start, skips=list(skips),
                 opt=list(opt), names=names, attrs=attrs))


def enum(key, how, variants, start=None, skips=(), attrs=None):
    """variants: (name, shape) with shape None | ("t", [types]) | ("n", [(name, type)]); for enumtype (name, shape, cbortype)"""
    return add(D(key, "enum", how=how, variants=variants, start=start, skips=list(skips), attrs=attrs))


# ---------------------------------------------------------------- rust text

def rty(t):
    if isinstance(t, str):
        return LEAF[t][0]
    if t[0] in ("list", "vlist"):
        return f"Vec<{rty(t[1])}>"
    return f"super::{t[1]}::T"


def sty(t):
    if isinstance(t, str):
        return LEAF[t][1]
    if t[0] in ("list", "vlist"):
        return f"Ty::List(&{sty(t[1])})"
    return f"Ty::D({num[t[1]]})"


def to_val(t, e):
    """expression of type Val from the reference expression e"""
    if isinstance(t, str):
        return f"rt::to_{t}({e})"
    if t[0] in ("list", "vlist"):
        return f"Val::List({e}.iter().map(|x| {to_val(t[1], 'x')}).collect())"
    return f"rt::Dv::to_val({e})"


def from_val(t, e):
    if isinstance(t, str):
        return f"rt::from_{t}({e})"
    if t[0] in ("list", "vlist"):
        return f"rt::items({e}).iter().map(|x| {from_val(t[1], 'x')}).collect()"
    return f"rt::Dv::from_val({e})"


def lit_int(n):
    return str(n)


def rec_names(d):
    if d.names:
        return d.names
    return [f"{d.key}f{i}" for i in range(len(d.types))]


def rec_src(d):
    a = []
    if d.attrs is not None:
        a = d.attrs
    else:
        p = [f'structure = "{d.layout}"']
        if d.tag is not None:
            p.append(f"tag = {lit_int(d.tag)}")
        if d.start is not None:
            p.append(f"map_starts_at = {d.start}")
        for s in d.skips:
            p.append(f"skipkey = {s}")
        a = [", ".join(p)]
    out = ["#[derive(CborRepr)]"] + [f"#[cborrepr({x})]" for x in a]
    names = rec_names(d)
    if d.named:
        out.append("pub struct T {")
        for i, (n, t) in enumerate(zip(names, d.types)):
            if d.layout == "mapint" and not d.opt[i]:
                out.append("    #[cborrepr(mandatory)]")
            ty = rty(t)
            if d.opt[i]:
                ty = f"Option<{ty}>"
            out.append(f"    pub {n}: {ty},")
        out.append("}")
    else:
        out.append("pub struct T(" + ", ".join(f"pub {rty(t)}" for t in d.types) + ");")
    return out


def rec_impl(d):
    names = rec_names(d)
    acc = names if d.named else [str(i) for i in range(len(d.types))]
    tv, fv = [], []
    for i, (n, t) in enumerate(zip(acc, d.types)):
        if d.opt[i]:
            tv.append(f"self.{n}.as_ref().map(|x| {to_val(t, 'x')})")
            v = f"rt::opt(v, {i}).map(|x| {from_val(t, 'x')})"
        else:
            tv.append(f"Some({to_val(t, f'&self.{n}')})")
            v = from_val(t, f"rt::field(v, {i})")
        fv.append(f"{n}: {v}" if d.named else v)
    b = "Self { " + ", ".join(fv) + " }" if d.named else "Self(" + ", ".join(fv) + ")"
    return ["impl rt::Dv for T {",
            f"    fn to_val(&self) -> Val {{ Val::Rec(vec![{', '.join(tv)}]) }}",
            f"    fn from_val(v: &Val) -> Self {{ let _ = v; {b} }}",
            "}"]


def rec_schema(d):
    fs = ", ".join(f'F {{ name: "{n}", ty: {sty(t)}, opt: {str(o).lower()} }}'
                   for n, t, o in zip(rec_names(d), d.types, d.opt))
    lay = {"flat": "Flat", "array": "Array", "array_lastopt": "LastOpt", "mapint": "Map"}[d.layout]
    tag = "None" if d.tag is None else f"Some({d.tag})"
    return (f"Schema::Rec(Rec {{ layout: Layout::{lay}, named: {str(d.named).lower()}, tag: {tag}, start: {d.start or 0}, "
            f"skips: &{d.skips}, fields: &[{fs}] }})")


def enum_src(d):
    if d.attrs is not None:
        a = d.attrs
    else:
        p = [f'enumtype = "{d.how}"']
        if d.start is not None:
            p.append(f"variant_starts_at = {d.start}")
        for s in d.skips:
            p.append(f"skipkey = {s}")
        a = [", ".join(p)]
    out = ["#[derive(CborRepr)]"] + [f"#[cborrepr({x})]" for x in a]
    out.append("pub enum T {")
    for v in d.variants:
        if d.how == "enumtype":
            out.append(f'    #[cborrepr(cbortype = "{v[2]}")]')
        sh = v[1]
        if sh is None:
            out.append(f"    {v[0]},")
        elif sh[0] == "t":
            fs = ", ".join(('#[cborrepr(variant = "vec")] ' if not isinstance(t, str) and t[0] == "vlist" else "") + rty(t)
                           for t in sh[1])
            out.append(f"    {v[0]}({fs}),")
        else:
            fs = ", ".join(f"{n}: {rty(t)}" for n, t in sh[1])
            out.append(f"    {v[0]} {{ {fs} }},")
    out.append("}")
    return out


def enum_impl(d):
    tv, fv = [], []
    for i, v in enumerate(d.variants):
        sh = v[1]
        types = [] if sh is None else ([t for t in sh[1]] if sh[0] == "t" else [t for _, t in sh[1]])
        names = [f"a{j}" for j in range(len(types))]
        vals = ", ".join(to_val(t, n) for n, t in zip(names, types))
        frs = [from_val(t, f"rt::sub(v, {j})") for j, t in enumerate(types)]
        if sh is None:
            pat, con = "", ""
        elif sh[0] == "t":
            pat, con = f"({', '.join(names)})", f"({', '.join(frs)})"
        else:
            fn = [n for n, _ in sh[1]]
            pat = " { " + ", ".join(f"{n}: {a}" for n, a in zip(fn, names)) + " }"
            con = " { " + ", ".join(f"{n}: {x}" for n, x in zip(fn, frs)) + " }"
        tv.append(f"T::{v[0]}{pat} => Val::Var({i}, vec![{vals}]),")
        fv.append(f"{i} => T::{v[0]}{con},")
    return ["impl rt::Dv for T {",
            f"    fn to_val(&self) -> Val {{ match self {{ {' '.join(tv)} }} }}",
            f"    fn from_val(v: &Val) -> Self {{ match rt::variant(v) {{ {' '.join(fv)} _ => unreachable!() }} }}",
            "}"]


def enum_schema(d):
    vs = []
    for v in d.variants:
        sh = v[1]
        types = [] if sh is None else ([t for t in sh[1]] if sh[0] == "t" else [t for _, t in sh[1]])
        names = [] if sh is None or sh[0] == "t" else [n for n, _ in sh[1]]
        k = "None"
        if d.how == "enumtype":
            k = "Some(K::" + {"positive": "Pos", "negative": "Neg", "array": "Array", "map": "Map", "tag": "Tag",
                              "bytes": "Bytes", "text": "Text", "null": "Null"}[v[2]] + ")"
        vs.append(f'V {{ name: "{v[0]}", kind: {k}, fields: &[{", ".join(sty(t) for t in types)}], '
                  f'names: &[{", ".join(chr(34) + n + chr(34) for n in names)}] }}')
    how = {"enumint": "Int", "tagvariant": "Tagged", "enumtype": "ByType"}[d.how]
    return (f"Schema::Enum(Enum {{ how: How::{how}, start: {d.start or 0}, skips: &{d.skips}, variants: &[{', '.join(vs)}] }})")


# ---------------------------------------------------------------- the family

COMBOS = [(None, []), (1, []), (None, [0]), (None, [1]), (1, [1]), (1, [2, 3]), (2, [0]), (None, [2, 1]), (5, [6]),
          (22, []), (22, [23]), (None, [0, 1, 2]), (254, [256]), (65534, []), (4294967295, []), (62, [63]), (None, [1, 1]),
          (10, [3, 12]), (4294967296, []), (4294967301, [4294967302]), (1 << 63, [(1 << 63) + 1]), ((1 << 64) - 9, []),
          (255, []), (65535, [65536]), (4294967294, [4294967296]), (0, [256, 257]), (23, [24, 25, 26])]

# (start, skips) with many gaps, kept few: consecutive, every other, scattered, out of order
MANY = []
for _n in (5, 8, 9, 16, 17, 32, 33, 64, 65, 100):
    MANY.append((None, list(range(_n))))
    MANY.append((2, [3 + 2 * _i for _i in range(_n)]))
    MANY.append((None, [(7 * _i) % (_n + 1) for _i in range(_n)]))
MANY.append((20, list(range(21, 21 + 240))))
MANY.append((None, list(range(300))))


def family(th):
    # documented examples
    rec("readme_point", "array", ["u32", "u32"], names=["x", "y"])
    rec("readme_lastopt", "array_lastopt", ["u32", "u32"], names=["x", "y"])
    rec("readme_flat", "flat", ["u32", "u32"], names=["x", "y"])
    rec("readme_map", "mapint", ["u32", "u32", "u32"], names=["x", "y", "z"], opt=[False, False, True])
    enum("readme_variant", "tagvariant", [("One", ("t", ["u32"])), ("Two", ("t", ["u64", "str"])),
                                          ("Three", ("t", [ref("readme_point")])), ("Four", None)])
    enum("readme_code", "enumint", [("Code1", None), ("Code2", None), ("Code3", None)])
    enum("readme_empty", "enumtype", [("Empty", None, "null"), ("One", ("t", ["u64"]), "positive")])
    enum("example_variant", "tagvariant", [("One", ("t", ["u32"])), ("Two", ("t", ["u64", "str"])),
                                           ("Three", ("t", [ref("readme_point")])), ("Four", None)], skips=[1])
    # attribute spellings
    rec("a_default_flat", "flat", ["u8", "str"], attrs=[])
    decls[-1].attrs = []
    rec("a_split", "mapint", ["u8", "bool"], tag=300, start=3, skips=[4], opt=[False, True],
        attrs=['structure = "mapint"', "tag = 300", "map_starts_at = 3", "skipkey = 4"])
    rec("a_literals", "array", ["u8"], tag=0x1234, attrs=['tag = 0x1234, structure = "array"'])
    rec("a_literals2", "mapint", ["u8", "u8"], start=1000, skips=[1000], tag=4096, opt=[False, True],
        attrs=['skipkey = 1_000u64, map_starts_at = 1_000, tag = 0b1_0000_0000_0000, structure = "mapint"'])
    rec("a_last_wins", "array", ["u8"], attrs=['structure = "flat"', 'structure = "array"'])
    enum("a_default_tagged", "tagvariant", [("A", None), ("B", ("t", ["u8"]))], attrs=[])
    enum("a_split_enum", "enumint", [("A", None), ("B", None), ("C", None)], start=2, skips=[3],
         attrs=["variant_starts_at = 2", "skipkey = 3", 'enumtype = "enumint"'])
    # arrays and flat
    base = ["u8", "str", "u64", "bool", "bytes"]
    for n in range(0, 5):
        for named in (True, False):
            for tag in (None, 24):
                rec(f"arr{n}{'n' if named else 'u'}{'t' if tag else ''}", "array", base[:n], named=named, tag=tag)
            rec(f"flat{n}{'n' if named else 'u'}", "flat", base[:n], named=named)
    for named in (True, False):
        rec(f"flat1{'n' if named else 'u'}t", "flat", ["u64"], named=named, tag=2)
        rec(f"flat1{'n' if named else 'u'}s", "flat", ["str"], named=named, tag=65536)
    for i, t in enumerate([0, 1, 5, 23, 255, 256, 65535, 65536, 4294967295, 4294967296, 1 << 63, (1 << 64) - 1]):
        rec(f"tag{i}", "array", ["u8", "bool"], tag=t)
        rec(f"tagm{i}", "mapint", ["u8", "bool"], tag=t, opt=[False, True])
    # optional last field
    for n in range(1, 5):
        for tag in (None, 7):
            for k, last in enumerate(["u8", "str", "data", ref("readme_point"), "bytes"]):
                if k >= 2 and (n == 4 or tag):
                    continue
                rec(f"lo{n}_{k}{'t' if tag else ''}", "array_lastopt", base[:n - 1] + [last], tag=tag)
    # maps
    types = ["u8", "str", "bool", "u64"]
    for n in (0, 1, 2, 3, 4):
        masks = range(1 << n) if n < 4 else [0, 15, 5, 10]
        combos = {0: COMBOS[:3], 1: COMBOS, 2: COMBOS, 3: COMBOS[::2], 4: COMBOS[1::5]}[n]
        if th and n == 3:
            combos = COMBOS
        for m in masks:
            for ci, (st, sk) in enumerate(combos):
                rec(f"m{n}_{m}_{ci}", "mapint", types[:n], start=st, skips=sk, opt=[bool(m >> i & 1) for i in range(n)])
    for st in (0, 2) if not th else (0, 1, 2, 5, 30):
        for sub in range(16):
            for m in ([5] if not th else [0, 2, 5]):
                rec(f"ms{st}_{sub}_{m}", "mapint", ["u8", "u64", "bool"], start=st,
                    skips=[st + i for i in range(4) if sub >> i & 1], opt=[bool(m >> i & 1) for i in range(3)])
    for ci, (st, sk) in enumerate(MANY):
        rec(f"mm{ci}", "mapint", ["u8", "u64", "bool"], start=st, skips=sk, opt=[False, True, ci % 2 == 0])
    for ci in (1, 4, 10, 13):
        rec(f"mmw{ci}", "mapint", ["u8"] * 12, start=MANY[ci][0], skips=MANY[ci][1], opt=[i % 3 == 1 for i in range(12)])
    rec("mtag", "mapint", ["u8", "str"], tag=121, start=1, opt=[False, True])
    # wide records
    for n in (24, 40, 64):
        rec(f"wide_map{n}", "mapint", ["u8"] * n, opt=[i % 3 == 1 for i in range(n)])
    rec("wide_map_skip", "mapint", ["u8"] * 40, start=20, skips=[31, 32, 63, 64], opt=[i % 2 == 0 for i in range(40)])
    rec("wide_arr24", "array", ["u8"] * 24)
    rec("wide_arr30u", "array", ["u8"] * 30, named=False)
    rec("wide_lo25", "array_lastopt", ["u8"] * 25)
    rec("wide_arr257", "array", ["u8"] * 257)
    rec("wide_lo256", "array_lastopt", ["u8"] * 256)
    rec("wide_flat65", "flat", ["u8"] * 65)
    rec("wide_map64k", "mapint", ["u8"] * 64, start=200, skips=[230], opt=[True] * 64)
    # every leaf type in every layout
    for t in LEAVES:
        rec(f"t_arr_{t}", "array", [t, "u8"])
        rec(f"t_arr2_{t}", "array", ["bool", t])
        rec(f"t_arru_{t}", "array", [t], named=False)
        rec(f"t_flat_{t}", "flat", ["u8", t])
        rec(f"t_flatt_{t}", "flat", [t], tag=9)
        rec(f"t_man_{t}", "mapint", [t, "u8"], opt=[False, True])
        rec(f"t_opt_{t}", "mapint", ["u8", t], opt=[False, True])
        rec(f"t_lo_{t}", "array_lastopt", ["u8", t])
    # nesting
    rec("i_arr", "array", ["u8", "str"])
    rec("i_lo", "array_lastopt", ["u8", "bool"])
    rec("i_map", "mapint", ["u8", "bool"], opt=[False, True], start=1)
    rec("i_tarr", "array", ["u8"], tag=30)
    rec("i_tflat", "flat", ["u64"], tag=31)
    rec("i_flat1", "flat", ["u8"])
    rec("i_flat1u", "flat", ["str"], named=False)
    enum("i_int", "enumint", [("A", None), ("B", None)], start=1)
    enum("i_tv", "tagvariant", [("A", None), ("B", ("t", ["u8"])), ("C", ("n", [("cx", "bool"), ("cy", "str")]))])
    enum("i_ty", "enumtype", [("N", None, "null"), ("P", ("t", ["u64"]), "positive"), ("S", ("t", ["str"]), "text")])
    inner = ["i_arr", "i_lo", "i_map", "i_tarr", "i_tflat", "i_flat1", "i_flat1u", "i_int", "i_tv", "i_ty"]
    for i in inner:
        rec(f"n_arr_{i}", "array", ["u8", ref(i)])
        rec(f"n_man_{i}", "mapint", [ref(i), "u8"], opt=[False, True])
        rec(f"n_opt_{i}", "mapint", ["u8", ref(i)], opt=[False, True], skips=[1])
        rec(f"n_flat_{i}", "flat", [ref(i), "u8"])
        rec(f"n_lo_{i}", "array_lastopt", [ref(i), ref(i)])
        rec(f"n_tag_{i}", "array", [ref(i)], tag=40)
        rec(f"n_ftag_{i}", "flat", [ref(i)], tag=41)
        enum(f"ne_tv_{i}", "tagvariant", [("A", ("t", [ref(i)])), ("B", ("n", [("q", ref(i)), ("r", "u8")]))])
        enum(f"ne_list_{i}", "tagvariant", [("A", ("t", ["u8", lst(ref(i))])), ("B", ("t", [lst(ref(i)), "u8"]))])
    for i in ["i_arr", "i_map", "i_lo", "i_tv"]:
        rec(f"n2_{i}", "array", [ref(f"n_opt_{i}"), ref(f"n_arr_{i}")])
        rec(f"n3_{i}", "mapint", [ref(f"n2_{i}"), "u8"], opt=[True, True], start=7)
    # integer enums
    for n in (1, 2, 3):
        for ci, (st, sk) in enumerate(COMBOS if n == 3 else COMBOS[::3]):
            enum(f"e{n}_{ci}", "enumint", [("ABCDEFG"[i], None) for i in range(n)], start=st, skips=sk)
    for st in (0, 1) if not th else (0, 1, 2, 7, 22):
        for sub in range(16 if not th else 32):
            enum(f"es{st}_{sub}", "enumint", [("A", None), ("B", None), ("C", None)], start=st,
                 skips=[st + i for i in range(5) if sub >> i & 1])
    for ci, (st, sk) in enumerate(MANY):
        enum(f"em{ci}", "enumint", [("A", None), ("B", None), ("C", None)], start=st, skips=sk)
        enum(f"tvm{ci}", "tagvariant", [("A", None), ("B", ("t", ["u64"])), ("C", ("n", [("z", "bool")]))], start=st, skips=sk)
    for ci in (1, 4, 10, 13):
        enum(f"emw{ci}", "enumint", [(f"V{i}", None) for i in range(12)], start=MANY[ci][0], skips=MANY[ci][1])
    for n, st, sk in ((30, None, []), (26, 3, [5, 24]), (300, None, [255]), (300, 10, [])):
        enum(f"e_wide{n}_{st or 0}", "enumint", [(f"V{i}", None) for i in range(n)], start=st, skips=sk)
    # tagged enums
    shapes = {
        "u": None, "t1": ("t", ["u64"]), "t2": ("t", ["u64", "str"]), "n1": ("n", [("na", "u8")]),
        "n2": ("n", [("nb", "u8"), ("nc", "bool")]), "l": ("t", [lst("u64")]), "b": ("t", ["bytes"]),
        "ls": ("t", [lst("str"), "u8"]), "lr": ("t", [lst(ref("i_arr"))]), "t3": ("t", ["u8", "u8", "u8"]),
        "vl": ("t", [vlist("u8")]), "lb": ("t", [lst("bool"), lst("bytes")]), "td": ("t", ["data", "scalar"]),
    }
    for s, sh in shapes.items():
        enum(f"tv1_{s}", "tagvariant", [("A", sh)])
        enum(f"tv2_{s}", "tagvariant", [("A", ("t", ["bool"])), ("B", sh)], start=1)
    ks = list(shapes)
    for a, b in itertools.permutations(ks, 2) if th else zip(ks, ks[1:] + ks[:1]):
        enum(f"tvp_{a}_{b}", "tagvariant", [("A", shapes[a]), ("B", shapes[b]), ("C", None)])
    for ci, (st, sk) in enumerate(COMBOS):
        enum(f"tvn_{ci}", "tagvariant", [("A", None), ("B", ("t", ["u64"])), ("C", ("t", ["u64", "str"])), ("D", None)],
             start=st, skips=sk)
    for st in (0, 3):
        for sub in range(16):
            enum(f"tvs{st}_{sub}", "tagvariant", [("A", ("t", ["u8"])), ("B", ("t", ["u8"])), ("C", ("t", ["u8"]))], start=st,
                 skips=[st + i for i in range(4) if sub >> i & 1])
    enum("tv_wide", "tagvariant", [(f"V{i}", None if i % 2 else ("t", ["u8"])) for i in range(30)])
    enum("tv_wide300", "tagvariant", [(f"V{i}", None if i % 2 else ("t", ["u8"])) for i in range(300)], skips=[255])
    enum("tv_many_fields2", "tagvariant", [("A", ("t", ["u8"] * 255)), ("B", ("t", ["u8"] * 64)), ("C", ("t", ["u8"] * 256))])
    enum("tv_many_fields", "tagvariant", [("A", ("t", ["u8"] * 25)), ("B", ("t", ["u8"] * 22)), ("C", ("t", ["u8"] * 23))])
    # by type
    pay = {
        "positive": ["u64", "u8", ref("i_int"), "scalar"], "negative": ["scalar", "data"],
        "array": [ref("i_arr"), ref("i_tv"), "data", ref("i_lo")], "map": [ref("i_map"), "data"],
        "tag": [ref("i_tarr"), ref("i_tflat"), "data"], "bytes": ["bytes", "arr2"], "text": ["str"], "null": [None],
    }
    kinds = list(pay)

    def by(key, ks, k=0, named=False):
        vs = []
        for i, c in enumerate(ks):
            p = pay[c][k % len(pay[c])]
            sh = None if p is None else (("n", [(f"p{i}", p)]) if named else ("t", [p]))
            vs.append((f"V{i}", sh, c))
        enum(key, "enumtype", vs)
    for c in kinds:
        for k in range(len(pay[c])):
            by(f"ty1_{c}{k}", [c], k)
            by(f"ty1n_{c}{k}", [c], k, True)
    for i, (a, b) in enumerate(itertools.combinations(kinds, 2)):
        by(f"ty2_{i}", [a, b] if i % 2 else [b, a], i)
    for i, ks3 in enumerate(itertools.combinations(kinds, 3)):
        if th or i % 4 == 0:
            by(f"ty3_{i}", list(ks3), i, i % 3 == 0)
    by("ty8", kinds)
    by("ty8r", kinds[::-1], 1, True)
    # inside a record
    for k in ("ty8", "tv_wide", "e_wide30_0"):
        rec(f"nx_{k}", "array", [ref(k), "u8"])
        rec(f"nxo_{k}", "mapint", [ref(k), "u8"], opt=[True, False])


def deps(t, acc):
    if not isinstance(t, str):
        if t[0] == "d":
            acc.add(t[1])
        else:
            deps(t[1], acc)


def types_of(d):
    if d.kind == "rec":
        return d.types
    r = []
    for v in d.variants:
        if v[1] is not None:
            r += v[1][1] if v[1][0] == "t" else [t for _, t in v[1][1]]
    return r


def main():
    global num
    out, tier, excl = sys.argv[1], sys.argv[2], set(sys.argv[3:])
    family(tier == "thorough")
    keep = []
    for d in decls:
        ds = set()
        for t in types_of(d):
            deps(t, ds)
        if d.key in excl or ds & excl:
            excl.add(d.key)
        else:
            keep.append(d)
    num = {d.key: i for i, d in enumerate(keep)}
    L = ["// generated by gen.py", "use crate::rt; use crate::schema::*; use mc::refm::K;"]
    spans = []
    for d in keep:
        a = len(L) + 1
        src = rec_src(d) if d.kind == "rec" else enum_src(d)
        L.append(f"pub mod {d.key} {{")
        L.append("use cbored::CborRepr;")
        L += src
        L.append("mod imp { use super::*; use crate::rt; use crate::schema::Val;")
        L += [x for x in (rec_impl(d) if d.kind == "rec" else enum_impl(d))]
        L.append("} }")
        spans.append((a, len(L), d.kind, d.key))
    L.append("pub static DECLS: &[Decl] = &[")
    for d in keep:
        src = "\n".join(rec_src(d) if d.kind == "rec" else enum_src(d))
        sch = rec_schema(d) if d.kind == "rec" else enum_schema(d)
        L.append(f'Decl {{ key: "{d.key}", src: r####"{src}"####, schema: {sch}, enc: rt::enc::<{d.key}::T>, dec: rt::dec::<{d.key}::T> }},')
    L.append("];")
    text = "\n".join(L) + "\n"
    try:
        if open(out).read() == text:
            text = None
    except OSError:
        pass
    if text is not None:
        open(out, "w").write(text)
    open(out + ".spans", "w").write("".join(f"{a} {b} {k} {key}\n" for a, b, k, key in spans))
    print(f"{len(keep)} declarations ({sum(d.kind == 'rec' for d in keep)} records, {sum(d.kind == 'enum' for d in keep)} enums)")


main()
