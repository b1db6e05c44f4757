"""C04: a native routine returns the data type it declares."""
RULE = ("the declared type of every exported routine is read from its field function and the type of every value it can return from the typed constructors in its code (into_series of a ChunkedArray<T>, builders, struct columns, "
        "frames); on every path they must agree: same dtype, same list element, same field names in the same order")
TECHNIQUE = "type inference over the values found by path-sensitive abstract interpretation of MIR, against the declared schema"
TRUST = ["map_to_float_dtype keeps Float32 and maps every other type to Float64 (read in the pinned polars-plan)", "Polars' type-preserving operations preserve types"]
from ..plugs import Plugs
from ..msym import mk, show, walk
from ..nf import TooBig
from ..dtypes import Returned, declared, differ, tstr, ACC, name_of_dtype, at
from ..rowlen import call, last

# routines whose linear-algebra helpers are left closed
BIG = {"pl_lstsq_pred", "pl_lstsq_pred_f32"}
NUMBER = {1: "UInt8", 2: "UInt16", 3: "UInt32", 4: "UInt64", 5: "Int8", 6: "Int16", 7: "Int32", 8: "Int64", 9: "Int128", 10: "Float32", 11: "Float64"}
INTS = {"UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Int128"}

def input_type(conds, k):
    """what the path knows of the type of input k: a set of types, or None"""
    known = None
    for c, b in conds:
        s = None
        if c.k == "disc" and at(ofdtype(c.a[0])) == ("In", k): s = {NUMBER[b]} if isinstance(b, int) and not isinstance(b, bool) and b in NUMBER else None
        elif c.k == "bin" and c.a[0] == "Eq" and b is True:
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                if at(ofdtype(x)) == ("In", k) and isinstance(name_of_dtype(y), str): s = {name_of_dtype(y)}
        elif c.k == "call" and last(c) == "is_integer" and b is True and at(ofdtype(c.a[2])) == ("In", k): s = INTS
        elif c.k == "has" and b is True and c.a[0].k == "call" and c.a[0].a[0].startswith("Series::") and last(c.a[0]) in ACC and at(c.a[0].a[2]) == ("In", k): s = {ACC[last(c.a[0])]}
        if s: known = s if known is None else known & s
    return known
def ofdtype(t):
    a = call(t, "dtype")
    return a[0] if a else t

def resolve(d, conds):
    """declared type(s) on a path"""
    if d == "float of input 0":
        k = input_type(conds, 0)
        if k is None: return None
        return "/".join(sorted({"Float32" if x == "Float32" else "Float64" for x in k}))
    return d
def promised(ds, conds):
    """the type declared for a path: the alternatives of the field function whose conditions the path does not contradict"""
    facts = {c: b for c, b in conds}
    ts = {known(resolve(t, conds), conds) for c, t in ds if all(facts.get(k, b) == b for k, b in c.items())}
    return next(iter(ts)) if len(ts) == 1 else None
def known(t, conds):
    if isinstance(t, tuple) and t[0] == "In":
        k = input_type(conds, t[1])
        return "/".join(sorted(k)) if k else t
    if isinstance(t, tuple) and t[0] in ("List", "Array"): return (t[0], known(t[1], conds)) + t[2:]
    if isinstance(t, tuple) and t[0] == "Struct" and t[1] is not None: return ("Struct", tuple((n, known(x, conds)) for n, x in t[1]))
    return t

def full(t):
    if t is None: return False
    if isinstance(t, str): return True
    if t[0] == "Struct": return t[1] is not None and all(n is not None and full(x) for n, x in t[1])
    if t[0] == "In": return True
    return full(t[1])

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    for sym, p in sorted(P.n.plugins.items()):
        ds = declared(P, p)
        rep.count("routines")
        if not ds or any(t is None for c, t in ds):
            rep.undecide(sym, "declared type not read: " + str(ds)); continue
        q = P.nf(max_paths=20000, opaque=set(P.opaque) | {"faer_solve_lstsq", "faer_coordinate_descent", "faer_weighted_lstsq", "faer_nn_lstsq", "faer_nn_lstsq_f32", "series_to_mat_for_lstsq"}) if sym in BIG else P.nf()
        try: ps = q.run_fn(p.body)
        except TooBig: rep.undecide(sym, "not read within the budget"); continue
        R = Returned(P)
        seen = {}
        for x in ps:
            if x.outcome != "return" or x.value is None: continue
            v = x.value
            if v.k == "var" and v.a[0] == "Err": continue
            t = known(R.of(v), x.conds)
            d = promised(ds, x.conds)
            seen.setdefault((d, t), (v, x.conds))
        if not seen: rep.undecide(sym, "no value found")
        for (d, t), (v, c) in sorted(seen.items(), key=str):
            rep.count("declared_returned_pairs")
            if d is None or t is None:
                rep.undecide(sym, "%s not read: %s" % ("declared type" if d is None else "returned type", show(v, 6)[:200])); continue
            why = differ(d, t)
            if why: rep.check((sym, tstr(d), tstr(t)), False, "%s: declares %s but returns %s: %s" % (sym, tstr(d), tstr(t), why))
            else:
                rep.check((sym, tstr(d), tstr(t)), True, "")
                rep.count("fully_read" if full(t) and full(d) else "partly_read")
    rep.floor("routines", 90); rep.floor("fully_read", 70)
