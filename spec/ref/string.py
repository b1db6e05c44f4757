"""Reference definitions of exprs/string.py: which native routine each documented option selects and what it is given."""
import polars as pl
from polars_ds._utils import pl_plugin, str_to_expr as E

def _flag(b): return pl.lit(b, pl.Boolean)
def _pair(symbol, c, other, parallel): return pl_plugin(symbol=symbol, args=[E(c), E(other), _flag(parallel)])
def _map(symbol, c): return pl_plugin(symbol=symbol, args=[E(c)], is_elementwise=True)

def filter_by_levenshtein(c: "str | pl.Expr", other: "str | pl.Expr", bound: "int", parallel: "bool"):
    return pl_plugin(symbol="pl_levenshtein_filter", args=[E(c), E(other), pl.lit(abs(bound), pl.UInt32), _flag(parallel)])
def filter_by_hamming(c: "str | pl.Expr", other: "str | pl.Expr", bound: "int", parallel: "bool"):
    return pl_plugin(symbol="pl_hamming_filter", args=[E(c), E(other), pl.lit(bound, dtype=pl.UInt32), _flag(parallel)])
def str_hamming(c: "str | pl.Expr", other: "str | pl.Expr", pad: "bool", parallel: "bool"):
    return _pair("pl_hamming_padded" if pad else "pl_hamming", c, other, parallel)
def is_stopword(c: "str | pl.Expr"): return _map("pl_is_stopword", c)
def to_camel_case(c: "str | pl.Expr"): return _map("pl_to_camel", c)
def to_snake_case(c: "str | pl.Expr"): return _map("pl_to_snake", c)
def to_pascal_case(c: "str | pl.Expr"): return _map("pl_to_pascal", c)
def to_constant_case(c: "str | pl.Expr"): return _map("pl_to_constant", c)
def str_nearest(c: "str | pl.Expr", word: "str", threshold: "{100}", metric: "{'lv','hamming'}"):
    return pl_plugin(symbol="pl_nearest_str", args=[E(c)], kwargs={"word": word, "metric": metric, "threshold": threshold}, returns_scalar=True)
def str_snowball(c: "str | pl.Expr", no_stopwords: "bool"):
    return pl_plugin(symbol="pl_snowball_stem", args=[E(c), _flag(no_stopwords)], is_elementwise=True)
def str_tokenize(c: "str | pl.Expr", pattern: "str", stem: "bool"):
    words = E(c).str.extract_all(pattern)
    if not stem: return words
    return words.list.eval(pl_plugin(symbol="pl_snowball_stem", args=[pl.element(), _flag(True)], is_elementwise=True).drop_nulls())
def _grams(symbol, c, other, n, *extra, parallel):
    return pl_plugin(symbol=symbol, args=[E(c), E(other), pl.lit(n, pl.UInt32)] + [pl.lit(x, pl.Float64) for x in extra] + [_flag(parallel)])
def str_jaccard(c: "str | pl.Expr", other: "str | pl.Expr", substr_size: "int", parallel: "bool"): return _grams("pl_str_jaccard", c, other, substr_size, parallel=parallel)
def str_overlap_coeff(c: "str | pl.Expr", other: "str | pl.Expr", substr_size: "int", parallel: "bool"): return _grams("pl_overlap_coeff", c, other, substr_size, parallel=parallel)
def str_sorensen_dice(c: "str | pl.Expr", other: "str | pl.Expr", substr_size: "int", parallel: "bool"): return _grams("pl_sorensen_dice", c, other, substr_size, parallel=parallel)
def str_tversky_sim(c: "str | pl.Expr", other: "str | pl.Expr", alpha: "{0.5}", beta: "{0.25}", substr_size: "int", parallel: "bool"):
    return _grams("pl_tversky_sim", c, other, substr_size, alpha, beta, parallel=parallel)
def str_jw(c: "str | pl.Expr", other: "str | pl.Expr", weight: "float", parallel: "bool"):
    return pl_plugin(symbol="pl_jw", args=[E(c), E(other), pl.lit(weight, pl.Float64), _flag(parallel)])
def str_jaro(c: "str | pl.Expr", other: "str | pl.Expr", parallel: "bool"):
    return pl_plugin(symbol="pl_jaro", args=[E(c), E(other), _flag(parallel)], is_elementwise=True)
def str_d_leven(c: "str | pl.Expr", other: "str | pl.Expr", parallel: "bool", return_sim: "bool"):
    return _pair("pl_d_levenshtein_sim" if return_sim else "pl_d_levenshtein", c, other, parallel)
def str_leven(c: "str | pl.Expr", other: "str | pl.Expr", parallel: "bool", return_sim: "bool"):
    return _pair("pl_levenshtein_sim" if return_sim else "pl_levenshtein", c, other, parallel)
def str_lcs_seq(c: "str | pl.Expr", other: "str | pl.Expr", parallel: "bool", return_sim: "bool"):
    return _pair("pl_lcs_sim" if return_sim else "pl_lcs_seq", c, other, parallel)
def str_osa(c: "str | pl.Expr", other: "str | pl.Expr", parallel: "bool", return_sim: "bool"):
    return _pair("pl_osa_sim" if return_sim else "pl_osa", c, other, parallel)
def str_fuzz(c: "str | pl.Expr", other: "str | pl.Expr", parallel: "bool"): return _pair("pl_fuzz", c, other, parallel)

def similar_to_vocab(c: "str | pl.Expr", vocab: "list[str]", threshold: "float", metric: "{'lv','dlv','jw','osa'}", strategy: "{'avg','all','any'}"):
    sims = []
    for w in vocab:
        word = pl.lit(w, dtype=pl.String)
        if metric == "jw": sims.append(pl_plugin(symbol="pl_jw", args=[E(c), word, pl.lit(0.1, pl.Float64), _flag(False)]))
        else: sims.append(_pair({"lv": "pl_levenshtein_sim", "dlv": "pl_d_levenshtein_sim", "osa": "pl_osa_sim"}[metric], c, word, False))
    if strategy == "all": return pl.all_horizontal([s >= threshold for s in sims])
    if strategy == "any": return pl.any_horizontal([s >= threshold for s in sims])
    return pl.sum_horizontal(sims) / len(vocab) >= threshold

def replace_non_ascii(c: "str | pl.Expr", value: "{'', '_'}"):
    return _map("remove_non_ascii", c) if value == "" else E(c).str.replace_all("[^\\p{Ascii}]", value)
def remove_diacritics(c: "str | pl.Expr"): return _map("remove_diacritics", c)
def normalize_string(c: "str | pl.Expr", form: "{'NFC','NFKC','NFD','NFKD'}"):
    return pl_plugin(symbol="normalize_string", args=[E(c)], kwargs={"form": form}, is_elementwise=True)
def map_words(c: "str | pl.Expr", mapping: "any"):
    return pl_plugin(symbol="map_words", args=[E(c)], kwargs={"mapping": mapping}, is_elementwise=True)
def normalize_whitespace(c: "str | pl.Expr", only_spaces: "bool"):
    return E(c).str.replace_all(" +", " ") if only_spaces else _map("normalize_whitespace", c)
def extract_numbers(c: "str | pl.Expr", ignore_comma: "bool", join_by: "{'', '-'}", dtype: "dtype"):
    s = E(c).str.replace_all(",", "") if ignore_comma else E(c)
    out = s.str.extract_all("(\\d*\\.?\\d+)")
    if dtype in (pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64, pl.Int8, pl.Int16, pl.Int32, pl.Int64, pl.Float32, pl.Float64): return out.list.eval(pl.element().cast(dtype))
    return out.list.join(join_by) if dtype == pl.String and join_by != "" else out
