"""Reference definition of PartitionHelper."""
import polars as pl
import polars.selectors as cs

class PartitionHelper:
    def head(self, n: "int"): return {k: df.head(n) for k, df in self.parts.items()}
    def names(self): return list(self.parts.keys())
    def get(self, part: "str"): return self.parts.get(part, None)
    def __init__(self, df: "any", by: "str | list[str] | None", separator: "str", whole_df_name: "str"):
        if by is None:
            self.parts = {whole_df_name: df.lazy().collect()}
        else:
            cols = df.select(cs.by_name(by) & (cs.string() | cs.categorical() | cs.boolean())).collect_schema().names()
            if isinstance(by, str):
                if cols[0] != by: raise ValueError("unsupported")
            elif sorted(cols) != sorted(by): raise ValueError("unsupported")
            self.parts = {separator.join(str(k) for k in keys): value for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()}
