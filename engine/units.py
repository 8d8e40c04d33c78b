"""Unit functions and their contracts, with a fixed granularity shared by the two programs compared."""
import re
from .contract import contract
from .flow import Flow

SKIP = re.compile(r"^xtask|^weaver_test_support|grpc_stubs|^weaver_macros|^weaver_codegen_test|::__[a-z]|utoipa|schemars|clap::"
                  r"|as core::fmt::Debug>")


def unit_ids(prog):
    return {f.id for f in prog.fns.values()
            if f.kind == "fn" and f.subst is None and f.has_body and not f.derived and not SKIP.search(f.id)
            and "grpc_stubs" not in f.file}


class Side:
    """one program at one granularity"""

    def __init__(self, prog, units):
        self.prog = prog
        self.units = set(units)
        self.flows = {}
        self.memo = {}

    def contract(self, uid, inline=frozenset()):
        key = (uid, inline)
        r = self.memo.get(key)
        if r is None:
            fl = self.flows.get(inline)
            if fl is None:
                fl = self.flows[inline] = Flow(self.prog)
                fl.opaque = self.units - inline
                if len(self.flows) > 1:
                    # block-level caches that depend on the granularity
                    pass
            self.activate(inline)
            r = self.memo[key] = contract(fl, self.prog.fns[uid])
        return r

    _active = None

    def activate(self, inline):
        if self._active != inline:
            if self._active is not None:
                for f in self.prog.fns.values():
                    if f.cache:
                        for k in [k for k in f.cache if k == "modl" or (isinstance(k, tuple) and k[0] in ("tg", "edges", "clos", "clo"))]:
                            del f.cache[k]
            self._active = inline
