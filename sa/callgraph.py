"""Resolved call graph of the dumped MIR: direct calls, function values, closures and, for trait methods on type
parameters, every implementation in the crate (class hierarchy analysis)."""


def fn_refs(x, out):
    """all function items and closure aggregates mentioned in a piece of MIR"""
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict):
            out.append(x["fn"])
        for v in x.values():
            fn_refs(v, out)
    elif isinstance(x, list):
        for v in x:
            fn_refs(v, out)


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.impls = {}
        for i, f in P.fns.items():
            t = f.get("impl_trait") or f.get("trait")
            if t:
                self.impls.setdefault((t, f["path"].rsplit("::", 1)[-1]), []).append(str(i))
        self.edges = {}
        self.ext = {}
        for i, f in P.fns.items():
            self.scan(str(i), f)

    def scan(self, i, f):
        P = self.P
        succ, ext = set(), []
        for b in f["blocks"]:
            refs = []
            fn_refs(b["s"], refs)
            fn_refs(b["t"], refs)
            span = b["t"][5] if b["t"] and b["t"][0] == "call" and len(b["t"]) > 5 else None
            for c in refs:
                if c.get("fn") is not None:
                    succ.add(str(c["fn"]))
                    g = P.fns.get(str(c["fn"]))
                    if g is not None and not g["local"]:
                        ext.append((c, span))
                    continue
                if c.get("ctor"):
                    continue
                m = (c.get("rpath") or c["path"]).rsplit("::", 1)[-1]
                for j in self.impls.get((c.get("trait"), m), ()):
                    succ.add(j)
                ext.append((c, span))
        for t in set(f["locals"]):
            ty = P.types[t]
            if ty["k"] == "closure" and ty.get("fn") is not None:
                succ.add(str(ty["fn"]))
        self.edges[i] = succ
        self.ext[i] = ext

    def reach(self, root):
        """function -> predecessor, for all functions reachable from root"""
        pred = {root: None}
        todo = [root]
        while todo:
            i = todo.pop()
            for j in sorted(self.edges.get(i, ())):
                if j not in pred and j in self.P.fns:
                    pred[j] = i
                    todo.append(j)
        return pred

    def path_to(self, pred, i):
        out = []
        while i is not None:
            out.append(self.P.fns[i]["path"])
            i = pred[i]
        return out[::-1]
