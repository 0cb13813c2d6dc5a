"""Queries over the extracted MIR."""
from collections import deque


class Program:
    def __init__(self, d):
        self.d = d
        self.fns = d["fns"]
        self.tys = d["tys"]
        self.roots = dict((n.split("::")[-1], i) for n, i in d["roots"])
        self.roots_full = d["roots"]
        self._succ = {}

    def succ(self, i):
        """(callee, location) of every call, drop and function value in fn i."""
        if i in self._succ:
            return self._succ[i]
        out = []
        f = self.fns[i]
        for b in f.get("blocks", []):
            for s in b["s"]:
                self._vals(s, b["l"], out)
            t = b["t"]
            if t[0] == "call":
                if t[1][0] == "fn":
                    out.append((t[1][1], b["l"]))
                self._vals(t, b["l"], out)
        self._succ[i] = out
        return out

    def _vals(self, x, loc, out):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "k" and isinstance(x[1], int):
                ty = self.tys[x[1]]
                for g in self._fns_of_type(ty):
                    out.append((g, loc))
                self._const(x[2], loc, out)
                return
            for y in x:
                self._vals(y, loc, out)
        elif isinstance(x, dict):
            self._const(x, loc, out)

    def _const(self, c, loc, out):
        if isinstance(c, dict):
            if c.get("k") == "fn" and isinstance(c.get("fn"), int):
                out.append((c["fn"], loc))
            for v in c.values():
                self._const(v, loc, out)
        elif isinstance(c, list):
            for v in c:
                self._const(v, loc, out)

    def _fns_of_type(self, ty):
        if ty["k"] == "fndef" and ty.get("fn", -1) >= 0:
            return [ty["fn"]]
        if ty["k"] == "closure" and ty.get("fn", -1) >= 0:
            return [ty["fn"]]
        return []

    def reach(self, roots):
        """fn -> (caller, location) for everything reachable from roots."""
        seen = {r: None for r in roots}
        q = deque(roots)
        while q:
            i = q.popleft()
            for j, loc in self.succ(i):
                if j not in seen:
                    seen[j] = (i, loc)
                    q.append(j)
        return seen

    def chain(self, seen, i, limit=12):
        out = []
        while i is not None and len(out) < limit:
            p = seen[i]
            out.append("%s%s" % (self.fns[i]["name"], (" called at " + p[1]) if p else ""))
            i = p[0] if p else None
        return out
