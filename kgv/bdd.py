"""Canonical decision diagrams over undetermined conditions.

Gates whose conditions a context leaves open are compared through reduced ordered decision diagrams: two conditions are
congruent when they are the same Boolean function of the open atoms, two nests of gates when every assignment of the atoms
selects congruent values. A care set restricts the comparison to the assignments that are still possible."""

INF = 1 << 60


class TooBig(Exception):
    pass


class Manager:
    def __init__(self, limit=60000):
        self.nodes = [(INF, None, None), (INF, None, None)]     # 0 false, 1 true
        self.table, self.cache, self.ccache = {}, {}, {}
        self.atoms, self.names = {}, 0
        self.terms, self.values = {}, {}
        self.limit = limit

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.table.get(k)
        if r is None:
            if len(self.nodes) > self.limit:
                raise TooBig()
            r = self.table[k] = len(self.nodes)
            self.nodes.append(k)
        return r

    def atom(self, fps):
        """fps: per sample a fingerprint or None; equal fingerprints at any sample mean the same atom"""
        r = next((self.atoms[(k, f)] for k, f in enumerate(fps) if f is not None and (k, f) in self.atoms), None)
        if r is None:
            self.names += 1
            r = self.names
        for k, f in enumerate(fps):
            if f is not None:
                self.atoms.setdefault((k, f), r)
        return self.mk(r, 0, 1)

    def known(self, fps):
        r = next((self.atoms[(k, f)] for k, f in enumerate(fps) if f is not None and (k, f) in self.atoms), None)
        return None if r is None else self.mk(r, 0, 1)

    def term(self, vals, keys):
        r = next((self.terms[(k, f)] for k, f in enumerate(keys) if f is not None and (k, f) in self.terms), None)
        if r is None:
            r = len(self.nodes)
            self.nodes.append((INF, None, None))
            self.values[r] = vals
        for k, f in enumerate(keys):
            if f is not None:
                self.terms.setdefault((k, f), r)
        return r

    def ite(self, f, g, h):
        if f == 1 or g == h:
            return g
        if f == 0:
            return h
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is None:
            n = self.nodes
            v = min(n[f][0], n[g][0], n[h][0])
            lo = self.ite(*((n[x][1] if n[x][0] == v else x) for x in k))
            hi = self.ite(*((n[x][2] if n[x][0] == v else x) for x in k))
            r = self.cache[k] = self.mk(v, lo, hi)
        return r

    def neg(self, f):
        return self.ite(f, 0, 1)

    def land(self, f, g):
        return self.ite(f, g, 0)

    def lor(self, f, g):
        return self.ite(f, 1, g)

    def constrain(self, f, c):
        """generalized cofactor: equal results for functions that agree on the care set c"""
        if c == 1 or self.nodes[f][0] == INF:
            return f
        if c == 0:
            return 0
        k = (f, c)
        r = self.ccache.get(k)
        if r is None:
            n = self.nodes
            v = min(n[f][0], n[c][0])
            f0, f1 = (n[f][1], n[f][2]) if n[f][0] == v else (f, f)
            c0, c1 = (n[c][1], n[c][2]) if n[c][0] == v else (c, c)
            if c0 == 0:
                r = self.constrain(f1, c1)
            elif c1 == 0:
                r = self.constrain(f0, c0)
            else:
                r = self.mk(v, self.constrain(f0, c0), self.constrain(f1, c1))
            self.ccache[k] = r
        return r
