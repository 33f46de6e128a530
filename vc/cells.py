"""Byte-addressed symbolic memory cells: {anchor: {offset: V}}; anchor = symbolic part of the address."""
from .values import V, extract, concat


class Cells:
    __slots__ = ("a",)
    MAXC = 8  # cells are at most 8 bytes

    def __init__(self):
        self.a = {}

    def copy(self):
        c = Cells()
        c.a = {k: dict(v) for k, v in self.a.items()}
        return c

    def anchors(self):
        return self.a.keys()

    @staticmethod
    def _overlaps(d, off, n):
        return [s for s in range(off - Cells.MAXC + 1, off + n) if s in d and s + d[s].w // 8 > off]

    def kill(self, anchor, off, n):
        """remove [off, off+n), keeping the remains of partly covered cells"""
        d = self.a.get(anchor)
        if not d:
            return
        if n > 256:
            starts = [s for s in d if s < off + n and s + d[s].w // 8 > off]
        else:
            starts = self._overlaps(d, off, n)
        for s in starts:
            v = d.pop(s)
            e = s + v.w // 8
            if s < off:
                d[s] = extract(v, 0, (off - s) * 8)
            if e > off + n:
                d[off + n] = extract(v, (off + n - s) * 8, (e - off - n) * 8)

    def store(self, anchor, off, v):
        n = v.w // 8
        self.kill(anchor, off, n)
        d = self.a.setdefault(anchor, {})
        if n <= self.MAXC:
            d[off] = v
        else:
            p = 0
            while p < n:
                k = min(self.MAXC, n - p)
                d[off + p] = extract(v, p * 8, k * 8)
                p += k

    def load(self, anchor, off, n, default):
        """default(off, n) supplies bytes never written; it must remember what it returned (it is stored)"""
        d = self.a.setdefault(anchor, {})
        v = d.get(off)
        if v is not None and v.w == n * 8:
            return v
        parts = []
        pos = off
        end = off + n
        starts = self._overlaps(d, off, n)
        for s in starts:
            v = d[s]
            e = s + v.w // 8
            if s > pos:
                parts += self._fill(d, pos, s - pos, default)
                pos = s
            lo = max(s, pos)
            hi = min(e, end)
            parts.append(extract(v, (lo - s) * 8, (hi - lo) * 8))
            pos = hi
        if pos < end:
            parts += self._fill(d, pos, end - pos, default)
        return concat(parts)

    def _fill(self, d, off, n, default):
        out = []
        while n:
            k = min(n, self.MAXC)
            v = default(off, k)
            d[off] = v
            out.append(v)
            off += k
            n -= k
        return out

    def items_in(self, anchor, off, n):
        """cells fully or partly inside [off, off+n) as (reloff, V), cut to the range; gaps omitted"""
        d = self.a.get(anchor)
        if not d:
            return []
        if n > 256:
            starts = sorted(s for s in d if s < off + n and s + d[s].w // 8 > off)
        else:
            starts = self._overlaps(d, off, n)
        out = []
        for s in starts:
            v = d[s]
            e = s + v.w // 8
            lo, hi = max(s, off), min(e, off + n)
            out.append((lo - off, extract(v, (lo - s) * 8, (hi - lo) * 8)))
        return out
