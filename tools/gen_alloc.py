"""Histories of the executable memory allocators."""
import random, itertools


class Hist:
    def __init__(self, hid, threads=1):
        self.id, self.threads, self.ops, self.nb = hid, threads, [], 0

    def m(self, size, t=0, fault=0):
        self.nb += 1
        self.ops.append("%d m %d %d%s" % (t, self.nb, size, " f %d" % fault if fault else ""))
        return self.nb

    def g(self, val, n, t=0, fault=0):
        self.nb += 1
        self.ops.append("%d g %d %d %d%s" % (t, self.nb, val, n, " f %d" % fault if fault else ""))
        return self.nb

    def f(self, b, t=0):
        self.ops.append("%d f %d" % (t, b))

    def o(self, k, b=None, t=0, *a):
        self.ops.append(" ".join([str(t), k] + ([str(b)] if b is not None else []) + [str(x) for x in a]))

    def text(self):
        return "H %s %d\n%s\nE\n" % (self.id, self.threads, "\n".join(self.ops))


CH = 65536


def size(r, big=True):
    c = r.randrange(12)
    if c < 3:
        return r.randint(1, 70)
    if c < 6:
        return r.randint(60, 1500)
    if c < 8:
        return r.randint(1000, 30000)
    if c == 8:
        return r.choice([CH, CH // 2, 2 * CH, CH // 4, 4096, 8192]) - r.randint(0, 180)
    if c == 9:
        return CH - r.randint(0, 170)
    if c == 10 and big:
        return r.choice([CH * 2, CH * 3, CH * 5]) - r.randint(-100, 300)
    return r.choice([1, 8, 39, 40, 41, 47, 48, 49, 56, 64])


def history(r, hid, n, kind):
    h = Hist(hid)
    live, codes = [], {}
    style = r.randrange(4)
    lim = r.choice([3, 8, 20])
    few = r.choice([None, [r.randint(1, 2000) for _ in range(3)]])
    for _ in range(n):
        c = r.random()
        if live and (c < 0.40 or len(live) >= lim):
            i = {0: 0, 1: -1}.get(style, r.randrange(len(live)))
            h.f(live.pop(i))
        elif c < 0.46:
            h.o("t")
        elif c < 0.52:
            k = r.randint(1, 4 if kind == "prot" else 1)
            s = size(r)
            h.m(s, fault=k) if r.random() < 0.8 else h.g(r.randint(-9999, 9999), r.choice([0, 3, 50]), fault=k)
            # it may have been served without the system: the end frees it
        elif c < 0.54:
            h.m(-r.choice([1, 2, 7, 8, 9, 15, 16, 17, 24, 40, 63, 64, 100, 4096, 65536, 65600, 131072]))
        elif c < 0.68:
            b = h.g(r.randint(-99999, 99999), r.choice([0, 1, 5, 20, 100, 700, 4000] if r.random() < .3 else [0, 2, 8]))
            live.append(b)
            codes[b] = 1
        elif c < 0.78 and codes:
            b = r.choice(sorted(codes))
            if b in live:
                if r.random() < 0.5:
                    h.o("p", b, 0, r.randint(-99999, 99999))
                h.o("r", b)
        else:
            live.append(h.m(r.choice(few) if few and r.random() < 0.7 else size(r)))
    if r.random() < 0.5:
        r.shuffle(live)
        for b in live:
            h.f(b)
    return h


def exhaustive(sizes, depth, tag):
    """every history of allocations of these sizes, frees and trims up to the depth"""
    out = []

    def go(ops, live, nb):
        if len(ops) == depth:
            h = Hist("%s-%d" % (tag, len(out)))
            h.nb = nb
            for k, v in ops:
                h.ops.append("0 m %d %d" % v if k == "m" else "0 f %d" % v if k == "f" else "0 t")
            out.append(h)
            return
        for s in sizes:
            go(ops + [("m", (nb + 1, s))], live + [nb + 1], nb + 1)
        for b in live:
            go(ops + [("f", b)], [x for x in live if x != b], nb)
        if ops and ops[-1][0] != "t" and ops[-1][0] != "m":
            go(ops + [("t", 0)], live, nb)
    go([], [], 0)
    return out


def threaded(r, hid, nt, n):
    h = Hist(hid, nt)
    live, codes = [], set()
    for _ in range(n):
        t = r.randint(1, nt)
        c = r.random()
        if live and (c < 0.45 or len(live) > 40):
            b, o = live.pop(r.randrange(len(live)))
            h.f(b, o if b in codes or r.random() < 0.5 else t)        # often by another thread, code by the one which runs it
        elif c < 0.50:
            h.o("t", None, t)
        elif c < 0.58:
            b = h.g(r.randint(-9999, 9999), r.choice([0, 3, 50]), t)
            h.o("r", b, t)
            codes.add(b)
            live.append((b, t))
        else:
            live.append((h.m(size(r, False), t), t))
    return h
