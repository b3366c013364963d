import random
PG = 4096


def history(r, hid, n):
    ops, live = [], {}
    nid = 0
    for _ in range(n):
        c = r.random()
        if not live or (c < 0.06 and nid < 60):
            mx = r.choice([r.randint(1, 3 * PG), r.randint(1, 40 * PG), PG * r.randint(1, 12), PG * r.randint(1, 12) + r.choice([-1, 1]), 1, 64, PG])
            s = r.choice([r.randint(1, mx), 1, mx, min(mx, PG), max(1, mx - r.randint(0, 20))])
            k = r.random()
            if k < 0.12:
                s, mx = r.choice([(0, mx), (mx + 1, mx), (mx + PG, mx), (0, 0), (1, 0), (-1, mx), (-1, -1), (1, -1), (1, -4095), (1, -4096), (5, -9000), (2000000000, -1)])
            ops.append("n %d %d %d%s" % (nid, s, mx, " f %d" % r.randint(1, 2) if r.random() < 0.15 else ""))
            live[nid] = mx if mx > 0 else 1
            nid += 1
            continue
        s = r.choice(sorted(live))
        mx = live[s]
        if c < 0.10:
            ops.append("d %d" % s)
            del live[s]
        elif c < 0.40:
            al = (mx + PG - 1) // PG * PG
            k = r.random()
            if k < 0.5:
                ops.append("r %d %d" % (s, r.choice([r.randint(0, al), r.randint(0, al) // PG * PG, r.randint(0, al) // PG * PG + r.choice([-1, 1]), 0, al - 1, al])))
            elif k < 0.7:
                ops.append("r %d %d" % (s, r.choice([-1, -PG, -PG * 20, al, al + 1, al + PG * 3, mx, mx - 1, mx + 1, -2000])))
            else:
                ops.append("e %d %d" % (s, r.choice([r.randint(1, mx), PG, PG + 1, PG - 1, 1, 0, -1, mx, mx + 1])))
            for o in (0, -1, r.randint(0, mx), -r.randint(1, mx), PG - 1, PG, -PG, -PG - 1):
                ops.append("g %d %d" % (s, o))
        elif c < 0.8:
            for o in (0, -1, r.randint(0, mx), -r.randint(1, mx), PG * r.randint(0, 3) + r.choice([-1, 0, 1]), -PG * r.randint(1, 3)):
                ops.append("w %d %d %d" % (s, o, r.randint(1, 255)))
        elif c < 0.86:
            ops.append("t %d %d" % (s, r.randint(0, mx)))
        else:
            for _ in range(4):
                ops.append("g %d %d" % (s, r.randint(-mx, mx)))
    for s in sorted(live):
        ops.append("d %d" % s)
    class P: pass
    p = P()
    p.id = hid
    p.text = lambda: "H %s\n%s\nE\n" % (hid, "\n".join(ops))
    return p
