"""Scenarios: which coordinates are symbolic, and within which ranges."""
import math, os, random, re

def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

def sgn(v):
    return (v > 0) - (v < 0)

def on_open_segment(a, b, p):
    if orient(a, b, p) != 0:
        return False
    if p == a or p == b:
        return False
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])

def cross(a, b, c, d):
    return sgn(orient(a, b, c)) * sgn(orient(a, b, d)) < 0 and sgn(orient(c, d, a)) * sgn(orient(c, d, b)) < 0

def edges(r):
    return [(r[i], r[(i + 1) % len(r)]) for i in range(len(r))]

def inside(ring, p):
    r = False
    for a, b in edges(ring):
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if (b[1] > a[1]) == (o > 0):
                r = not r
    return r

def valid(rings, st):
    pts = [p for r in rings for p in r] + list(st)
    if len(set(pts)) != len(pts):
        return False
    es = [e for r in rings for e in edges(r)]
    for a, b in es:
        for p in pts:
            if on_open_segment(a, b, p):
                return False
    for i in range(len(es)):
        for j in range(i):
            if cross(*es[i], *es[j]):
                return False
    for h in range(1, len(rings)):
        if not inside(rings[0], rings[h][0]):
            return False
        for g in range(1, len(rings)):
            if g != h and inside(rings[g], rings[h][0]):
                return False
    return True

def simple(r):
    return valid([r], [])

def two_opt(rng, pts):
    r = pts[:]
    rng.shuffle(r)
    for _ in range(60 * len(r)):
        n = len(r)
        hit = None
        for i in range(n):
            for j in range(i):
                a, b, c, d = r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]
                if len({a, b, c, d}) == 4 and cross(a, b, c, d):
                    hit = (j + 1, i)
                    break
            if hit:
                break
        if not hit:
            return r
        r[hit[0]:hit[1] + 1] = reversed(r[hit[0]:hit[1] + 1])
    return None

def star(rng, n, g):
    import math
    c = g / 2
    k = sorted(rng.random() * 2 * math.pi for _ in range(n))
    rad = [(g / 2) * (0.2 + 0.8 * rng.random()) for _ in range(n)]
    if rng.random() < 0.4:
        rad = [x if i % 2 else x * 0.4 for i, x in enumerate(rad)]
    return [(round(c + r * math.cos(a)), round(c + r * math.sin(a))) for a, r in zip(k, rad)]

def comb(rng, n, g):
    """teeth along one axis, of random depth"""
    t = max(2, n // 2)
    xs = sorted(rng.sample(range(g + 1), min(t * 2, g + 1)))
    up = [(x, rng.randint(g // 2, g) if i % 2 else rng.randint(1, g - 1)) for i, x in enumerate(xs)]
    r = up[::-1] + [(xs[0], 0), (xs[-1], 0)] if rng.random() < 0.5 else up[::-1] + [(rng.randint(0, g), 0)]
    return r

def monotone(rng, n, g):
    xs = sorted(rng.sample(range(g + 1), min(n, g + 1)))
    lo, hi = [], []
    for x in xs[1:-1]:
        (lo if rng.random() < 0.5 else hi).append(x)
    mid = rng.randint(g // 3, 2 * g // 3)
    return ([(xs[0], mid)] + [(x, rng.randint(0, mid - 1)) for x in lo] + [(xs[-1], mid)] +
            [(x, rng.randint(mid + 1, g)) for x in reversed(hi)])

def spiral(rng, n, g):
    r, w = [], g
    x0, y0, x1, y1 = 0, 0, g, g
    st = max(2, g // max(4, n // 2))
    out, inn = [], []
    for k in range(max(1, n // 8)):
        out += [(x0, y0), (x1, y0), (x1, y1), (x0 + st, y1)]
        x0 += st; y0 += st; x1 -= st; y1 -= st
        if x1 - x0 < 3 or y1 - y0 < 3:
            break
    j = max(1, st // 3)
    r = [(min(g, max(0, x + rng.randint(-j, j))), min(g, max(0, y + rng.randint(-j, j)))) for x, y in out]
    return r

def turn(rng, r, g):
    k = rng.randrange(4)
    f = [lambda p: p, lambda p: (p[1], p[0]), lambda p: (g - p[0], p[1]), lambda p: (p[0], g - p[1])][k]
    r = [f(p) for p in r]
    if rng.random() < 0.5:
        r.reverse()
    k = rng.randrange(len(r))
    return r[k:] + r[:k]

def snap(r, g):
    """moves the extreme points to the border of the box"""
    r = [list(p) for p in r]
    for k in range(2):
        i = min(range(len(r)), key=lambda i: r[i][k])
        r[i][k] = 0
        i = max(range(len(r)), key=lambda i: r[i][k])
        r[i][k] = g
    return [tuple(p) for p in r]

def outline(rng, n, g):
    for _ in range(400):
        kind = rng.choice(["two_opt", "two_opt", "star", "comb", "monotone", "spiral"])
        if kind == "two_opt":
            pts = list({(rng.randint(0, g), rng.randint(0, g)) for _ in range(n)})
            if len(pts) < 3:
                continue
            r = two_opt(rng, pts)
            if r is None:
                continue
        else:
            r = {"star": star, "comb": comb, "monotone": monotone, "spiral": spiral}[kind](rng, n, g)
        if len(r) < 3:
            continue
        r = snap(turn(rng, r, g), g)
        if simple(r):
            return r
    return None

def shape(rng, n, holes, steiner, g, out_prob=0.25):
    """a random valid input of about n outline points"""
    for _ in range(60):
        o = outline(rng, n, g)
        if o is None:
            continue
        rings = [o]
        for _ in range(holes):
            for _ in range(30):
                w = rng.randint(2, max(2, g // 3))
                x, y = rng.randint(0, g - w), rng.randint(0, g - w)
                k = rng.choice([3, 3, 4, 5])
                pts = list({(x + rng.randint(0, w), y + rng.randint(0, w)) for _ in range(k)})
                if len(pts) < 3:
                    continue
                h = two_opt(rng, pts)
                if h and valid(rings + [h], []):
                    rings.append(h)
                    break
        st = []
        for _ in range(steiner):
            for _ in range(30):
                p = (rng.randint(0, g), rng.randint(0, g))
                inn = inside(rings[0], p) and not any(inside(h, p) for h in rings[1:])
                if not inn and rng.random() > out_prob:
                    continue
                if valid(rings, st + [p]):
                    st.append(p)
                    break
        if valid(rings, st):
            return rings, st
    return None

def calls(rng, rings, st):
    """a random order of builder calls; returns the spec and the points in call order"""
    ops, pts = ["O%d" % len(rings[0])], list(rings[0])
    hs, ss = list(rings[1:]), list(st)
    while hs or ss or rng.random() < 0.04:
        if rng.random() < 0.05 or not (hs or ss):
            # nothing is added
            ops.append(rng.choice(["M", "B0"]))
            continue
        if hs and (not ss or rng.random() < 0.5):
            if rng.random() < 0.4:
                k = rng.randint(1, len(hs))
                ops.append("M" + "/".join(str(len(h)) for h in hs[:k]))
                for h in hs[:k]:
                    pts += h
                hs = hs[k:]
            else:
                ops.append("H%d" % len(hs[0]))
                pts += hs.pop(0)
        else:
            if rng.random() < 0.5:
                k = rng.randint(1, len(ss))
                ops.append("B%d" % k)
                pts += ss[:k]
                ss = ss[k:]
            else:
                ops.append("S")
                pts.append(ss.pop(0))
    return ",".join(ops), pts

def rings_of(spec):
    rings, st, i = [], [], 0
    for t in spec.split(","):
        if t[0] in "OH":
            n = int(t[1:]); rings.append(list(range(i, i + n))); i += n
        elif t[0] == "M":
            for n in t[1:].split("/") if len(t) > 1 else []:
                rings.append(list(range(i, i + int(n)))); i += int(n)
        elif t[0] == "S":
            st.append(i); i += 1
        else:
            n = int(t[1:]); st += list(range(i, i + n)); i += n
    return rings, st, i

def permute(rng, spec):
    """another presentation of the same input: spec and permutation"""
    rings, st, n = rings_of(spec)
    def var(r):
        k = rng.randrange(len(r))
        r = r[k:] + r[:k]
        return r[::-1] if rng.random() < 0.5 else r
    hs = [var(r) for r in rings[1:]]
    rng.shuffle(hs)
    ss = st[:]
    rng.shuffle(ss)
    s2, perm = calls(rng, [var(rings[0])] + hs, ss)
    return s2, perm

def symbolic(rng, pts, k, g, rad=None):
    """makes k points symbolic, keeping the bounding box fixed by the others"""
    idx = list(range(len(pts)))
    rng.shuffle(idx)
    pick = []
    for i in idx:
        rest = [p for j, p in enumerate(pts) if j != i and j not in pick]
        if rest and min(p[0] for p in rest) == 0 and max(p[0] for p in rest) == g and \
           min(p[1] for p in rest) == 0 and max(p[1] for p in rest) == g:
            pick.append(i)
            if len(pick) == k:
                break
    toks = []
    for i, p in enumerate(pts):
        if i in pick:
            if rad is None:
                toks.append("v:0:%d,v:0:%d" % (g, g))
            else:
                toks.append("v:%d:%d,v:%d:%d" % (max(0, p[0] - rad), min(g, p[0] + rad), max(0, p[1] - rad), min(g, p[1] + rad)))
        else:
            toks.append("%d,%d" % p)
    return toks, pick

class Job:
    def __init__(self, name, spec, toks, **kw):
        self.name, self.spec, self.toks = name, spec, toks
        self.kw = kw
    def shift(self, dx, dy):
        """moves everything (also to negative coordinates)"""
        def t(s, d):
            if s.startswith("v:"):
                _, a, b = s.split(":")
                return "v:%d:%d" % (int(a) + d, int(b) + d)
            if s[0] in "xy":
                # relative to another point
                return s
            return str(int(s) + d)
        self.toks = [",".join((t(a.split(",")[0], dx), t(a.split(",")[1], dy))) for a in self.toks]
        if "bbox" in self.kw:
            b = self.kw["bbox"]
            self.kw["bbox"] = (b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy)
        return self

def shards(name, spec, toks, pairs, **kw):
    """splits a scenario by the sweep order of some pairs of points"""
    r = []
    for m in range(1 << len(pairs)):
        order = [(a, b) if m >> i & 1 else (b, a) for i, (a, b) in enumerate(pairs)]
        # contradictory orders have no inputs
        n = max(max(p) for p in pairs) + 1
        less = {(a, b) for a, b in order}
        ch = True
        while ch:
            ch = False
            for a, b in list(less):
                for c, d in list(less):
                    if b == c and (a, d) not in less:
                        less.add((a, d)); ch = True
        if any(a == b for a, b in less):
            continue
        r.append(Job("%s/%d" % (name, m), spec, toks, order=order, **kw))
    return r

def stretch(j, kx, ky):
    """multiplies by powers of two, differently in x and y"""
    def t(s, k):
        if s.startswith("v:"):
            _, a, b = s.split(":")
            return "v:%d:%d" % (int(a) << k, int(b) << k)
        if s[0] in "xy":
            m = re.match(r"([xy]\d+)([+-]\d+)$", s)
            return "%s%+d" % (m.group(1), int(m.group(2)) << k)
        return str(int(s) << k)
    j.toks = [",".join((t(a.split(",")[0], kx), t(a.split(",")[1], ky))) for a in j.toks]
    if "bbox" in j.kw:
        b = j.kw["bbox"]
        j.kw["bbox"] = (b[0] << kx, b[1] << ky, b[2] << kx, b[3] << ky)
    return j

def many_zeros(j):
    """moves the most frequent coordinates to zero"""
    def best(k):
        v = [p.split(",")[k] for p in j.toks if not re.search("[vxy]", p)]
        return int(max(sorted(set(v)), key=v.count)) if v else 0
    return j.shift(-best(0), -best(1))

def lattice(rng, tier):
    """points of a small lattice: many equal coordinates, collinear and cocircular points"""
    k = 0
    while True:
        c = rng.choice([3, 4, 5, 5, 6])
        # a simply connected set of cells; its border
        cells = {(rng.randrange(c), rng.randrange(c))}
        for _ in range(rng.randint(2, c * c)):
            x, y = rng.choice(sorted(cells))
            dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
            if 0 <= x + dx < c and 0 <= y + dy < c:
                cells.add((x + dx, y + dy))
        # dropping single cells within gives holes
        drop = []
        for x, y in sorted(cells):
            if all((x + i, y + j) in cells and (x + i, y + j) not in drop for i in (-1, 0, 1) for j in (-1, 0, 1)) and rng.random() < 0.5:
                drop.append((x, y))
        for d in drop:
            cells.discard(d)
        nxt = {}
        ok = True
        for x, y in cells:
            for a, b, n in [((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                            ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))]:
                if n not in cells:
                    ok = ok and a not in nxt
                    nxt[a] = b
        if not ok:
            continue
        rings = []
        left = dict(nxt)
        while left:
            a = s = min(left)
            r = []
            while True:
                r.append(a)
                a = left.pop(a)
                if a == s:
                    break
            rings.append(r)
        # straight vertices stay or go
        keep = rng.choice([0, 0.5, 1])
        def thin(r):
            return [p for i, p in enumerate(r) if orient(r[i - 1], p, r[(i + 1) % len(r)]) != 0 or rng.random() < keep]
        outer = min(rings, key=lambda r: min(r))
        rings = [thin(outer)] + [thin(r) for r in rings if r is not outer]
        if rng.random() < 0.3:
            # cuts a few corners
            r = rings[0]
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(r))
                t = r[:i] + r[i + 1:]
                if len(t) >= 3 and valid([t] + rings[1:], []):
                    r = rings[0] = t
        st = []
        for _ in range(rng.choice([0, 0, 2, 5, 9])):
            p = (rng.randint(0, c), rng.randint(0, c))
            if valid(rings, st + [p]):
                st.append(p)
        if len(rings[0]) < 3 or not valid(rings, st) or sum(map(len, rings)) > 40:
            continue
        pts = [p for r in rings for p in r] + st
        x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
        w, h = max(p[0] for p in pts) - x0, max(p[1] for p in pts) - y0
        m = rng.choice([10, 10, 20, 5]) if w % 5 or h % 5 else rng.choice([1, 2, 4, 10])
        f = lambda p: ((p[0] - x0) * m, (p[1] - y0) * m)
        spec, pts = calls(rng, [[f(p) for p in turn2(rng, r)] for r in rings], [f(p) for p in st])
        toks, n = ["%d,%d" % p for p in pts], 0
        idx = list(range(len(pts)))
        rng.shuffle(idx)
        for i in idx[:8]:
            # one point moves, within the box, or two
            rest = [p for j, p in enumerate(pts) if j != i and not toks[j].startswith("v")]
            ax = [any(p[0] == e for p in rest) for e in (0, w * m)], [any(p[1] == e for p in rest) for e in (0, h * m)]
            if not all(ax[0] + ax[1]):
                continue
            rad = rng.choice([m, m, 2 * m, 100 * m])
            q = pts[i]
            toks[i] = "v:%d:%d,v:%d:%d" % (max(0, q[0] - rad), min(w * m, q[0] + rad), max(0, q[1] - rad), min(h * m, q[1] + rad))
            n += 1
            if n == 2 or rng.random() < 0.6:
                break
        if not n:
            continue
        k += 1
        yield Job("lattice-%d-n%d-s%d" % (k, len(pts), n), spec, toks, time=6 if tier == "quick" else 60)

def turn2(rng, r):
    if rng.random() < 0.5:
        r = r[::-1]
    k = rng.randrange(len(r))
    return r[k:] + r[:k]

def many(rng, tier):
    """many points, many holes: one point symbolic"""
    k = 0
    while True:
        u = rng.random()
        g = rng.choice([200, 400])
        if u < 0.4:
            # a field of holes and steiner points
            c = rng.choice([3, 4, 5, 6])
            s = g // c
            rings = [[(0, 0), (g, 0), (g, g), (0, g)]]
            st = []
            for i in range(c):
                for j in range(c):
                    x, y = i * s, j * s
                    r = lambda: rng.randint(3, s - 3)
                    v = rng.random()
                    if v < 0.75:
                        h = two_opt(rng, list({(x + r(), y + r()) for _ in range(rng.choice([3, 3, 4, 5]))}))
                        if h and len(h) >= 3 and simple(h):
                            rings.append(h)
                    if v > 0.6:
                        p = (x + r(), y + r())
                        if not any(p in h for h in rings) and (v > 0.75 or valid([rings[0], rings[-1]], [p])):
                            st.append(p)
            rng.shuffle(rings[1:])
        elif u < 0.6:
            # holes of many points
            rings = [[(0, 0), (g, 0), (g, g), (0, g)]]
            if rng.random() < 0.3:
                m = rng.randint(1, g - 1)
                rings[0] = [(0, 0), (m, rng.choice([0, 1, 3])), (g, 0), (g, g), (g - m, g - rng.choice([0, 1, 3])), (0, g)]
            c = rng.choice([1, 1, 2])
            s = g // c
            for i in range(c):
                for j in range(c):
                    if c == 2 and rng.random() < 0.4:
                        continue
                    o = outline(rng, rng.choice([8, 10, 14, 20, 33 if c == 1 else 12, 50 if c == 1 else 9]), s - 12)
                    if o:
                        h = [(x + i * s + 6, y + j * s + 6) for x, y in o]
                        rings.append(h if rng.random() < 0.5 else h[::-1])
            st = []
            for _ in range(rng.choice([0, 3, 10])):
                p = (rng.randint(0, g), rng.randint(0, g))
                if valid(rings, st + [p]):
                    st.append(p)
        else:
            n = rng.choice([30, 40, 50, 60])
            rings = None
            for _ in range(5):
                o = outline(rng, n, g)
                if o:
                    rings = [o]
                    break
            if not rings:
                continue
            st = []
            for _ in range(rng.choice([0, 0, 10, 30])):
                p = (rng.randint(0, g), rng.randint(0, g))
                if valid(rings, st + [p]):
                    st.append(p)
        if not valid(rings, st):
            continue
        spec, pts = calls(rng, rings, st)
        toks, pick = symbolic(rng, pts, 1, g, rng.choice([3, 10, 30]))
        if not pick:
            continue
        k += 1
        yield Job("many-%d-n%d-s1" % (k, len(pts)), spec, toks, time=5 if tier == "quick" else 40)

def huge(rng, tier, sizes):
    """valid by construction: two chains about a band of cells with holes and steiner points"""
    k = 0
    while True:
        n = rng.choice(sizes)
        flat = rng.random() < 0.3
        lim = rng.choice([2, 3, 6]) if rng.random() < 0.3 else 0
        # cells of the band
        rows = rng.choice([1, 2, 3, 8]) if n < 400 else rng.choice([3, 8, 40])
        if n > 10000:
            # the library takes quadratic time for long outlines
            rows, share = 40, 0.99
        else:
            share = rng.choice([0, 0.3, 0.6, 0.95])
        cells = int(n * share / 1.6)
        cols = max(2, (cells + rows - 1) // rows)
        chain = max(0, n - int(n * share) - 4)
        c = 40
        W = (cols * c + 9) // 10 * 10 * (1 if not lim else lim)
        W = max(W, 10 * (chain // 2 + 2))
        h0 = rng.choice([20, 100, 1000])
        h1 = rows * c
        H = (2 * h0 + h1 + 9) // 10 * 10
        low, high = [(0, 0)], [(0, H)]
        for l, y0 in ((low, 0), (high, H)):
            m = chain // 2
            xs = sorted(rng.sample(range(1, W), min(m, W - 1)))
            d = h0 - 2 if not flat else 0
            for x in xs:
                y = rng.choice([0, rng.randint(0, d), rng.randint(0, d)])
                p = (x, y0 + y if y0 == 0 else y0 - y)
                l.append(p)
            l.append((W, y0))
        outer = low + high[::-1]
        rings, st = [outer], []
        tidy = rng.random() < 0.3
        sx, x0 = W // cols, 0
        for i in range(cols):
            for j in range(rows):
                x, y = i * sx, h0 + j * c
                r = lambda: rng.randint(2, c - 2)
                if rng.random() < 0.25:
                    w, h = rng.randint(1, c // 2 - 2), rng.randint(1, c // 2 - 2)
                    u, v = x + rng.randint(1, c // 2), y + rng.randint(1, c // 2)
                    q = [(u, v), (u + w, v), (u + w, v + h), (u, v + h)]
                    if rng.random() < 0.5:
                        q.pop(rng.randrange(4))
                    if rng.random() < 0.5:
                        q.reverse()
                    rings.append(q)
                else:
                    st.append((x + c // 2, y + c // 2) if tidy else (x + r(), y + r()))
        if rng.random() < 0.5:
            rings = [[(y, x) for x, y in q] for q in rings]
            st = [(y, x) for x, y in st]
            W, H = H, W
        if rng.random() < 0.5:
            rings[0] = turn2(rng, rings[0])
        rest = rings[1:]
        rng.shuffle(rest)
        rng.shuffle(st)
        spec, pts = calls(rng, [rings[0]] + rest, st)
        toks = ["%d,%d" % p for p in pts]
        # one point is symbolic
        q = rng.random()
        if st and q < 0.7:
            i = len(rings[0]) + rng.randrange(len(pts) - len(rings[0]))
        else:
            i = rng.randrange(len(rings[0]))
        p = pts[i]
        rad = rng.choice([1, 3, 10])
        if not (rad < p[0] < W - rad and rad < p[1] < H - rad):
            continue
        ax = rng.choice([0, 1, 2])
        f = lambda c: "v:%d:%d" % (p[c] - rad, p[c] + rad) if ax != 1 - c else "%d" % p[c]
        toks[i] = f(0) + "," + f(1)
        k += 1
        yield Job("huge-%d-n%d-s1" % (k, len(pts)), spec, toks, time=8 if tier == "quick" else 60, ticks=max(400000000, 30000 * len(pts)))

def full(n, g):
    return ["v:0:%d,v:0:%d" % (g, g)] * n

def core(tier, rng):
    """every input of a few points on a small grid"""
    j = []
    b = (0, 0, 10, 10)
    j += shards("triangle-grid40", "O3", full(3, 40), [(0, 1), (1, 2), (0, 2)], bbox=(0, 0, 40, 40), time=60)
    j += shards("quadrilateral-grid5", "O4", full(4, 5), [(0, 1), (1, 2), (2, 3), (0, 2)], bbox=(0, 0, 5, 5), time=60)
    j += shards("triangle-steiner-grid5", "O3,S", full(4, 5), [(0, 1), (1, 2), (0, 3), (0, 2)], bbox=(0, 0, 5, 5), time=60)
    # five points, one scenario for each order of all five
    pairs = [(a, b) for b in range(5) for a in range(b)]
    five = []
    for name, spec in (("pentagon", "O5"), ("quadrilateral-steiner", "O4,S"), ("triangle-steiners", "O3,B2")):
        five.append(shards(name + "-grid5", spec, full(5, 5), pairs, bbox=(0, 0, 5, 5), time=240))
    if tier == "quick":
        # a few of them in every run
        return j + [rng.choice(x) for x in five]
    for x in five:
        j += x
    return j

def templates(rng, count, tier):
    """larger inputs with one to three symbolic points"""
    k = 0
    while k < count:
        u = rng.random()
        g = rng.choice([10, 10, 20, 20, 40])
        n = rng.choice([4, 5, 6, 7, 8, 9, 10, 12, 14, 18, 24])
        if n > 12:
            g = rng.choice([20, 40, 100])
        holes = rng.choice([0, 0, 0, 1, 1, 2])
        st = rng.choice([0, 0, 1, 1, 2, 4, 8])
        s = shape(rng, n, holes, st, g)
        if s is None:
            continue
        spec, pts = calls(rng, *s)
        ns = 1 if u < 0.6 else 2
        if len(pts) > 16:
            ns = 1
        toks, pick = symbolic(rng, pts, ns, g, None if ns == 1 else rng.choice([2, 3, None]))
        if not pick:
            continue
        j = Job("template-%d-n%d-s%d" % (k, len(pts), len(pick)), spec, toks, time=6 if tier == "quick" else 60)
        if rng.random() < 0.3:
            j.shift(rng.choice([-g // 2, -3 * g, 7, 1000]), rng.choice([-g // 2, -3 * g, 7, 1000]))
        k += 1
        yield j

def near(a, b, d):
    """a point about halfway from a to b with orient(a, b, point) = d (the vector made coprime)"""
    p, q = b[0] - a[0], b[1] - a[1]
    if math.gcd(p, q) != 1:
        return None
    # p * y - q * x = d
    y = pow(p, -1, abs(q)) * d % abs(q) if abs(q) > 1 else 0
    if q == 0 or (p * y - d) % q:
        return None
    x = (p * y - d) // q
    n = p * p + q * q
    k = round(0.5 - (x * p + y * q) / n)
    for e in (0, 1, -1):
        r = (a[0] + x + (k + e) * p, a[1] + y + (k + e) * q)
        if 0 < (r[0] - a[0]) * p + (r[1] - a[1]) * q < n:
            return r
    return None

def slide(rng, pts, shift, span):
    """all points symbolic: one translation"""
    i = 0
    x, y = pts[i]
    return ["v:%d:%d,v:%d:%d" % (x + shift[0], x + shift[0] + span, y + shift[1], y + shift[1] + span) if j == i else
            "x%d%+d,y%d%+d" % (i, p[0] - x, i, p[1] - y) for j, p in enumerate(pts)]

def far_quads(rng, tier, f32=False):
    """four nearly cocircular points with large coordinates: rounded products have the wrong sign"""
    qs = [[tuple(map(int, p.split(","))) for p in l.split()] for l in open(os.path.join(HERE, "quads32.txt" if f32 else "quads.txt"))]
    k = 0
    while True:
        q = rng.choice(qs)
        h = 5
        while h <= max(abs(c) for p in q for c in p):
            h *= 2
        f = rng.choice([lambda p: p, lambda p: (p[1], p[0]), lambda p: (-p[0], p[1]), lambda p: (p[0], -p[1]), lambda p: (-p[1], p[0]), lambda p: (-p[0], -p[1])])
        q = [f(p) for p in q]
        rng.shuffle(q)
        o = [(-h, -h), (h, -h), (h, h), (-h, h)]
        o = turn(rng, [(x + h, y + h) for x, y in o], 2 * h)
        q = [(x + h, y + h) for x, y in q]
        k += 1
        pts = o + q
        u = rng.random()
        if u < 0.5:
            toks = slide(rng, pts, (rng.choice([0, -h, 12345, 1 << 20]), rng.choice([0, -h, -77, 1 << 18])), 20 if f32 else 100)
        else:
            # one of the four moves a little
            i = 4 + rng.randrange(4)
            toks = ["%d,%d" % p for p in pts]
            toks[i] = "v:%d:%d,v:%d:%d" % (pts[i][0] - 1, pts[i][0] + 1, pts[i][1] - 1, pts[i][1] + 1)
        yield Job("far-quad-%d-n8-s1" % k, "O4,B4", toks, time=4 if tier == "quick" else 30)

def far_lines(rng, tier, f32=False):
    """large coordinates, with points next to the edges"""
    n = 0
    while True:
        g = rng.choice([10, 10, 20, 20, 40])
        s = shape(rng, rng.choice([3, 4, 5, 6, 8, 10, 14]), rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 1, 2]), g)
        if s is None:
            continue
        rings, st = s
        k = rng.choice([13, 14, 16]) if f32 else rng.choice([20, 22, 24, 24])
        m = 1 << k
        G = g * m
        def scale(p):
            return tuple(c * m if c in (0, g) else c * m + rng.randint(-m // 8, m // 8) for c in p)
        rings = [[scale(p) for p in r] for r in rings]
        st = [scale(p) for p in st]
        if not valid(rings, st):
            continue
        new = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _ in range(40):
                ri = rng.randrange(len(rings))
                r = rings[ri]
                i = rng.randrange(len(r))
                a, b = r[i], r[(i + 1) % len(r)]
                x = near(a, b, rng.choice([1, -1, 1, -1, 2, -2, 3, -3]))
                if x is None or not (0 <= x[0] <= G and 0 <= x[1] <= G):
                    # make the vector coprime
                    i = (i + 1) % len(r)
                    c = (r[i][0] + rng.randint(-40, 40), r[i][1] + rng.randint(-40, 40))
                    a = r[i]
                    if r[i][0] in (0, G) or r[i][1] in (0, G):
                        continue
                    r2 = r[:i] + [c] + r[i + 1:]
                    if valid(rings[:ri] + [r2] + rings[ri + 1:], st):
                        rings[ri] = r2
                    continue
                if rng.random() < 0.6:
                    if valid(rings, st + [x]):
                        st.append(x)
                        new.append(x)
                        break
                else:
                    r2 = r[:i + 1] + [x] + r[i + 1:]
                    if valid(rings[:ri] + [r2] + rings[ri + 1:], st):
                        rings[ri] = r2
                        new.append(x)
                        break
        # a vertex that was moved is not there any more
        new = [x for x in new if x in st or any(x in r for r in rings)]
        if not new:
            continue
        n += 1
        spec, pts = calls(rng, rings, st)
        if not f32 and rng.random() < 0.4:
            toks = slide(rng, pts, (rng.choice([0, -G // 2, 12345]), rng.choice([0, -G // 2, 1 << 18])), 50)
        else:
            toks = ["%d,%d" % p for p in pts]
            i = pts.index(rng.choice(new))
            p = pts[i]
            if 0 < p[0] < G and 0 < p[1] < G:
                toks[i] = "v:%d:%d,v:%d:%d" % (p[0] - 1, p[0] + 1, p[1] - 1, p[1] + 1)
            else:
                continue
        yield Job("far-line-%d-n%d-s1" % (n, len(pts)), spec, toks, time=4 if tier == "quick" else 30)

def invalid_core(tier):
    """every input at all of a few points on a small grid"""
    j = []
    for n, g in [(3, 10), (4, 5)]:
        j += shards("any-%d-grid%d" % (n, g), "O%d" % n, full(n, g), [(0, 1), (1, 2)], bbox=(0, 0, g, g), time=60)
    j += shards("any-3-steiner-grid5", "O3,S", full(4, 5), [(0, 1), (1, 2)], bbox=(0, 0, 5, 5), time=60)
    for spec, n in [("O2", 2), ("O1,S", 2), ("O2,S", 3), ("O1,H1", 2), ("O2,H2", 4), ("O1,H3", 4), ("O3,H1", 4)]:
        j.append(Job("any-" + spec, spec, full(n, 5), bbox=(0, 0, 5, 5), time=20))
    return j

def invalid_templates(rng, tier):
    """random, mostly invalid inputs with one or two symbolic points"""
    k = 0
    while True:
        g = rng.choice([5, 10, 10, 20])
        n = rng.choice([4, 5, 5, 6, 7, 8, 10, 14])
        kind = rng.random()
        if kind < 0.35:
            # an outline in any order, with repeated points
            pts = [(rng.randint(0, g), rng.randint(0, g)) for _ in range(n)]
            ops = ["O%d" % n]
        elif kind < 0.7:
            # a valid outline, anything else anywhere
            o = outline(rng, n, g)
            if o is None:
                continue
            pts, ops = list(o), ["O%d" % len(o)]
        else:
            pts = [(rng.randint(0, g), rng.randint(0, g)) for _ in range(n)]
            o = two_opt(rng, list(set(pts)))
            if not o or len(o) < 3:
                continue
            pts, ops = list(o), ["O%d" % len(o)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            m = rng.choice([1, 2, 3, 4, 5])
            ops.append(rng.choice(["H", "H", "B"]) + str(m))
            pts += [rng.choice([(rng.randint(0, g), rng.randint(0, g)), rng.choice(pts)]) for _ in range(m)]
        pts = snap(pts, g)
        toks, pick = symbolic(rng, pts, rng.choice([1, 1, 2]), g, None)
        if not pick:
            continue
        k += 1
        yield Job("invalid-template-%d-n%d-s%d" % (k, len(pts), len(pick)), ",".join(ops), toks, time=6 if tier == "quick" else 60)

def layout(rng, rings, st):
    """the text of a well-formed file; points are numbered in file order"""
    blank = " \t"
    wide = [" ", " ", "  ", "\t", " \t ", "   ", "\x0b", "\x0c", "\u00a0", "\u3000", "\u2003"]
    kind = rng.random()
    end = rng.choice(["\n", "\n", "\r\n"])
    plain = kind < 0.25
    def gap(least):
        if plain:
            return " " * least
        return "".join(rng.choice(wide) for _ in range(rng.randint(least, 2)))
    out = []
    # 5 %: somewhere a lot of white space, in a line of its own or as many blank lines
    long = rng.randint(0, sum(map(len, rings)) + len(st)) if rng.random() < 0.05 else -1
    def noise():
        nonlocal long
        long -= 1
        if long == 0:
            out.append("{+%d%s}" % (rng.choice([4090, 8191, 65530, 65536, 131072, 1 << 20]) + rng.randint(0, 9), rng.choice(" \t\n\n")))
        while not plain and rng.random() < 0.2:
            out.append(rng.choice(["", "", " ", "\t", "  \t"]))
    def point(i):
        s = [0, 0, 0, 1, 2, 3, 4, 5, 6, 7]
        a, b = (0, 0) if plain else (rng.choice(s), rng.choice(s))
        noise()
        out.append("%s{%dx%d}%s{%dy%d}%s" % (gap(0), i, a, gap(1), i, b, gap(0)))
    noise()
    first = [0]
    for r in rings:
        first.append(first[-1] + len(r))
    secs = [("HOLE", range(first[k], first[k + 1])) for k in range(1, len(rings))]
    n = first[-1]
    if st or rng.random() < 0.1:
        # usually one section at the end
        u = rng.random()
        if u < 0.6:
            secs.append(("STEINER", range(n, n + len(st))))
        else:
            cut = rng.randint(0, len(st))
            at = sorted(rng.randint(0, len(secs)) for _ in range(2))
            secs.insert(at[1], ("STEINER", range(n + cut, n + len(st))))
            secs.insert(at[0], ("STEINER", range(n, n + cut)))
    for i in range(first[1]):
        point(i)
    for name, ids in secs:
        noise()
        out.append(name)
        for i in ids:
            point(i)
    noise()
    text = ""
    for k, l in enumerate(out):
        e = end if rng.random() < 0.95 else rng.choice(["\n", "\r\n"])
        text += l + (e if k + 1 < len(out) or rng.random() < 0.8 else "")
    return text

def files(rng, tier):
    k = 0
    while True:
        g = rng.choice([10, 10, 20])
        s = shape(rng, rng.choice([3, 4, 4, 5, 6, 8]), rng.choice([0, 0, 1, 1, 2]), rng.choice([0, 0, 1, 2, 3]), g)
        if s is None:
            continue
        rings, st = s
        ops = ["O%d" % len(rings[0])] + ["H%d" % len(h) for h in rings[1:]] + (["B%d" % len(st)] if st else [])
        pts = [p for r in rings for p in r] + st
        toks, pick = symbolic(rng, pts, rng.choice([1, 1, 2]), g, rng.choice([1, 2]))
        if not pick:
            continue
        k += 1
        j = Job("file-%d-n%d-s%d" % (k, len(pts), len(pick)), ",".join(ops), toks, time=4 if tier == "quick" else 30,
                mode="load:" + layout(rng, rings, st).encode().hex())
        u = rng.random()
        if u < 0.5:
            # more digits than single precision has
            j.shift(rng.choice([1 << 24, 16777211, 123456787, (1 << 33) + 1, -123456787, 999999999]), rng.choice([0, 1 << 25, 33554425, -(1 << 24)]))
        if u < 0.4 or u > 0.7:
            j.kw["scale"] = rng.choice([-1, -2, -3, -8, -14, 1, 10])
        yield j

HERE = os.path.dirname(os.path.abspath(__file__))

def corpus(rng, tier):
    """inputs that reach rare branches, with one or two points symbolic"""
    path = os.path.join(HERE, "corpus.txt")
    lines = [l.split("#")[0].split() for l in open(path)] if os.path.exists(path) else []
    lines = [l for l in lines if l]
    k = 0
    while lines:
        rng.shuffle(lines)
        for l in lines:
            pts = [tuple(map(int, p.split(","))) for p in l[1:]]
            rings, st, _ = rings_of(l[0])
            rings, st = [[pts[i] for i in r] for r in rings], [pts[i] for i in st]
            # times 10, so that the sides of the bounding box are multiples of 10
            x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
            w, h = 10 * (max(p[0] for p in pts) - x0), 10 * (max(p[1] for p in pts) - y0)
            flip = rng.random() < 0.25
            def f(p):
                x, y = 10 * (p[0] - x0), 10 * (p[1] - y0)
                return (w - x, y) if flip else (x, y)
            rings = [[f(p) for p in r] for r in rings]
            st = [f(p) for p in st]
            k += 1
            spec, pts = calls(rng, rings, st)
            toks = ["%d,%d" % p for p in pts]
            free = list(range(len(pts)))
            rng.shuffle(free)
            n = 0
            for j in free[:rng.choice([2, 2, 3])]:
                rad = rng.choice([5, 20, 60, 150] if n == 0 else [5, 10, 20] if n == 1 else [1, 5])
                # the bounding box stays
                ax = [1 if any(pts[i][c] == pts[j][c] for i in range(len(pts)) if i != j) or 0 < pts[j][c] < (w, h)[c] else 0 for c in (0, 1)]
                v = lambda c: "v:%d:%d" % (max(0, pts[j][c] - rad), min((w, h)[c], pts[j][c] + rad)) if ax[c] else "%d" % pts[j][c]
                if n and not all(0 < pts[j][c] < (w, h)[c] for c in (0, 1)):
                    continue
                toks[j] = v(0) + "," + v(1)
                n += 1
            yield Job("corpus-%d-n%d-s1" % (k, len(pts)), spec, toks, time=6 if tier == "quick" else 60)

def offsets(rng, tier, f32=False):
    """small inputs so far from the origin that a part of the extent is lost in rounding"""
    m = 1 << (23 if f32 else 52)
    k = 0
    while True:
        far = lambda: rng.choice([m, -m, m + rng.randint(0, m - 50), -m - rng.randint(0, m - 50), 2 * m - 30, 30 - 2 * m])
        d = rng.choice([(far(), far()), (far(), 0), (0, far()), (far(), rng.randint(-100, 100)), (far(), far())])
        # the artificial points have three tenths of the extent as margin: no fraction near the origin
        w, h = (rng.choice([1, 1, 2, 3, 5, 10] if abs(c) > 100 else [10, 20]) for c in d)
        n = rng.choice([3, 4, 4, 5, 6, 8])
        pts = list({(rng.randint(0, w), rng.randint(0, h)) for _ in range(n)})
        if len(pts) < 3 or any(max(p[c] for p in pts) - min(p[c] for p in pts) != (w, h)[c] for c in (0, 1)):
            continue
        o = two_opt(rng, pts)
        if not o:
            continue
        st = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            p = (rng.randint(0, w), rng.randint(0, h))
            if valid([o], st + [p]):
                st.append(p)
        if not valid([o], st):
            continue
        spec, pts = calls(rng, [o], st)
        lo = [min(p[c] for p in pts) for c in (0, 1)]
        hi = [max(p[c] for p in pts) for c in (0, 1)]
        toks = ["%d,%d" % p for p in pts]
        idx = list(range(len(pts)))
        rng.shuffle(idx)
        ns = 0
        for i in idx:
            rest = [p for j, p in enumerate(pts) if j != i]
            if ns < 2 and all(min(p[c] for p in rest) == lo[c] and max(p[c] for p in rest) == hi[c] for c in (0, 1)):
                pts[i] = rest[0]
                toks[i] = "v:%d:%d,v:%d:%d" % (lo[0], hi[0], lo[1], hi[1])
                ns += 1
        if not ns:
            # one coordinate of one point
            i, c = rng.choice(idx), rng.choice([0, 1])
            if rng.random() < 0.3 or all(p[c] != pts[i][c] for j, p in enumerate(pts) if j != i) and pts[i][c] in (lo[c], hi[c]):
                if rng.random() < 0.5:
                    continue
            else:
                v = ["%d" % x for x in pts[i]]
                v[c] = "v:%d:%d" % (lo[c], hi[c])
                toks[i] = ",".join(v)
        k += 1
        kw = {"scale": rng.choice([-60, -20, -7, 3, 30])} if not f32 and rng.random() < 0.3 else {}
        yield Job("offset-%d-n%d-s%d" % (k, len(pts), ns), spec, toks, time=4 if tier == "quick" else 30, **kw).shift(*d)

def mix(rng, tier, prop):
    """templates of all kinds"""
    f32 = prop == "C16"
    fam = [(4, templates(rng, 10**9, tier)), (4, corpus(rng, tier)), (2, far_lines(rng, tier, f32))]
    fam.append((1, far_quads(rng, tier, f32)))
    if prop != "C24":
        fam.append((1, offsets(rng, tier, f32)))
    fam.append((2, lattice(rng, tier)))
    fam.append((3 if prop == "C06" else 1, many(rng, tier)))
    if prop in ("C01", "C02", "C03", "C04", "C05", "C13", "C15", "C24", "C25"):
        fam.append((1, huge(rng, tier, [150, 300, 300, 600, 2500])))
    elif prop == "C16":
        fam.append((1, huge(rng, tier, [60, 100, 150, 300])))
    else:
        # every step is compared with the one before it, or, of more than 160 points, some callbacks are looked at
        big = {"C06": [300, 600], "C07": [400, 1000], "C08": [600, 2500], "C09": [250], "C10": [400], "C23": [400], "C12": [400, 600], "C11": [300, 600], "C19": [300, 600], "C20": [300], "C21": [300], "C22": [300, 600]}
        fam.append((1, huge(rng, tier, [60, 100, 150, 150] + big.get(prop, []))))
    while True:
        for n, f in fam:
            for _ in range(n):
                try:
                    j = next(f)
                except StopIteration:
                    break
                if rng.random() < 0.15 and not f32 and re.match("template|lattice|many|corpus", j.name):
                    stretch(j, *rng.choice([(0, 10), (10, 0), (0, 3), (3, 0), (0, 6), (6, 0)]))
                if rng.random() < 0.3:
                    # far from one in size
                    e = rng.choice([3, 7, 13, 20, 30, 40]) if f32 else rng.choice([5, 11, 20, 33, 50, 80, 120, 180])
                    j.kw.setdefault("scale", rng.choice([-e, -e, e]))
                yield j

def with_large(rng, tier, small):
    """every sixth input is a larger one (valid but for the symbolic points)"""
    large = [lattice(rng, tier), many(rng, tier), huge(rng, tier, [60, 100, 150]), corpus(rng, tier)]
    while True:
        for _ in range(5):
            yield next(small)
        try:
            j = next(rng.choice(large))
        except StopIteration:
            continue
        j.kw.setdefault("ticks", 40000000)
        yield j

def scenarios(prop, rng, tier):
    if prop == "C17":
        yield from files(rng, tier)
    if prop == "C14":
        c, t = invalid_core(tier), with_large(rng, tier, invalid_templates(rng, tier))
    else:
        c, t = core(tier, rng), mix(rng, tier, prop)
    # some templates first, so that every run has both
    for k in range(24):
        if k == 8 and prop in ("C01", "C02", "C03", "C05"):
            # more points than a sixteen bit number counts
            j = next(huge(rng, tier, [66000]))
            # not with debug assertions, they take too long
            j.kw["plain"] = 1
            yield j
        yield next(t)
    for j in c:
        yield j
        yield next(t)
    while True:
        yield next(t)
