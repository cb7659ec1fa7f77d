"""Exact polygon areas, independent of shapely."""
from fractions import Fraction


def area2(poly):
    s = Fraction(0)
    for (x1, y1), (x2, y2) in zip(poly, poly[1:] + poly[:1]):
        s += x1 * y2 - x2 * y1
    return s


def ccw(poly):
    poly = [(Fraction(x), Fraction(y)) for x, y in poly]
    return poly if area2(poly) > 0 else poly[::-1]


def clip(subject, clipper):
    """Sutherland-Hodgman: the intersection of two convex counter-clockwise polygons."""
    out = subject
    for (ax, ay), (bx, by) in zip(clipper, clipper[1:] + clipper[:1]):
        inp, out = out, []
        if not inp:
            break

        def side(p):
            return (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)

        prev = inp[-1]
        for cur in inp:
            sc, sp = side(cur), side(prev)
            if sc >= 0:
                if sp < 0:
                    out.append(cross(prev, cur, sp, sc))
                out.append(cur)
            elif sp >= 0:
                out.append(cross(prev, cur, sp, sc))
            prev = cur
    return out


def cross(p, q, sp, sq):
    t = sp / (sp - sq)
    return (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))


def convex_iou(a, b):
    a, b = ccw(a), ccw(b)
    inter = clip(a, b)
    ia = area2(inter) / 2 if len(inter) >= 3 else Fraction(0)
    u = area2(a) / 2 + area2(b) / 2 - ia
    return ia / u if u > 0 else Fraction(0)


def hull(points):
    pts = sorted(set(map(tuple, points)))

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]

    return half(pts) + half(pts[::-1])
