"""functions on which the verification-condition generator is tried (selftest.py)"""


def small(xs, k):
    out = []
    for x in xs:
        if x < k:
            out.append(x)
    return out


def small_wrong(xs, k):
    out = []
    for x in xs:
        if x <= k:
            out.append(x)
    return out


def small_comprehension(xs, k):
    return [x for x in xs if not x >= k]


def doubled(xs):
    d = {}
    for x in xs:
        d[x] = 2 * x
    return d


def doubled_wrong(xs):
    d = {}
    for x in xs:
        if x != 7:
            d[x] = 2 * x
    return d


def overwritten(xs, k):
    d = {}
    for x in xs:
        d[x] = x
        if x > k:
            d[x] += 1
    return d


def overwritten_wrong(xs, k):
    d = {}
    for x in xs:
        d[x] = x
        if x > k:
            d[x] += 2
    return d


def first(xs, k):
    for x in xs:
        if x > k:
            return x
    return None


def first_wrong(xs, k):
    for x in xs:
        if x >= k:
            return x
    return None


def changes_argument(xs, k):
    xs.append(k)
    return xs


def arith(a, b, c):
    x = a * 3 - b
    if x < c:
        x += 7
    elif x == c or b > 4 and a != b:
        x = -x
    else:
        x = x // 3 + b % 5
    y = max(x, a) - min(b, c) + abs(c)
    while_free = (x, y)[1]
    return while_free if a < b < c else x - y


def calls(a, b, c):
    def inner(p, q=2):
        return p * q if p > q else q - p
    t = inner(a, b) + inner(c)
    return t if not (a > b and b > c) else inner(q=t, p=a)


def chain(a, b, c):
    items = [a, b, c]
    items.append(a + b)
    total = 0
    for i, x in enumerate(items):
        if i == 2:
            continue
        total += x * i
    d = {"u": total, "v": b}
    if d["u"] > d["v"]:
        d["w"] = a
    return d.get("w", c) + sum([v for v in d.values()])


def raises(a, b, c):
    if a > b:
        raise ValueError("a")
    if c in (a, b):
        return c
    return [a, b][0] if c > 0 else b


def mirrored(xs):
    return xs[::-1]


def mirrored_wrong(xs):
    return xs[:]
