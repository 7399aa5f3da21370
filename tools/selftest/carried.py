from typing import List
def a_ref(xs: List[float], lim: float):
    best = None
    m = lim
    for x in xs:
        d = abs(x - 3)
        if d < m:
            m = d
            best = x
    if best is None:
        return 0
    return best
def a_e1(xs: List[float], lim: float):
    best, m = None, lim
    for y in xs:
        if abs(y - 3) >= m:
            continue
        best = y
        m = abs(y - 3)
    return 0 if best is None else best
def a_d1(xs: List[float], lim: float):
    best = None
    m = lim
    for x in xs:
        d = abs(x - 3)
        if d <= m:
            m = d
            best = x
    if best is None:
        return 0
    return best
def a_d2(xs: List[float], lim: float):
    best = None
    m = lim
    for x in xs:
        d = abs(x - 3)
        if d < m:
            best = x
    if best is None:
        return 0
    return best
def a_d3(xs: List[float], lim: float):
    best = None
    m = lim + 1
    for x in xs:
        d = abs(x - 3)
        if d < m:
            m = d
            best = x
    if best is None:
        return 0
    return best
def a_u1(xs: List[float], lim: float):
    c = [x for x in xs if abs(x - 3) < lim]
    if not c:
        return 0
    return min(c, key=lambda x: abs(x - 3))
def b_ref(xs: List[float]):
    n = 0
    flag = False
    for x in xs:
        if flag and x > 0:
            n += 1
        if x < 0:
            flag = not flag
    return n
def b_e1(xs: List[float]):
    total = 0
    on = False
    for x in xs:
        if on and x > 0:
            total = total + 1
        if not x >= 0:
            if on:
                on = False
            else:
                on = True
    return total
def b_d1(xs: List[float]):
    n = 0
    flag = False
    for x in xs:
        if x < 0:
            flag = not flag
        if flag and x >= 0:
            n += 1
    return n
def c_ref(xs: List[float]):
    prev = None
    out = []
    for x in xs:
        if prev is not None and x > prev:
            out.append(x - prev)
        prev = x
    return out
def c_e1(xs: List[float]):
    last = None
    res = []
    for x in xs:
        if last is not None:
            if last < x:
                res.append(x - last)
        last = x
    return res
def c_d1(xs: List[float]):
    prev = None
    out = []
    for x in xs:
        if prev is not None and x > prev:
            out.append(x - prev)
            prev = x
        elif prev is None:
            prev = x
    return out
