"""Generic minimisation candidates for JSON cases."""
import copy


def get(case, path):
    for p in path.split("."):
        if isinstance(case, dict) and p in case:
            case = case[p]
        else:
            return None
    return case


def put(case, path, v):
    c = copy.deepcopy(case)
    d = c
    ps = path.split(".")
    for p in ps[:-1]:
        d = d[p]
    d[ps[-1]] = v
    return c


def candidates(case, ints=(), lists=(), dicts=(), sets=()):
    """ints: (path, minimum); lists/dicts: path whose items may be dropped; sets: (path, simpler value)."""
    for path, v in sets:
        cur = get(case, path)
        if cur is not None and cur != v:
            yield put(case, path, v)
    for path in lists:
        cur = get(case, path)
        if isinstance(cur, list) and cur:
            n = len(cur)
            if n > 3:
                yield put(case, path, cur[:n // 2])
                yield put(case, path, cur[n // 2:])
            for i in range(n):
                yield put(case, path, cur[:i] + cur[i + 1:])
    for path in dicts:
        cur = get(case, path)
        if isinstance(cur, dict) and cur:
            if len(cur) > 1:
                yield put(case, path, {})
            for k in list(cur):
                yield put(case, path, {a: b for a, b in cur.items() if a != k})
    for path, mn in ints:
        cur = get(case, path)
        if isinstance(cur, int) and cur > mn:
            for v in dict.fromkeys([mn, (cur + mn) // 2, cur - 1]):
                if v < cur:
                    yield put(case, path, v)
