"""Reader for the configuration template: nested mappings, lists of scalars or mappings (a YAML subset)."""


def parse(path):
    rows = []
    with open(path) as fh:
        for n, line in enumerate(fh, 1):
            s = line.split("#", 1)[0].rstrip()
            if s.strip():
                rows.append((len(s) - len(s.lstrip()), s.strip(), n))
    v, i = block(rows, 0, rows[0][0])
    return v


def scalar(s):
    if s in ("", "null", "~", "Null", "NULL"):
        return None
    if s.lower() in ("true", "false"):
        return s.lower() == "true"
    try:
        return float(s)
    except ValueError:
        return s.strip("'\"")


def block(rows, i, ind):
    if rows[i][1].startswith("- "):
        out = []
        while i < len(rows) and rows[i][0] == ind and rows[i][1].startswith("- "):
            body = rows[i][1][2:].strip()
            if ":" in body:
                sub = [(ind + 2, body, rows[i][2])]
                i += 1
                while i < len(rows) and rows[i][0] > ind:
                    sub.append(rows[i])
                    i += 1
                out.append(block(sub, 0, ind + 2)[0])
            else:
                out.append(scalar(body))
                i += 1
        return out, i
    out = {}
    while i < len(rows) and rows[i][0] == ind:
        k, _, v = rows[i][1].partition(":")
        k, v = k.strip(), v.strip()
        i += 1
        if v:
            out[k] = scalar(v)
        elif i < len(rows) and (rows[i][0] > ind or rows[i][0] == ind and rows[i][1].startswith("- ")):
            out[k], i = block(rows, i, rows[i][0])
        else:
            out[k] = None
    return out, i
