"""Parser for the text reports of inspect()."""
import re

import numpy as np

NUMBER = re.compile(r"[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?|\.\d+)", re.I)


def parse(text, names):
    """{entry: (rest of the line, following lines)}; also the order."""
    entries, order, current = {}, [], None
    for line in text.splitlines():
        m = re.match(r"(\S+) : ?(.*)$", line)
        if m and m.group(1) in names:
            current = m.group(1)
            order.append(current)
            entries.setdefault(current, (m.group(2), []))
        elif current is not None:
            entries[current][1].append(line)
    return entries, order


def sizes(head):
    """'(M=2, N=3)' -> [('M', 2), ('N', 3)]; '(2, 3)' -> [(None, 2), …]"""
    m = re.match(r"\((.*?),?\)$", head.strip())
    if not m:
        return None
    out = []
    for part in m.group(1).split(","):
        part = part.strip()
        if not part:
            continue
        if "=" in part:
            d, n = part.split("=")
            out.append((d.strip(), int(n)))
        else:
            out.append((None, int(part)))
    return out


def numbers(text):
    return [float(x) for x in NUMBER.findall(text)]


def close(a, b):
    return len(a) == len(b) and bool(np.allclose(
        a, b, rtol=1e-6, atol=1e-7, equal_nan=True))
