"""Character classes as code point ranges (independent of the engine)."""


def spans(pred):
    out = []
    for c in range(0x110000):
        if pred(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return tuple((a, b) for a, b in out)


WORD = spans(lambda c: c.isalnum() or c == "_")
SPACE = spans(lambda c: c.isspace())
