"""Lexer for the textual query language the SDK emits (shared by both modes, no solver import).

Whitespace between tokens is insignificant; quoted literals are decoded with the usual
backslash rules.  `items` is a list of characters (concrete mode) or of characters, symbolic
characters and atoms (symbolic mode); `isin(item, chars)` decides membership."""
from __future__ import annotations

WS = " \t\r\n\x0b\x0c"
PUNCT = "()[]{},=<>!+*/;&|^~?$%\\\"'"
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "b": "\b", "f": "\f", "a": "\a", "v": "\v"}


class LexError(Exception):
    pass


def lex(items, isin, is_atom=lambda c: False, quote="'"):
    """-> list of (kind, [items]); kind is str, bt (back-ticked), word or punct."""
    out = []
    i, n = 0, len(items)
    word = []

    def flush():
        nonlocal word
        if word:
            out.append(("word", word))
            word = []

    while i < n:
        c = items[i]
        if is_atom(c):
            word.append(c)
            i += 1
            continue
        if isin(c, WS):
            flush()
            i += 1
            continue
        if isin(c, quote):
            flush()
            buf = []
            i += 1
            while True:
                if i >= n:
                    raise LexError("unterminated string literal")
                c = items[i]
                if is_atom(c):
                    buf.append(c)
                    i += 1
                    continue
                if isin(c, quote):
                    i += 1
                    break
                if isin(c, "\n"):
                    raise LexError("raw newline in a string literal")
                if isin(c, "\\"):
                    i += 1
                    if i >= n:
                        raise LexError("dangling escape")
                    d = items[i]
                    for k, v in ESC.items():
                        if isin(d, k):
                            buf.append(v)
                            break
                    else:
                        buf.append(d)
                    i += 1
                    continue
                buf.append(c)
                i += 1
            out.append(("str", buf))
            continue
        if isin(c, "`"):
            flush()
            buf = []
            i += 1
            while True:
                if i >= n:
                    raise LexError("unterminated back-ticked name")
                c = items[i]
                if not is_atom(c) and isin(c, "`"):
                    i += 1
                    break
                buf.append(c)
                i += 1
            out.append(("bt", buf))
            continue
        if isin(c, PUNCT):
            flush()
            out.append(("punct", [c]))
            i += 1
            continue
        word.append(c)
        i += 1
    flush()
    return out
