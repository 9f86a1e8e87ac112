"""Layout transformations of program texts: the tokens of a line and the gaps between them."""
import re

TOK = re.compile(r'''"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])'|\d+/\d+/\d+|\d+\.\d+|\d+|[A-Za-z_]\w*|<-|<>|<=|>=|//[^\n]*|[^\s]''')
IO = {"OUTPUT", "PRINT", "INPUT", "READ", "OPENFILE", "READFILE", "WRITEFILE", "CLOSEFILE", "SEEK", "GETRECORD", "PUTRECORD"}


def tokens(line):
    """[(start, end)] without a trailing comment"""
    out = []
    for m in TOK.finditer(line):
        if m.group().startswith("//"):
            break
        out.append((m.start(), m.end()))
    return out


def insert(line, k, ws):
    """ws before token k (k = number of tokens: after the last one)"""
    t = tokens(line)
    at = t[k][0] if k < len(t) else (t[-1][1] if t else len(line))
    return line[:at] + ws + line[at:]


COMMENTS = ["// c", "//", "//x", "// \"unclosed", "// it's", "// ENDIF ) ] THEN", "// a // b", "//\t", "// \xe9\xff", "/// 1/2/3", "// TYPE T = (a, b)", "//'", "// OUTPUT 1", "// x <- 1 @ $"]
BLANKS = ["", " ", "\t", "   \t ", "// full line", "  // indented", "\t//", "// \"", "// it's ENDWHILE"]
WS = [" ", "\t", "   ", " \t ", "\t\t"]


def mutate(rng, text, gaps=0.3, indent=0.4, blanks=0.2, comments=0.25, crlf=None, pre=0):
    """one random layout of the program text: (text, map from old line numbers to new ones)"""
    if crlf is None:
        crlf = rng.choice(["lf", "lf", "crlf", "mixed"])
    out, where = [], {}
    lines = text.split("\n")
    last = lines.pop() if lines[-1] == "" else None
    for i, ln in enumerate(lines):
        while rng.random() < blanks or pre > 0 and i == 0 and len(out) < pre:
            out.append(rng.choice(BLANKS))
        t = tokens(ln)
        n = len(t)
        for k in range(n - 1, 0, -1):
            if rng.random() < gaps:
                ln = insert(ln, k, rng.choice(WS))
        if rng.random() < indent:
            ln = rng.choice(["", " ", "\t", "    ", "\t \t"]) + ln.lstrip(" \t")
        if rng.random() < comments:
            ln = ln + rng.choice(["", " ", "\t", "  "]) + rng.choice(COMMENTS)
        elif rng.random() < 0.2:
            ln = ln + rng.choice(WS)
        where[i + 1] = len(out) + 1
        out.append(ln)
    while rng.random() < blanks:
        out.append(rng.choice(BLANKS))
    s = ""
    for i, ln in enumerate(out):
        end = "\r\n" if crlf == "crlf" or crlf == "mixed" and rng.random() < 0.5 else "\n"
        if i == len(out) - 1 and (last is None or rng.random() < 0.3):
            end = ""
        s += ln + end
    where[len(lines) + 1] = len(out) + 1
    return s, where


def single(text, every=1, start=0):
    """every text with exactly one insertion: (label, text, line, lines added above)"""
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    j = start
    for i, ln in enumerate(lines):
        t = tokens(ln)
        for k in range(0, len(t)):
            j += 1
            if j % every:
                continue
            w = WS[(j // every) % len(WS)]
            yield "g%d.%d" % (i + 1, k), "\n".join(lines[:i] + [insert(ln, k, w)] + lines[i + 1:]) + "\n", None
        j += 1
        if j % every == 0:
            b = BLANKS[(j // every) % len(BLANKS)]
            yield "b%d" % (i + 1), "\n".join(lines[:i] + [b] + lines[i:]) + "\n", i + 1
        j += 1
        if j % every == 0:
            c = COMMENTS[(j // every) % len(COMMENTS)]
            yield "c%d" % (i + 1), "\n".join(lines[:i] + [ln + ["", " ", "\t"][j % 3] + c] + lines[i + 1:]) + "\n", None
        j += 1
        if j % every == 0:
            yield "r%d" % (i + 1), "\n".join(lines[:i] + [ln + "\r"] + lines[i + 1:]) + "\n", None
