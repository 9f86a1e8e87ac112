"""C10 layout, C11 syntax checked first / diagnostics, C12 REPL, C20 --pedantic."""
import itertools
import random
import re
import mc
from common import *
import corpus as CO
import layout as LA
import gen_prog as GP
import gen_expr as X
import gen_loops
import gen_dyn
import gen_recs
import props_files
import props_lib


def progtext(rng, **kw):
    return GP.file_text(GP.Gen(random.Random(rng.random()), **kw).program())


# one-line statements that are wrong wherever a statement may stand
FAULTS = ["x <- (1 + 2", "x <- 1 +", "x <-", "x <- )", "x <- 1 2", "x <- 'ab'", "x <- \"abc", "x <- 'a", "x <- @", "x ! 1", "DECLARE x INTEGER", "DECLARE x :", "DECLARE : INTEGER", "DECLARE x : ARRAY[1:2] INTEGER",
          "DECLARE x : ARRAY[1] OF INTEGER", "DECLARE x, : INTEGER", "DECLARE x : ARRAY[1:2 OF INTEGER", "CONSTANT x 5", "CONSTANT = 5", "CONSTANT x =", "CONSTANT x = 1 + 2", "x[1 <- 2", "x[] <- 1", "x[1,] <- 2", "x. <- 1",
          "x.5 <- 1", "OUTPUT", "OUTPUT 1,", "OUTPUT , 1", "OUTPUT 1 2", "INPUT", "INPUT 5", "READ \"x\"", "CALL", "CALL 5", "CALL f(1,", "CALL f(1 2)", "CALL f 1", "x <- f(", "x <- f(1,)", "x <- * 2", "x <- 1 DIV",
          "x <- 1 = = 2", "x <- NOT", "x <- 1 AND", "x == 1", "x <- 1 // 2 \"", "OPENFILE \"f\" FOR", "OPENFILE \"f\" READ", "OPENFILE \"f\" FOR UPDATE", "OPENFILE FOR READ", "READFILE \"f\"", "READFILE \"f\",", "READFILE \"f\" x",
          "WRITEFILE \"f\"", "WRITEFILE \"f\",", "WRITEFILE , 1", "CLOSEFILE", "SEEK \"f\"", "SEEK \"f\",", "SEEK , 1", "GETRECORD \"f\"", "GETRECORD \"f\", 5", "PUTRECORD \"f\"", "PUTRECORD \"f\", 1 + 1", "TYPE T = (a, b", "TYPE T = ()", "TYPE T = (a,)",
          "TYPE T = ^", "TYPE T = 5", "TYPE = (a)", "x <- 1.2.3", "x <- 'a\\q'", "x <- ''", "x <- \"\\z\"", "x <- 12abc", "x <- {1}", "x <- a ? b", "x <- #", "$", "%", "x <- 5 %", "x <- \"a\" \"b\"", "x <- 1;",
          "OUTPUT(1)", "OUTPUT(1", "PRINT(\"a\")", "INPUT(x)", "WRITEFILE(\"f\", 1)", "RETURN 1 2", "RETURN )", "x^ <- ", "^x <- 1", "<- 1", "x <- ^", "x <- y^.", "ENDIF x", "THEN", "TO 5", "OF", "BYREF x", "END", "x <- END",
          "x <- IF", "DECLARE IF : INTEGER", "DECLARE INTEGER : x", "x <- ]", "] <- 1", "CALL f(]", "x : INTEGER", "AND", "x <- <", "x <- >= 1", "x < - 1 -", "x = 1 =", "1 <- 2", "FOR", "FOR x", "FOR x <- 1", "FOR x <- 1 TO", "FOR x = 1 TO 2",
          "WHILE", "IF", "IF TRUE TRUE THEN", "CASE", "CASE x", "CASE OF", "CASE OF 5", "PROCEDURE", "PROCEDURE 5", "PROCEDURE P(", "PROCEDURE P(a)", "PROCEDURE P(a : )", "FUNCTION", "FUNCTION F() RETURNS", "FUNCTION F(a : INTEGER,) RETURNS INTEGER"]
# faults that are only about block structure: the line is not prescribed
BLOCKF = ["IF TRUE THEN", "WHILE TRUE DO", "REPEAT", "FOR zz <- 1 TO 2", "CASE OF zz", "PROCEDURE Zz", "FUNCTION Zz RETURNS INTEGER", "TYPE Zz", "IF TRUE THEN\n OUTPUT 1\nELSE", "REPEAT 5", "FUNCTION F()", "ENDIF", "ELSE", "ENDWHILE", "UNTIL TRUE", "NEXT zz",
          "NEXT", "ENDCASE", "OTHERWISE : OUTPUT 1", "ENDPROCEDURE", "ENDFUNCTION", "ENDTYPE", "PROCEDURE Zz\nENDFUNCTION", "FOR zz <- 1 TO 2\nNEXT yy", "WHILE TRUE DO\nENDIF", "TYPE Zz\n OUTPUT 1\nENDTYPE", "IF TRUE\nOUTPUT 1\nENDIF"]
PRE = ['OUTPUT "starting"', 'OPENFILE "made.txt" FOR WRITE', 'WRITEFILE "made.txt", "content"', "DECLARE inp : STRING", "INPUT inp"]


# ------------------------------------------------------------------ C10
@check("C10", "exploration",
       "Every single insertion (blanks before each token, blank and comment line before each line, comment after each line, CR before each line end) into a corpus of programs that uses every statement form, "
       "whole-file CRLF, no final line break, and random layouts (all of them combined) of the corpus, of random programs (with runtime errors) and of programs with a one-line fault; "
       "TLC executes the specification on the transformed text and compares output, exit status, kind of error and every line number of the diagnostics.")
def c10(ck, rng, tier):
    q = tier == "quick"
    cases = []
    for n in CO.CORPUS:
        t = CO.text(n)
        for lab, s, _ in LA.single(t, 3 if q else 1, rng.randint(0, 2)):
            cases.append(prog("s-%s-%s" % (n, lab), s, CO.INPUT[n], ln=True))
        cases.append(prog("crlf-" + n, t.replace("\n", "\r\n"), CO.INPUT[n], ln=True))
        cases.append(prog("noend-" + n, t.rstrip("\n"), CO.INPUT[n], ln=True))
        cases.append(prog("nocr-" + n, t.rstrip("\n").replace("\n", "\r\n"), CO.INPUT[n], ln=True))
        cases.append(prog("endcom-" + n, t + "// the end", CO.INPUT[n], ln=True))
        for i in range(3 if q else 40):
            s, _ = LA.mutate(rng, t)
            cases.append(prog("m-%s-%d" % (n, i), s, CO.INPUT[n], ln=True, ped=rng.random() < 0.2))
    for i in range(40 if q else 900):
        t = progtext(rng, perr=rng.choice([0, 0.03, 0.1]), size=rng.choice([6, 10]))
        for j in range(2):
            s, _ = LA.mutate(rng, t, gaps=rng.choice([0.1, 0.4]), pre=rng.choice([0, 0, 3]))
            cases.append(prog("r%d.%d" % (i, j), s, ln=True, steps=20000))
    # a fault moves by exactly the lines inserted above it
    for i in range(60 if q else 1200):
        n = rng.choice(list(CO.CORPUS))
        ls = CO.text(n).rstrip("\n").split("\n")
        f = rng.choice(FAULTS)
        at = rng.choice(spots(ls))
        t = "\n".join(ls[:at] + [f] + ls[at:]) + "\n"
        if "//" in f or f.count('"') % 2 or f.count("'") % 2:
            s, w = LA.mutate(rng, t, gaps=0, comments=0, indent=0.3)
        else:
            s, w = LA.mutate(rng, t, comments=0.1)
        cases.append(prog("f%d" % i, s, CO.INPUT[n], ln=True, fl=fault_line(s, f, w[at + 1])))
    # the exception: '(' directly after an I/O keyword; and its neighbours
    for kw in ["OUTPUT", "PRINT"]:
        for sp in ["", " ", "\t", "  ", "\t "]:
            for cr in ["\n", "\r\n"]:
                cases.append(prog("io-%s-%d-%d-%d" % (kw, len(sp), "\t" in sp, len(cr)), "x <- 1%s%s%s(x + 1)%s" % (cr, kw, sp, cr), ln=True, fl=2 if not sp else 0))
    for i, (a, b) in enumerate([("WRITEFILE%s(\"f.txt\"), 5", 1), ("OPENFILE%s(\"f.txt\") FOR WRITE", 1), ("CLOSEFILE%s(\"f.txt\")", 1), ("SEEK%s(\"f.txt\"), 1", 1), ("OUTPUT%s((1))", 1), ("RETURN%s(1)", 0), ("IF%s(TRUE) THEN\nENDIF", 0),
                                ("CALL P%s(1)", 0), ("OUTPUT LENGTH%s(\"a\")", 0), ("x <- NOT%s(TRUE)", 0), ("WHILE%s(FALSE) DO\nENDWHILE", 0), ("REPEAT\nUNTIL%s(TRUE)", 0), ("OUTPUT 5 DIV%s(2)", 0), ("x <-%s(2)", 0)]):
        for sp in ["", " ", "\t"]:
            cases.append(prog("io2-%d-%d-%s" % (i, len(sp), "t" if "\t" in sp else ""), "PROCEDURE P(a : INTEGER)\nENDPROCEDURE\n" + a % sp + "\n", ln=True))
    # comments and blanks in odd places
    odd = ["// only a comment", "//", "", "\n\n\n", "\r\n\r\n", "  \t ", "//a\n//b", "// a\r\n// b\r\n", "OUTPUT 1 // x", "OUTPUT 1//x", "OUTPUT 1// x // y\nOUTPUT 2", "OUTPUT \"//\" // \"\nOUTPUT 2", "OUTPUT '/' // '\nOUTPUT 3", "x <- 6 / 2 // 2\nOUTPUT x",
           "x <- 6 / // 2\nOUTPUT x", "OUTPUT 1/2/2000 //1/2/3", "OUTPUT 1/2/2000//x", "OUTPUT 8/4//2", "OUTPUT 8 /4 //2", "OUTPUT 8//2\nOUTPUT 3", "OUTPUT 1.5//2", "x <- 2\nOUTPUT x//x", "IF TRUE THEN // c\n// d\nOUTPUT 1 // e\n\nELSE // f\n// g\nENDIF // h",
           "IF TRUE // c\n\n// d\nTHEN // e\nOUTPUT 1\nENDIF", "WHILE FALSE // c\n\nDO\nENDWHILE", "CASE OF x // c\n// d\n\n 1 : OUTPUT 1 // e\n // f\n OTHERWISE : // g\n  OUTPUT 2\nENDCASE", "x <- 2\nCASE OF x // c\n// d\n\n 1 : OUTPUT 1 // e\n // f\n\n 2 : // g\n\n  OUTPUT 2 // h\n // i\nENDCASE",
           "TYPE T // c\n// d\n\n DECLARE a : INTEGER // e\n\n // f\nENDTYPE // g\nDECLARE t : T\nOUTPUT t.a", "TYPE E = (a, b) // c\nDECLARE e : E\ne <- b\nOUTPUT e", "PROCEDURE P // c\n// d\n\n OUTPUT 1\n // e\nENDPROCEDURE // f\n\nCALL P // g",
           "FOR i <- 1 TO 2 // c\n\n// d\n OUTPUT i\n\nNEXT i // e", "REPEAT // c\n// d\n\nx <- 1\n\nUNTIL TRUE // e", "OUTPUT 1\r", "\rOUTPUT 1", "OUTPUT\r1", "OUT\rPUT 1", "OUTPUT 1\r\r\nOUTPUT 2", "OUTPUT \"a\rb\"", "OUTPUT 1\n\rOUTPUT 2", "OUTPUT 1 // c\r\nOUTPUT 2 // d\r\n",
           "\tOUTPUT\t1\t,\t2\t", "OUTPUT 1 ,2, 3", "x<-1\ny<-x-1\nOUTPUT x<-1, y", "x <- 5\nOUTPUT x<y", "OUTPUT 5<-1", "OUTPUT 5 < -1", "OUTPUT - 5, -  5, --5, - - 5", "OUTPUT (  1 + 2  )", "DECLARE a:ARRAY[1:2]OF INTEGER\na[1]<-3\nOUTPUT a [ 1 ]", "x <- 3\nOUTPUT x .y", "OUTPUT LENGTH ( \"a b\" )",
           "OUTPUT 1 . 5", "OUTPUT 1. 5", "OUTPUT 1 .5", "OUTPUT 12 34", "OUTPUT 1 / 2 / 2000", "OUTPUT 1/ 2/2000", "OUTPUT 1/2 /2000", "x < - 1", "OUTPUT 1 < > 2", "OUTPUT 1 < = 2", "OUTPUT 1 > = 2", "OUT PUT 1", "OUTPUTx", "OUTPUT\"a\"", "OUTPUT'a'", "OUTPUT-1", "IFTRUE THEN\nENDIF", "IF TRUE THENOUTPUT 1\nENDIF",
           "OUTPUT TRUEAND FALSE", "OUTPUT TRUE AND(FALSE)", "OUTPUT 5DIV 2", "OUTPUT 5 DIV2", "OUTPUT 5MOD 2", "OUTPUT (5)DIV(2)", "OUTPUT \"a\"&\"b\"", "OUTPUT NOT(TRUE)", "OUTPUT NOTTRUE"]
    for i, s in enumerate(odd):
        cases.append(prog("o%d" % i, s, ln=True))
        cases.append(prog("oc%d" % i, s.replace("\r\n", "\n").replace("\n", "\r\n") + "\r\n", ln=True))
        if "\r" not in s:
            cases.append(prog("ob%d" % i, "\n\t\n// 1\n" + s.replace("\n", "\n\n//z\n") + "\n\n", ln=True))
            cases.append(prog("ot%d" % i, "\n".join(l + " \t" for l in s.split("\n")), ln=True))
    # what a comment says does not matter: every pair of characters, every byte, any length
    cs = [chr(c) for c in list(range(33, 48)) + list(range(58, 65)) + list(range(91, 97)) + list(range(123, 127))] + list(" \ta9Zn\x80\xff")
    for i, a in enumerate(cs):
        ls = []
        for b in cs:
            k = rng.randint(0, 3)
            ls += [["OUTPUT %d //%s%s" % (len(ls), a, b), "OUTPUT %d // text%s%stext" % (len(ls), a, b), "//%s%s" % (a, b), "OUTPUT \"//%d\" & 'c' //%s%s OUTPUT 0" % (len(ls), a, b)][k]]
            if rng.random() < 0.1:
                ls += ["IF TRUE THEN //%s%s" % (b, a), "//%s%s%s" % (a, b, a), "OUTPUT 1//%s" % a, "ENDIF//%s%s" % (a, a)]
        cases.append(prog("cc%d" % i, "\n".join(ls) + "\n", ln=True))
    for i, bs in enumerate(chunks([chr(c) for c in range(256) if c not in (10, 13)], 64)):
        cases.append(prog("cb%d" % i, "".join("x <- %d // %s\nOUTPUT x //%sq%s\n" % (ord(b), b, b, b) for b in bs), ln=True))
    for i, n in enumerate([60, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 4095, 4096, 5000]):
        cases.append(prog("cl%d" % i, "OUTPUT 1 // %s\nOUTPUT 2\n//%s\nOUTPUT 3 //%s" % ("x" * n, "/ y\t" * (n // 4), " " * n), ln=True))
        cases.append(prog("cw%d" % i, "%sOUTPUT 1,%s2%s\n%s\nOUTPUT 3\n" % (" " * n, "\t" * n, " \t" * (n // 2), " " * n), ln=True))
    # any number of lines above a program (the specification starts at the line that follows)
    for i, n in enumerate([100, 127, 128, 254, 255, 256, 257, 1000, 4095, 32766, 32767, 32768, 65534, 65535, 65536, 70000, 100000] if q else [2 ** k + d for k in range(4, 18) for d in (-2, -1, 0, 1)]):
        for j in range(2 if q else 6):
            m = rng.choice(list(CO.CORPUS))
            ls = CO.text(m).rstrip("\n").split("\n")
            f = rng.choice(FAULTS + ["OUTPUT 1 DIV 0", "CALL Nope", "x <- undefd"] * 4)
            at = rng.choice(spots(ls))
            t = "\n".join(ls[:at] + ([f] if j else []) + ls[at:]) + "\n"
            cases.append(prog("up%d.%d" % (i, j), t, CO.INPUT[m], ln=True, fl=fault_line(t, f, at + 1) if j and f in FAULTS else 0, pre=(n, rng.choice([b"", b"// note", b" \t", b"\r", b"//"]))))
    # random placements of insertions in a REPL: indentation, blanks and comments
    for i in range(24 if q else 400):
        n = rng.choice([x for x in CO.CORPUS if not CO.INPUT[x]])
        es = []
        for e in CO.CORPUS[n]:
            ls = e.split("\n")
            o = []
            for j, l in enumerate(ls):
                if rng.random() < 0.15:
                    if j == 0:
                        es.append(rng.choice(["// note", " ", "\t", "  // x"]))
                    else:
                        o.append(rng.choice(["// note", " ", "\t", "  // x"]))
                t = LA.tokens(l)
                for k in range(len(t) - 1, 0, -1):
                    if rng.random() < 0.2:
                        l = LA.insert(l, k, rng.choice(LA.WS))
                if rng.random() < 0.3:
                    l = rng.choice([" ", "\t", "   "]) + l
                if rng.random() < 0.25:
                    l += rng.choice([" ", ""]) + rng.choice(LA.COMMENTS)
                o.append(l)
            es.append("\n".join(o))
        cases.append(repl("repl%d" % i, es))
    run(ck, cases)


def fault_line(s, f, line):
    """a string without its closing quote ends at the next quote: then the fault is not confined to its line"""
    if f.count('"') % 2 and '"' in "\n".join(s.split("\n")[line:]):
        return 0
    return line


def spots(ls):
    """indices at which a statement may be inserted: not inside TYPE or CASE clause lists, not between an IF and its THEN"""
    out, typ, case = [], 0, 0
    for i, l in enumerate(ls):
        w = GP.first_word(l.strip())
        if not typ and not case and w not in ("THEN", "DO", "ENDTYPE"):
            out.append(i)
        if w == "TYPE" and "=" not in l:
            typ = 1
        if w == "ENDTYPE":
            typ = 0
        if w == "CASE":
            case += 1
        if w == "ENDCASE":
            case -= 1
    return out + [len(ls)]


# ------------------------------------------------------------------ C11
@check("C11", "exploration",
       "Every one-line fault of a list (lexical and syntactic) inserted into a program that first produces output, creates a file and reads input, at every nesting position of a corpus; block-structure faults; "
       "TLC checks that nothing ran (output, files, input position), exactly one Syntax Error diagnostic with status 1, the line of the fault, the position inside the source. "
       "Runtime faults of every kind at the end of call chains of procedures and functions (recursive, in conditions, arguments, loops) and random failing programs: every line of the traceback.")
def c11(ck, rng, tier):
    q = tier == "quick"
    cases = []
    pre = "\n".join(PRE) + "\n"
    for i, f in enumerate(FAULTS):
        at = ["%s\n" % f, pre + f + "\n", pre + f, f + "\n" + pre, pre + "IF TRUE THEN\n " + f + "\nENDIF\n", pre + "PROCEDURE Pq\n OUTPUT 1\n\n " + f + "\nENDPROCEDURE\n", pre + "WHILE FALSE DO\n REPEAT\n  " + f + "\n UNTIL TRUE\nENDWHILE\nOUTPUT 9\n",
              pre + "x <- 1\nCASE OF x\n 1 : OUTPUT 1\n  " + f + "\n 2 : OUTPUT 2\nENDCASE\n", pre.replace("\n", "\r\n") + f + "\r\nOUTPUT 1\r\n", "// c\n\n" + pre + "FOR q <- 1 TO 2\n" + f + " \nNEXT q"]
        for j, s in enumerate(at if not q else at[:2] + [at[2 + (i % 8)], at[2 + ((i + 3) % 8)]]):
            fl = next(k for k, l in enumerate(s.replace("\r", "").split("\n")) if l.strip() == f.strip()) + 1
            fl = fault_line(s, f, fl)
            if "CASE OF x" in s and f in ("x : INTEGER",):
                continue
            cases.append(prog("f%d.%d" % (i, j), s, "typed\n", ln=True, fl=fl, files={b"other.txt": b"keep\n"}))
    for i, f in enumerate(BLOCKF):
        for j, s in enumerate([f + "\n", pre + f + "\n", pre + "IF TRUE THEN\n" + f + "\nENDIF\n", pre + "PROCEDURE Pq\n" + f + "\nENDPROCEDURE\nCALL Pq\n", f + "\n" + pre]):
            cases.append(prog("b%d.%d" % (i, j), s, "typed\n", ln=True))
    for i in range(80 if q else 2500):
        n = rng.choice(list(CO.CORPUS))
        ls = CO.text(n).rstrip("\n").split("\n")
        f = rng.choice(FAULTS)
        at = rng.choice(spots(ls))
        s = PRE + ls[:at] + [rng.choice(["", " ", "\t"]) + f] + ls[at:]
        s = "\n".join(s) + "\n"
        cases.append(prog("c%d" % i, s, "typed\n" + CO.INPUT[n], ln=True, fl=fault_line(s, f, at + len(PRE) + 1)))
    # a token of a correct program deleted, doubled or replaced: whatever the specification says
    for i in range(120 if q else 4000):
        n = rng.choice(list(CO.CORPUS))
        ls = PRE + CO.text(n).rstrip("\n").split("\n")
        at = rng.randrange(len(PRE), len(ls))
        t = LA.tokens(ls[at])
        if not t:
            continue
        k = rng.randrange(len(t))
        a, b = t[k]
        o = rng.random()
        l = ls[at]
        if o < 0.4:
            l = l[:a] + l[b:]
        elif o < 0.7:
            l = l[:b] + " " + l[a:b] + l[b:]
        else:
            l = l[:a] + rng.choice(["(", ")", ",", ":", "<-", "=", "THEN", "5", "x", "[", "]", "^", ".", "NOT", "\"s\"", "TO", "OF", "-"]) + l[b:]
        ls[at] = l
        cases.append(prog("t%d" % i, "\n".join(ls) + "\n", "typed\n" + CO.INPUT[n], ln=True))
    # --- tracebacks
    RT = [("OUTPUT 1 DIV {z}", 1), ("x <- {z} / 0", 1), ("OUTPUT LEFT(\"abc\", 4 + {z})", 1), ("OUTPUT undefinedName", 1), ("CALL NoSuch({z})", 1), ("arr[9] <- {z}", 1), ("OUTPUT arr[0]", 1), ("flag <- {z}", 1), ("CLOSEFILE \"nofile\"", 1),
          ("READFILE \"nofile\", s", 1), ("OUTPUT EOF(\"nofile\")", 1), ("d <- SETDATE(31, 4, 2000)", 1), ("IF {z} THEN\n OUTPUT 1\nENDIF", 1), ("WHILE {z} DO\n OUTPUT 1\nENDWHILE", 1), ("REPEAT\n OUTPUT \"once\"\nUNTIL {z}", 3),
          ("FOR i <- 1 TO TRUE\n OUTPUT i\nNEXT i", 1), ("OUTPUT 1 + \"a\"", 1), ("K <- 2", 1), ("p^ <- 1", 1), ("OUTPUT r.nofield", 1), ("OUTPUT NOT {z}", 1), ("x <- One(1, 2)", 1), ("CALL Two", 1), ("CALL Two(6 DIV {z})", 1), ("CALL Two(One(6 DIV {z}))", 1), ("OUTPUT One(2) + One(TRUE)", 1), ("CALL Three(5)", 1), ("CALL Three(flag)", 1), ("OUTPUT One(1) + Zero(1)", 1), ("CALL Two(One(LENGTH(\"ab\")), 2)", 1), ("INPUT flag", 1), ("OUTPUT -\"a\"", 1),
          ("FOR i <- 1 TO 3\n OUTPUT i\n OUTPUT 6 DIV (i - 2)\nNEXT i", 3), ("IF TRUE THEN\n OUTPUT 1\n OUTPUT 1 MOD {z}\nENDIF", 3), ("CASE OF x\n 1 : OUTPUT 1\n OTHERWISE : OUTPUT 1\n  OUTPUT 2 DIV {z}\nENDCASE", 4), ("x <- LENGTH(\n", 0)]
    glob = ["DECLARE x : INTEGER", "DECLARE arr : ARRAY[1:3] OF INTEGER", "DECLARE flag : BOOLEAN", "DECLARE s : STRING", "DECLARE d : DATE", "CONSTANT K = 1", "TYPE PI = ^INTEGER", "DECLARE p : PI", "TYPE R", " DECLARE n : INTEGER", "ENDTYPE", "DECLARE r : R", "DECLARE i : INTEGER",
            "FUNCTION One(a : INTEGER) RETURNS INTEGER", " RETURN a", "ENDFUNCTION", "PROCEDURE Two(a : INTEGER)", " OUTPUT a", "ENDPROCEDURE",
            "PROCEDURE Nop", "ENDPROCEDURE", "FUNCTION Zero() RETURNS INTEGER", "", " RETURN 0", "ENDFUNCTION", "PROCEDURE Three(BYREF a : INTEGER)", " CALL Two(a)", " a <- One(a) + Zero()", "ENDPROCEDURE", "FUNCTION Loop(a : INTEGER) RETURNS INTEGER", " FOR k9 <- 1 TO 2", "  IF One(k9) > a THEN", "   RETURN Zero()", "  ENDIF", " NEXT k9", " RETURN 7", "ENDFUNCTION"]
    # calls that return, before the one that fails
    DONE = ["CALL Two(1)", "CALL Nop", "OUTPUT One(2)", "OUTPUT Zero()", "w9 <- One(One(2) + Zero())", "CALL Two(One(3))", "w8 <- 5\nCALL Three(w8)", "OUTPUT Loop(1), Loop(0)", "IF One(1) = Zero() THEN\n CALL Nop\nELSE\n CALL Two(0)\nENDIF", "OUTPUT LENGTH(\"abc\"), INT(2.5)", "FOR k8 <- 1 TO 2\n CALL Two(k8)\nNEXT k8"]

    def done(z=True):
        return [" " * rng.randint(0, 2) + l for st in rng.sample(DONE, rng.choice([0, 0, 1, 1, 2, 3])) for l in st.split("\n")]

    def chain(depth, fault):
        """depth nested calls of procedures and functions ending in the fault"""
        out = list(glob)
        kind = [rng.choice("PF") for _ in range(depth)]
        for k in range(depth):
            out += [""] * rng.randint(0, 2)
            body = []
            if k == 0:
                body += [" " * rng.randint(0, 2) + l for l in fault.replace("{z}", "z").split("\n") if l]
            else:
                nxt = "L%d" % (k - 1)
                how = rng.randint(0, 6)
                if kind[k - 1] == "P":
                    c = "CALL %s(z)" % nxt
                    body += [c] if how < 3 else ["IF z = 0 THEN", " OUTPUT \"in\"", " " + c, "ENDIF"] if how < 5 else ["FOR j%d <- 1 TO 2" % k, " OUTPUT \"loop\""] + rng.choice([[], [" CALL Two(j%d)" % k]]) + [" " + c, "NEXT j%d" % k]
                else:
                    c = rng.choice(["%s(z)", "%s(z)", "%s(One(z))", "One(z) + %s(z)", "%s(Zero())", "(%s(z))"]) % nxt
                    body += [["OUTPUT " + c], ["IF %s > 0 THEN" % c, " OUTPUT 1", "ENDIF"], ["w%d <- 1 + %s * 2" % (k, c)], ["OUTPUT One(%s)" % c], ["CALL Two(%s)" % c], ["arr[%s] <- 1" % c], ["WHILE %s > 0 DO" % c, " OUTPUT 1", "ENDWHILE"]][how]
            body = [" OUTPUT \"f%d\"" % k] * rng.randint(0, 1) + done() + body + [" OUTPUT \"never\""] * rng.randint(0, 1)
            if kind[k] == "P":
                out += ["PROCEDURE L%d(z : INTEGER)" % k] + body + ["ENDPROCEDURE"]
            else:
                out += ["FUNCTION L%d(z : INTEGER) RETURNS INTEGER" % k] + body + [" RETURN 1", "ENDFUNCTION"]
        out += ["OUTPUT \"go\""] + [l.strip() if l.strip().startswith(("FOR", "IF")) else l for l in done()]
        if depth == 0:
            out += [l for l in fault.replace("{z}", "0").split("\n") if l]
        elif kind[-1] == "P":
            out += ["CALL L%d(0)" % (depth - 1)]
        else:
            out += ["OUTPUT L%d(0)" % (depth - 1)]
        return out
    RT = RT[:-1]
    for i, (f, _) in enumerate(RT):
        for d in ([0, 1, 2, rng.randint(3, 5)] if q else [0, 1, 1, 2, 2, 3, 4, 5, 8, 20]):
            ls = chain(d, f)
            cases.append(prog("rt%d.%d" % (i, d), ls, "oops\n", ln=True))
            s, _ = LA.mutate(rng, "\n".join(ls) + "\n", gaps=0.05, comments=0.1)
            cases.append(prog("rtl%d.%d" % (i, d), s, "oops\n", ln=True))
    for d in [1, 2, 5, 30]:
        cases.append(prog("rec%d" % d, ["FUNCTION R(n : INTEGER) RETURNS INTEGER", " IF n = 0 THEN", "  RETURN 1 DIV n", " ENDIF", "", " RETURN 1 + R(n - 1)", "ENDFUNCTION", "// call", "OUTPUT R(%d)" % d], ln=True))
        cases.append(prog("recp%d" % d, ["PROCEDURE R(n : INTEGER)", " IF n = 0 THEN", "  OUTPUT undefd", " ELSE", "  CALL R(n - 1)", " ENDIF", "ENDPROCEDURE", "CALL R(%d)" % d], ln=True))
        cases.append(prog("mut%d" % d, ["PROCEDURE A(n : INTEGER)", " IF n = 0 THEN", "  OUTPUT 1 MOD 0", " ENDIF", " OUTPUT B(n - 1)", "ENDPROCEDURE", "FUNCTION B(n : INTEGER) RETURNS INTEGER", " CALL A(n)", " RETURN 1", "ENDFUNCTION", "CALL A(%d)" % d], ln=True))
        cases.append(prog("miss%d" % d, ["FUNCTION M(n : INTEGER) RETURNS INTEGER", " IF n > 0 THEN", "  RETURN M(n - 1)", " ENDIF", "ENDFUNCTION", "OUTPUT M(%d)" % d], ln=True))
    # sessions: the lines count within the entry that defined the code
    for i in range(24 if q else 300):
        f, _ = rng.choice(RT)
        ls = chain(rng.randint(0, 3), f)
        es, cur = [], []
        for l in ls:
            if not l.strip():
                continue
            cur.append(l)
            w = GP.first_word(cur[0])
            if w not in GP.HEADS or w == "TYPE" and "=" in cur[0] or GP.first_word(l) in ("ENDPROCEDURE", "ENDFUNCTION", "ENDTYPE", "ENDIF", "ENDWHILE", "ENDCASE", "NEXT", "UNTIL") and not l.startswith(" "):
                es.append("\n".join(cur))
                cur = []
        if not cur and "INPUT flag" not in f:
            again = [es[-1]] + rng.sample(["OUTPUT 1 DIV 0", "CALL Two(1 DIV 0)", "CALL Nope", "OUTPUT One(TRUE)", "arr[9] <- 1", "IF TRUE THEN\n CALL Two(2)\n\n OUTPUT 5 MOD (1 - One(1))\nENDIF", "FUNCTION Late(n : INTEGER) RETURNS INTEGER\n IF n > 1 THEN\n  RETURN n\n ENDIF\nENDFUNCTION\nOUTPUT Late(1)",
                                           "OUTPUT Loop(1)", "PROCEDURE Lp\n OUTPUT 1\n CALL Two(TRUE)\nENDPROCEDURE\nCALL Lp", "FOR i <- 1 TO 2\n CALL Nop\n x <- \"s\"\nNEXT i", es[-1]], 4)
            cases.append(repl("s%d" % i, es + [e for a in again for e in (a.replace("ENDFUNCTION\n", "ENDFUNCTION\0").replace("ENDPROCEDURE\n", "ENDPROCEDURE\0").split("\0"))] + ["OUTPUT \"alive\""], ln=True))
    # far down in the file
    for i, n in enumerate([126, 254, 255, 256, 32766, 32767, 65533, 65534, 65535, 65536, 66000, 131072]):
        for j, f in enumerate(rng.sample(FAULTS, 2)):
            s = "%s%s\nOUTPUT 1\n" % (pre, f)
            cases.append(prog("up%d.%d" % (i, j), s, "typed\n", ln=True, pre=(n, rng.choice([b"", b"//", b"  "])), fl=fault_line(s, f, len(PRE) + 1)))
        for j in range(2 if q else 5):
            cases.append(prog("ur%d.%d" % (i, j), chain(rng.randint(0, 4), rng.choice(RT)[0]), "oops\n", ln=True, pre=(n - rng.randint(0, 40), rng.choice([b"", b"//", b"  "]))))
    # errors that leave a suite of open files
    cases.append(prog("files", PRE + ["OUTPUT 1 DIV 0"], "typed\n", ln=True))
    for i in range(40 if q else 1500):
        t = progtext(rng, perr=rng.choice([0.05, 0.15]), size=rng.choice([8, 12]))
        cases.append(prog("p%d" % i, t, ln=True, steps=20000))
    run(ck, cases)



# ------------------------------------------------------------------ C12
SETUP = ["CONSTANT K = 5", "CONSTANT KS = \"ks\"", "TYPE Col = (red, green, blue)", "TYPE Dir = (up, down)", "TYPE Pt\n DECLARE x : INTEGER\n DECLARE t : STRING\n DECLARE h : ARRAY[1:2] OF INTEGER\nENDTYPE", "TYPE Seg\n DECLARE a, b : Pt\nENDTYPE", "TYPE PI = ^INTEGER",
         "TYPE PR = ^REAL", "DECLARE i, j : INTEGER", "DECLARE r : REAL", "DECLARE s : STRING", "DECLARE c : CHAR", "DECLARE b : BOOLEAN", "DECLARE d : DATE", "DECLARE e : Col", "DECLARE f : Dir", "DECLARE p : Pt", "DECLARE q : Seg", "DECLARE ptr : PI", "DECLARE unset : PI",
         "DECLARE a : ARRAY[1:3] OF INTEGER", "DECLARE m : ARRAY[0:1, 1:2] OF STRING", "DECLARE pa : ARRAY[1:2] OF Pt", "i <- 7", "j <- -2", "r <- 1.5", "s <- \"text\"", "c <- 'k'", "b <- TRUE", "d <- 29/2/2024", "e <- green", "f <- down", "p.x <- 3", "p.t <- \"pt\"", "p.h[2] <- 9",
         "q.b.x <- 8", "q.a.h[1] <- 1", "ptr <- ^i", "a[2] <- 22", "a[3] <- i", "m[1, 2] <- \"mm\"", "pa[2] <- p",
         "PROCEDURE Show(n : INTEGER)\n OUTPUT \"show \", n\nENDPROCEDURE", "PROCEDURE Inc(BYREF n : INTEGER)\n n <- n + 1\nENDPROCEDURE", "FUNCTION Sq(n : INTEGER) RETURNS INTEGER\n RETURN n * n\nENDFUNCTION", "FUNCTION Bad(n : INTEGER) RETURNS INTEGER\n i <- i + 1\n RETURN 1 DIV n\nENDFUNCTION",
         'OPENFILE "w.txt" FOR WRITE', 'WRITEFILE "w.txt", "one"', 'OPENFILE "in.txt" FOR READ', 'READFILE "in.txt", s', 'OPENFILE "x.dat" FOR RANDOM', 'PUTRECORD "x.dat", i', 'SEEK "x.dat", 2', 'PUTRECORD "x.dat", p', 'SEEK "x.dat", 1']
FILES = {b"in.txt": b"line1\nline2\nline3\n", b"ok.psc": b"DECLARE z : INTEGER\nz <- 4\nOUTPUT \"file \", z\n", b"bad.psc": b"OUTPUT \"one\"\nOUTPUT 1 DIV 0\n", b"syn.psc": b"OUTPUT \"one\"\nIF\n", b"in.psc": b"INPUT v\nOUTPUT \"got \", v\n",
         b"glob.psc": b"OUTPUT i\n", b"file.psc": b'OPENFILE "w2.txt" FOR WRITE\nWRITEFILE "w2.txt", 1\n', b"a b.psc": b"OUTPUT 1", b"ped.psc": b"x <- INTEGER(\"5\")\nOUTPUT x\n", b"empty.psc": b""}
PROBES = ["i", "j", "r", "s", "c", "b", "d", "e", "f", "p.x", "p.t", "p.h[1]", "p.h[2]", "q.a.x", "q.b.x", "q.a.h[1]", "ptr^", "a[1]", "a[2]", "a[3]", "m[0, 1]", "m[1, 2]", "pa[2].x", "pa[1].t", "K", "KS", "Sq(3)", "CALL Show(4)", "ptr", "unset", "z", "v"]
TAIL = ['WRITEFILE "w.txt", "more"', 'READFILE "in.txt", s', "s", 'EOF("in.txt")', 'GETRECORD "x.dat", j', "j", 'SEEK "x.dat", 2', 'GETRECORD "x.dat", p', "p.t", "CALL Inc(i)", "i", 'CLOSEFILE "w.txt"', 'CLOSEFILE "x.dat"', 'OPENFILE "w.txt" FOR READ', 'READFILE "w.txt", s', "s"]
# single call-free assignments, one-name declarations, constant definitions and file statements that fail
ATOMIC = ["i <- 1.5", "i <- \"x\"", "i <- undefd", "i <- 1 DIV 0", "i <- TRUE", "i <- 'c'", "i <- 29/2/2024", "i <- red", "i <- p", "i <- a", "r <- \"1\"", "s <- 5", "s <- TRUE", "c <- \"ab\"", "c <- \"\"", "c <- 65", "b <- 1", "b <- \"TRUE\"", "d <- 5", "d <- SETDATE(30, 2, 2024)", "d <- 31/4/2024",
          "e <- up", "e <- 1", "e <- undefd", "f <- red", "p <- q", "p <- 5", "p.x <- \"s\"", "p.x <- 1.5", "p.z <- 1", "p.h[3] <- 1", "p.h[0] <- 1", "p.h <- 1", "q.a <- q", "q.a.h[2] <- \"s\"", "q.c.x <- 1", "i.x <- 1", "i[1] <- 1", "a[0] <- 1", "a[4] <- 1", "a[1, 2] <- 1", "a[TRUE] <- 1", "a[1.5] <- 1",
          "a[2] <- \"s\"", "a[i] <- 1", "a <- 5", "a <- m", "m[2, 1] <- \"s\"", "m[0, 0] <- \"s\"", "m[0] <- \"s\"", "m[0, 1] <- 5", "pa[3].x <- 1", "pa[1].x <- \"s\"", "pa[1] <- q", "unset^ <- 1", "ptr^ <- \"s\"", "ptr <- ^r", "ptr <- ^s", "ptr <- i", "ptr <- ^undefd", "ptr <- ^a[9]", "i^ <- 3", "K <- 6", "KS <- \"z\"",
          "K <- 5", "red <- 2", "Col <- 1", "DECLARE i : INTEGER", "DECLARE K : INTEGER", "DECLARE a : REAL", "DECLARE z : Nope", "DECLARE Col : INTEGER", "DECLARE z : ARRAY[3:1] OF INTEGER", "DECLARE z : ARRAY[1:2] OF Nope", "DECLARE z : ARRAY[\"a\":2] OF INTEGER", "DECLARE z : ARRAY[1:undefd] OF INTEGER",
          "CONSTANT K = 6", "CONSTANT i = 6", "CONSTANT Z = undefd", "CONSTANT Z = 1 DIV 0", "i <- -s", "i <- i + s", "b <- NOT i", "b <- i AND b", "s <- LEFT(s, 99)", "s <- MID(s, 0, 1)", "i <- LENGTH(i)", "i <- ASC(s)", "i <- 5 MOD 0", "r <- 1 / 0", "b <- s < 5", "b <- e < red", "i <- e + e", "e <- e + 1.5", "i <- a[4]", "i <- p.z", "i <- unset^",
          'OPENFILE "w.txt" FOR READ', 'OPENFILE "w.txt" FOR WRITE', 'OPENFILE "none.txt" FOR READ', 'OPENFILE "none.txt" FOR APPEND', "OPENFILE i FOR READ", "OPENFILE 5 FOR WRITE", 'CLOSEFILE "none.txt"', "CLOSEFILE i", 'READFILE "w.txt", s', 'READFILE "none.txt", s', 'READFILE "x.dat", s', 'READFILE "in.txt", i',
          'READFILE "in.txt", K', 'READFILE "in.txt", a[9]', 'WRITEFILE "in.txt", "z"', 'WRITEFILE "none.txt", 1', 'WRITEFILE "x.dat", 1', 'WRITEFILE "w.txt", undefd', 'WRITEFILE "w.txt", 1 DIV 0', 'WRITEFILE "w.txt", e', 'WRITEFILE "w.txt", p', 'SEEK "w.txt", 1', 'SEEK "x.dat", 0', 'SEEK "x.dat", 4', 'SEEK "x.dat", "1"',
          'SEEK "none", 1', 'SEEK "x.dat", -1', 'GETRECORD "w.txt", i', 'GETRECORD "x.dat", r', 'GETRECORD "x.dat", s', 'GETRECORD "x.dat", p', 'GETRECORD "x.dat", K', 'GETRECORD "x.dat", undefd', 'PUTRECORD "in.txt", i', 'PUTRECORD "x.dat", undefd', 'PUTRECORD "none", i', "EOF(\"w.txt\")", "b <- EOF(\"x.dat\")", "b <- EOF(\"none\")"]
# other entries that fail or only look odd
OTHER = ["undefd", "1 DIV 0", "s + 1", "CALL Nope", "CALL Show", "CALL Show(\"x\")", "CALL Show(1, 2)", "CALL Inc(5)", "i <- Bad(0)", "OUTPUT Bad(0)", "RETURN 1", "RETURN", "BREAK", "CONTINUE", "i <- ", ")", "IF TRUE THEN", "FOR k <- 1 TO 3\n OUTPUT k\n OUTPUT 1 DIV (k - 2)\nNEXT k", "WHILE 5 DO\n OUTPUT 1\nENDWHILE",
         "IF TRUE THEN\n i <- i + 1\n x1 <- 5\n i <- \"bad\"\nENDIF", "REPEAT\n j <- j + 1\n IF j > 1 THEN\n  j <- \"s\"\n ENDIF\nUNTIL j > 3", "IF TRUE THEN\n i <- 99\n OUTPUT\nENDIF", "PROCEDURE Show(n : INTEGER)\nENDPROCEDURE", "PROCEDURE New1\n OUTPUT )\nENDPROCEDURE", "FUNCTION Sq(n : INTEGER) RETURNS INTEGER\n RETURN 1\nENDFUNCTION",
         "TYPE Col = (cyan)", "TYPE Other = (red, pink)", "TYPE Pt\n DECLARE y : INTEGER\nENDTYPE", "TYPE Bad1\n DECLARE y : Nope\nENDTYPE", "TYPE Bad2\n DECLARE y : INTEGER\n DECLARE y : REAL\nENDTYPE", "TYPE PX = ^Nope", "DECLARE u1, i, u2 : INTEGER", "DECLARE u1, u2 : Nope", "INPUT undefdz", "CASE OF i\n 1 : OUTPUT 1\n OTHERWISE : i <- \"s\"\nENDCASE",
         "FOR i <- 1 TO \"x\"\nNEXT i", "FOR K <- 1 TO 2\n OUTPUT 1\nNEXT K", "FOR s <- 1 TO 2\nNEXT s", "// comment", "   ", "\t", "?", "OUTPUT \"a", "x2 <- 'ab'", "IFx <- 3", "FORx", "TYPEx <- 1", "CASEy <- 2", "  IF b THEN\n  OUTPUT \"yes\"\n ENDIF", "\tFOR k <- 1 TO 2\n OUTPUT k\n NEXT k", "TYPE Z1 = (z1, z2)", "TYPE Z2 = ^Pt // = c", "TYPE Z3 // = ^Pt\n DECLARE a : INTEGER\nENDTYPE",
         "RUNFILE ok.psc", "RUNFILE bad.psc", "RUNFILE syn.psc", "RUNFILE none.psc", "RUNFILE", "RUNFILE ", "RUNFILE glob.psc", "RUNFILE file.psc", "RUNFILE ok.psc  ", "RUNFILE a b.psc", "RUNFILE ped.psc", "RUNFILE empty.psc", "RUNFILE  ok.psc", "RUNFILEx", "RUNFILE\tok.psc", "EXITx", " EXIT", "exit", "??", " ?"]
ECHO = ["i", "r", "s", "c", "b", "d", "e", "f", "ptr", "unset", "K", "KS", "p.x", "p.t", "p.h[2]", "q.b.x", "a[2]", "m[1, 2]", "pa[2].t", "1", "-1", "1.5", "2.0", "1 / 3", "7 / 7", "TRUE", "'a'", "'\\n'", "\"\"", "\"a b\"", "\"q\\\"q\"", "\"l1\\nl2\"", "1/2/2003", "red", "up", "1 + 2", "1 + 2.5", "\"a\" & 1", "1 < 2", "1 = 2", "i = 7", "i <> 7",
        "NOT b", "Sq(5)", "LENGTH(s)", "(i)", "((i + 1))", "-i", "e + 1", "LEFT(s, 1)", "CHR(65)", "p", "a", "pa[1]", "ptr^", "^i", "unset^", "Sq", "Show", "Col", "CALL Sq(2)", "Sq()", "Show(1)", "i, j", "i j", "1000000", "123456789012", "0.1", "100000.5", "1234567.891", "0.0000001", "0.5 = 1 / 2", "i AND b", "b OR FALSE", "b AND e = green",
        "-2.0", "0.0", "-0.5", "3.0 - 5.0", "j * 1.0", "-1 * 4.0", "0.0 - 4", "1.5 * 2", "-(r + 0.5)", "-1000000.0", "10.0 / 4", "-9 / 3", "9 / -4", "REAL(-7)", "INT(-2.5)", "STR_TO_NUM(\"-3\")", "-123456789", "j", "0", "-0", "j - j", "INTEGER(-2.7)", "-r", "r * -2", "2.5 * -2", "9223372036854775807",
        "' '", "'\"'", "\"'\"", "\"a'b\"", "'\\t'", "CHR(0)", "\" \"", "\"\\\\\"", "STRING(-1.0)", "STRING('x')", "CHAR(66)", "LEFT(\"abc\", 0)", "MID(s, 2, 2)", "UCASE('q')", "TO_UPPER(s)", "1/1/1", "31/12/9999", "SETDATE(1, 2, 3)", "blue", "red + 2", "e - 1", "down", "f",
        "IF TRUE THEN\n 5\n \"in\"\nENDIF", "FOR k <- 1 TO 2\n k\n -k * 1.0\nNEXT k", "CASE OF i\n 7 : i + 1\n OTHERWISE : 0\nENDCASE", "WHILE i < 8\n i\n i <- i + 1\nENDWHILE", "REPEAT\n r\n i <- i - 1\nUNTIL i < 8", "PROCEDURE Ev(n : INTEGER)\n n * 2\n \"t\" & n\n Sq(n)\nENDPROCEDURE", "CALL Ev(-3)", "FUNCTION Ef() RETURNS REAL\n s\n RETURN -4\nENDFUNCTION", "Ef()", "Ef() * 2",
        "ptr", "ptr <- ^j", "ptr", "ptr^", "ptr <- ^a[2]", "ptr", "ptr <- ^p.x", "ptr", "ptr^ + 1.0",
        "INT(2.7)", "STR_TO_NUM(\"2.50\")", "NUM_TO_STR(3)", "IS_NUM(\"x\")", "DAY(d)", "d < 1/1/2025", "'a' < 'b'", "\"a\" = \"a\"", "i + r", "i DIV 2", "i MOD 4", "i / 2"]


@check("C12", "model_checking",
       "Every program of the corpus and random programs (with and without errors) both as a file and as a session of the same entries; sessions over a rich state (variables of every type, constants, types, procedures, open files in every mode) into which every failing "
       "atomic entry of a list of 130 (assignment, declaration, constant, file statement) and other failing, odd, multi-line and RUNFILE entries are inserted, followed by probes of the whole state, of every open file and of the final file contents; echo of about 90 expressions; "
       "sessions ending by EXIT, by end of input and inside a construct.  TLC compares output, prompts, echo, kinds of error and files; in the specification a failing atomic entry changes nothing (checked exhaustively by the model MC_Repl).")
def c12(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Repl", (3, 150), (40, 2500), length=60)
    cases = []
    for n in CO.CORPUS:
        if CO.INPUT[n]:
            cases.append(prog("cf-" + n, CO.text(n), CO.INPUT[n]))
            # input lines follow the entry that reads them
            es, lines = [], CO.INPUT[n].rstrip("\n").split("\n")
            for e in CO.CORPUS[n]:
                es.append(e)
                if e.split(" ")[0] in ("INPUT", "READ"):
                    es.append(lines.pop(0))
            cases.append(repl("cr-" + n, es))
        else:
            cases += both("c-" + n, CO.CORPUS[n])
    for i in range(30 if q else 900):
        g = GP.Gen(random.Random(rng.random()), perr=rng.choice([0, 0, 0.05]), size=rng.choice([6, 10]))
        ents = g.program()
        cases.append(prog("gf%d" % i, GP.file_text(ents), steps=20000))
        cases.append(dict(id="gr%d" % i, steps=20000, runs=[dict(mode="repl", src=b"", inp=B(GP.repl_text(ents)))]))
    fs = dict(files=FILES)
    # each atomic failing entry on its own, and many in a row
    n = 5 if q else 1
    at = list(ATOMIC)
    rng.shuffle(at)
    for i, part in enumerate(chunks(at, n)):
        es = list(SETUP)
        for x in part:
            es.append(x)
            es += rng.sample(PROBES, 2)
        cases.append(repl("a%d" % i, es + PROBES + TAIL, **fs))
    for i in range(8 if q else 200):
        es = list(SETUP)
        for _ in range(12):
            es.append(rng.choice(ATOMIC + OTHER if rng.random() < 0.6 else PROBES + ECHO))
        cases.append(repl("mix%d" % i, es + PROBES + TAIL, **fs))
    # failing entries anywhere: before, between and after the entries that set things up
    for i in range(16 if q else 400):
        es = []
        for x in SETUP:
            if rng.random() < 0.3:
                es.append(rng.choice(ATOMIC + OTHER))
            es.append(x)
        cases.append(repl("any%d" % i, es + PROBES + TAIL, **fs))
    ot = list(OTHER)
    rng.shuffle(ot)
    for i, part in enumerate(chunks(ot, 4 if q else 1)):
        es = list(SETUP)
        for x in part:
            es += [x] + rng.sample(PROBES, 3)
        cases.append(repl("o%d" % i, es + PROBES + TAIL, **fs))
    for i, part in enumerate(chunks(ECHO, 24)):
        cases.append(repl("e%d" % i, SETUP + part, **fs))
    # random file-state: failing entries inserted into sessions of random programs
    for i in range(16 if q else 500):
        g = GP.Gen(random.Random(rng.random()), perr=0, size=8)
        out = ""
        for e in g.program():
            if rng.random() < 0.3:
                out += rng.choice(["zz <- undefd", "DECLARE zz : Nope", "CONSTANT zz = 1 DIV 0", "CLOSEFILE \"nope\"", "OUTPUT )", "zz <- \"a", "1 DIV 0", "CALL Nope", "zz[1] <- 2", "zz.q <- 1", "RETURN 5", "READFILE \"nope\", zz"]) + "\n"
            out += GP.repl_text([e])
        cases.append(dict(id="gi%d" % i, steps=20000, runs=[dict(mode="repl", src=b"", inp=B(out))]))
    # ends of sessions
    ends = ["", "EXIT\n", "EXIT\nOUTPUT 1\n", "OUTPUT 1\n", "OUTPUT 1", "IF TRUE THEN\n OUTPUT 1", "IF TRUE THEN\n OUTPUT 1\n", "IF TRUE THEN\n OUTPUT 1\nENDIF\n", "IF TRUE THEN\n OUTPUT 1\nENDIF\n\n", "IF TRUE THEN\n OUTPUT 1\n\n OUTPUT 2\nENDIF\n\n", "\n\n\n", "?\n", "?\n?\nEXIT\n",
            "PROCEDURE A\n OUTPUT 1\nENDPROCEDURE\nCALL A\n\nCALL A\n", "1 DIV 0\n", "1 DIV 0\nEXIT\n", "INPUT x\n", "INPUT x\nhello\nx\n", "DECLARE n : INTEGER\nINPUT n\nxyz\nn\nINPUT n\n12\nn\n", "EXIT \n1\n", "RUNFILE in.psc\nhello\nOUTPUT 2\n", "RUNFILE in.psc\n"]
    for i, s in enumerate(ends):
        for pre in (["", 'OPENFILE "w.txt" FOR WRITE\nWRITEFILE "w.txt", "kept"\n'] if not q or i % 3 == 0 else ['OPENFILE "w.txt" FOR WRITE\nWRITEFILE "w.txt", "kept"\n']):
            cases.append(dict(id="end%d-%d" % (i, len(pre)), files=FILES, runs=[dict(mode="repl", src=b"", inp=B(pre + s))]))
    # pedantic sessions
    for i in range(6 if q else 100):
        es = ["DECLARE i : INTEGER", "i <- 1", "u <- 2", "i", "INPUT u", "x1", "i <- INTEGER(\"5\")", "i", "BREAK", "IF i = 1 THEN\n OUTPUT 1\nELSE IF i = 2 THEN\n OUTPUT 2\nENDIF", "IF i = 1 THEN\n OUTPUT \"one\"\nENDIF", "FOR i <- 1 TO 2\n CONTINUE\nNEXT i", "i", "i + 1", "RUNFILE ped.psc", "RUNFILE ok.psc", "OUTPUT i", "u", "s <- \"x\""]
        rng.shuffle(es)
        cases.append(repl("ped%d" % i, es, ped=True, **fs))
    run(ck, cases)


# ------------------------------------------------------------------ C20
PEDSTMT = [("BREAK", ["WHILE TRUE DO\n BREAK\nENDWHILE", "BREAK", "FOR v <- 1 TO 2\n IF v = 1 THEN\n  BREAK\n ENDIF\nNEXT v", "PROCEDURE Zp\n REPEAT\n  BREAK\n UNTIL TRUE\nENDPROCEDURE"]),
           ("CONTINUE", ["FOR v <- 1 TO 2\n CONTINUE\nNEXT v", "CONTINUE", "REPEAT\n CONTINUE\nUNTIL TRUE"]),
           ("ELSE IF", ["IF v = 1 THEN\n OUTPUT 1\nELSE IF v = 2 THEN\n OUTPUT 2\nENDIF", "IF v = 1 THEN\n OUTPUT 1\nELSE IF v = 2 THEN\n OUTPUT 2\nELSE\n OUTPUT 3\nENDIF", "IF FALSE THEN\nELSE  IF TRUE THEN\n OUTPUT 1\nENDIF", "FUNCTION Zf RETURNS INTEGER\n IF FALSE THEN\n ELSE IF TRUE THEN\n  RETURN 1\n ENDIF\n RETURN 2\nENDFUNCTION"]),
           ("cast", ["v <- INTEGER(\"5\")", "OUTPUT STRING(5)", "w <- REAL(5)", "IF BOOLEAN(1) THEN\n OUTPUT 1\nENDIF", "OUTPUT 1 + INTEGER(\"2\") * 3", "ar[INTEGER(1.5)] <- 2", "OUTPUT LENGTH(STRING(v))", "CALL Sub(INTEGER(\"1\"))", "OUTPUT CHAR(65)", "WHILE BOOLEAN(0) DO\nENDWHILE",
                     "FOR v <- INTEGER(1.5) TO 2\nNEXT v", "CASE OF v\n INTEGER(1.2) : OUTPUT 1\nENDCASE", "OUTPUT INTEGER (\"5\")", "OUTPUT INTEGER(INTEGER(2))", "WRITEFILE \"made.txt\", STRING(1)", "OUTPUT DATE(1)"]),
           ("undeclared", ["u <- 5", "INPUT u", "READ u", "u <- v", "u <- \"s\"", "IF TRUE THEN\n u <- 1\nENDIF", "PROCEDURE Zq\n u <- 5\nENDPROCEDURE\nOUTPUT \"before\"\nCALL Zq", "FUNCTION Zr() RETURNS INTEGER\n u <- 1\n RETURN u\nENDFUNCTION\nOUTPUT Zr()", "FOR v <- 1 TO 2\n OUTPUT v\n u <- v\nNEXT v",
                           "WHILE v < 100 DO\n v <- v + 50\n u <- 1\nENDWHILE", "PROCEDURE Zs(k : INTEGER)\n DECLARE loc : INTEGER\n loc <- k\nENDPROCEDURE\nCALL Zs(1)\nloc <- 2", "CASE OF v\n OTHERWISE : u <- 2\nENDCASE", "u <- red", "REPEAT\n INPUT u\nUNTIL TRUE"])]
PEDPRE = ['OUTPUT "first"', "TYPE Ec = (red, green)", "DECLARE v : INTEGER", "DECLARE w : REAL", "DECLARE ar : ARRAY[1:3] OF INTEGER", "v <- 2", "w <- 2.5", "ar[1] <- v", "PROCEDURE Sub(k : INTEGER)\n OUTPUT \"sub \", k\nENDPROCEDURE", "CALL Sub(v)", 'OPENFILE "made.txt" FOR WRITE', 'WRITEFILE "made.txt", "x"', "INPUT v", "OUTPUT v"]


@check("C20", "exploration",
       "Programs that use none of the constructs (corpus, random programs, files and sessions, with runtime errors, with text resembling the constructs in strings, comments and names) run with and without the option against one prediction; "
       "every construct in about 60 forms at the end, start and middle of a program, inside procedures that are or are not called, in branches not taken, and inserted into random programs, in both configurations and with both spellings of the option: TLC decides acceptance, "
       "the construct named, its line, the output before it, and that nothing ran for constructs recognised before execution.")
def c20(ck, rng, tier):
    q = tier == "quick"
    cases = []

    def dual(id, src, inp="", **kw):
        cases.append(prog(id + "n", src, inp, **kw))
        cases.append(prog(id + "p", src, inp, ped=True, **kw))
    for n in CO.CORPUS:
        dual("c-" + n, CO.text(n), CO.INPUT[n], ln=True)
        if not CO.INPUT[n]:
            cases.append(repl("r-" + n, CO.CORPUS[n], ped=True))
    for i in range(40 if q else 1200):
        g = GP.Gen(random.Random(rng.random()), ped=True, perr=rng.choice([0, 0, 0.05, 0.1]), size=rng.choice([6, 10]))
        ents = g.program()
        dual("g%d" % i, GP.file_text(ents), ln=True, steps=20000)
        if i % 3 == 0:
            for p in (False, True):
                cases.append(dict(id="gr%d%d" % (i, p), steps=20000, runs=[dict(mode="repl", src=b"", inp=B(GP.repl_text(ents)), ped=p)]))
    # the words in harmless places
    harmless = ["OUTPUT \"BREAK CONTINUE ELSE IF INTEGER(1)\"", "// BREAK CONTINUE ELSE IF INTEGER(5)", "DECLARE BREAKx, xCONTINUE, ELSEIF : INTEGER\nELSEIF <- 1\nBREAKx <- 2\nOUTPUT ELSEIF, BREAKx", "IF TRUE THEN\n OUTPUT 1\nELSE\n IF FALSE THEN\n  OUTPUT 2\n ENDIF\nENDIF",
                "IF FALSE THEN\n OUTPUT 1\nELSE // c\n IF TRUE THEN\n  OUTPUT 2\n ENDIF\nENDIF", "IF FALSE THEN\n OUTPUT 1\nELSE\n\n\n IF TRUE THEN\n  OUTPUT 2\n ENDIF\n OUTPUT 3\nENDIF", "DECLARE x : INTEGER\nx <- (5)\nOUTPUT x", "DECLARE a : ARRAY[1:2] OF INTEGER\na[1] <- 3\na[2] <- a[1]\nOUTPUT a[2]",
                "TYPE T\n DECLARE f : INTEGER\nENDTYPE\nDECLARE t : T\nt.f <- 4\nOUTPUT t.f", "DECLARE i : INTEGER\nDECLARE s : INTEGER\ns <- 0\nFOR i <- 1 TO 3\n s <- s + i\nNEXT i\nOUTPUT s", "PROCEDURE P(a : INTEGER, BYREF b : INTEGER)\n a <- 1\n b <- a\nENDPROCEDURE\nDECLARE z : INTEGER\nCALL P(3, z)\nOUTPUT z",
                "DECLARE n : REAL\nn <- 5\nOUTPUT n / 2", "CONSTANT C = 5\nOUTPUT C + 1", "DECLARE c : CHAR\nc <- \"x\"\nOUTPUT c & 'y'", "TYPE E = (aa, bb)\nDECLARE e : E\ne <- bb\nOUTPUT e", "TYPE P = ^INTEGER\nDECLARE p : P\nDECLARE i : INTEGER\ni <- 1\np <- ^i\np^ <- 2\nOUTPUT i", "OUTPUT INT(2.5), REAL_X", "DECLARE d : DATE\nd <- 1/2/2003\nOUTPUT d",
                "DECLARE x : INTEGER\nPROCEDURE G\n x <- 3\nENDPROCEDURE\nCALL G\nOUTPUT x", "DECLARE b : BOOLEAN\nb <- TRUE AND NOT FALSE\nOUTPUT b", "DECLARE x : INTEGER\nINPUT x\nOUTPUT x", "FUNCTION F(INTEGERx : INTEGER) RETURNS INTEGER\n RETURN (INTEGERx)\nENDFUNCTION\nOUTPUT F((2))", "K <- 5", "DECLARE x : INTEGER\nx <- K"]
    for i, h in enumerate(harmless):
        if h == "K <- 5":
            continue
        dual("h%d" % i, h + "\n", "12\n", ln=True)
    # the constructs
    inp = "31\n32\n33\n"
    for con, forms in PEDSTMT:
        for j, f in enumerate(forms):
            base = "\n".join(PEDPRE) + "\n"
            put = [base + f + "\nOUTPUT \"after\"\n", f + "\n" + base, base + "IF FALSE THEN\n" + f + "\nENDIF\nOUTPUT \"end\"\n" if "PROCEDURE" not in f and "FUNCTION" not in f else base + f,
                   base + "PROCEDURE Never\n" + f + "\nENDPROCEDURE\nOUTPUT \"end\"\n" if "PROCEDURE" not in f and "FUNCTION" not in f else f, base + "OUTPUT 1 DIV 0\n" + f + "\n", base.replace("\n", "\r\n") + f.replace("\n", "\r\n") + " // c\r\n", f]
            for k, s in enumerate(put):
                if q and k not in (0, 1) and (j + k) % 3:
                    continue
                cid = "%s%d.%d" % (con.replace(" ", ""), j, k)
                dual(cid, s, inp, ln=True)
                if k == 0:
                    cases.append(prog(cid + "P", s, inp, ped=True, via_p="-p", ln=True))
            if "INPUT" not in f and "READ" not in f:
                es = [e for e in PEDPRE if not e.startswith("INPUT")]
                fe = [f] if f.split(" ")[0] not in ("PROCEDURE", "FUNCTION") or f.count("\nEND") == 1 and f.endswith(("ENDPROCEDURE", "ENDFUNCTION")) else [x for x in f.replace("ENDPROCEDURE\n", "ENDPROCEDURE\n\n").replace("ENDFUNCTION\n", "ENDFUNCTION\n\n").split("\n\n")]
                fe = [y for x in fe for y in ([x] if "\n" in x and x.split(" ")[0] in GP.HEADS else x.split("\n"))]
                cases.append(repl("%s%dr" % (con.replace(" ", ""), j), es + fe + ["OUTPUT v, u", "v", "OUTPUT \"alive\""], ped=True))
    for i in range(40 if q else 1200):
        g = GP.Gen(random.Random(rng.random()), ped=True, perr=0, size=8)
        ents = [list(e) for e in g.program()]
        con, forms = rng.choice(PEDSTMT)
        f = rng.choice([x for x in forms if not any(w in x for w in ("ar[", "Sub", "red", "made.txt", "Z"))])
        at = rng.randint(0, len(ents))
        ents.insert(at, ["DECLARE v : INTEGER"])
        ents.insert(at + 1, f.split("\n"))
        if "w <- " in f:
            ents.insert(at, ["DECLARE w : REAL"])
        dual("x%d" % i, GP.file_text(ents), inp, ln=True, steps=20000)
    # constructs of the ordinary dialect, many at once
    for i in range(10 if q else 300):
        g = GP.Gen(random.Random(rng.random()), ped=False, perr=0, size=8)
        ents = g.program()
        dual("y%d" % i, GP.file_text(ents), ln=True, steps=20000)
    # what the other properties exercise (loops, environments, records, operators, built-ins, sessions), with the option on
    more = [c for g in (gen_loops.loop_cases, gen_dyn.dyn_cases, gen_recs.rec_cases) for c in g(rng, 16 if q else 200, g.__name__)]
    fx = ["b%d <- %s" % (k, v) for k, v in enumerate(["TRUE", "FALSE", "5", "-2", "2.5", "\"s\"", "'c'"])]
    fx += ["FUNCTION F%s(n : %s) RETURNS %s\n OUTPUT \"%s\", n\n RETURN n\nENDFUNCTION" % (x, t, t, x) for x, t in zip("BIRSC", ["BOOLEAN", "INTEGER", "REAL", "STRING", "CHAR"])]
    fx += ["FUNCTION Fail() RETURNS BOOLEAN\n OUTPUT \"fail\"\n RETURN 1 / 0 = 1.0\nENDFUNCTION"]
    at = ["FB(TRUE)", "FB(FALSE)", "FI(3)", "FI(0)", "FR(2.5)", "FS(\"x\")", "FC('y')", "Fail()", "b0", "b1", "b2", "b4", "b5", "1 DIV 0", "nope"]
    tab = ["%s %s %s" % (a, o, b) for a in at for b in at for o in X.ARITH + X.CMP + ["&", "AND", "OR"]]
    logic = ["%s %s %s" % (a, o, b) for a in at[:2] + at[7:10] for b in at[:2] + at[7:10] for o in ("AND", "OR")] + ["NOT " + a for a in at] + ["- " + a for a in at]
    logic += ["(%s %s %s) %s %s" % (a, o, b, p, c) for a in at[:2] for b in at[:2] for c in at[:2] for o in ("AND", "OR") for p in ("AND", "OR")] + ["%s %s NOT %s" % (a, o, b) for a in at[:2] for b in at[:2] for o in ("AND", "OR")]
    for i, part in enumerate(chunks(logic + (rng.sample(tab, 150) if q else tab), 60)):
        more.append(repl("op%d" % i, fx + part))
        more.append(prog("of%d" % i, fx + ["OUTPUT " + e for e in part if not any(w in e for w in ("Fail", "nope", "DIV 0")) and "AND" in e or "OR " in e][:40]))
    ctx = ["IF %s THEN\n OUTPUT 1\nELSE\n OUTPUT 2\nENDIF", "WHILE %s\n OUTPUT 3\n RETURN\nENDWHILE", "x <- %s", "OUTPUT %s", "CASE OF b2\n 5 : x <- %s\nENDCASE"]
    more.append(repl("oc", fx + [c % l for l in rng.sample(logic, 14) for c in ctx]))
    for i in range(3 if q else 20):
        es = list(SETUP)
        for x in rng.sample(ATOMIC, 20) + rng.sample(ECHO, 50):
            es.append(x)
        more.append(dict(repl("w%d" % i, es + PROBES + TAIL), files=FILES))
    for i in range(6 if q else 60):
        more.append(props_files.text15(random.Random(rng.random()), "tx%d" % i))
        more.append(props_files.recs14(random.Random(rng.random()), "rc%d" % i))
        s, u = props_lib.builtin_samples(rng, 25)
        more.append(repl("bi%d" % i, s + u))
    for c in more:
        for r in c["runs"]:
            r["ped"] = True
            # --pedantic wants the variables declared
            k = "src" if r["mode"] == "file" else "inp"
            t = r[k].decode("latin1")
            known = set(x.strip() for m in re.findall(r"DECLARE ([\w, ]+) :|PROCEDURE \w+\((.*)\)|FUNCTION \w+\((.*)\) R", t) for p in m for x in re.sub(r"BYREF|BYVAL|: *\w+", "", p).split(","))
            new = sorted(set(re.findall(r"^[ \t]*(\w+) <- ", t, re.M)) - known - {"nope", "undef"})
            if rng.random() < 0.9:
                r[k] = B("".join("DECLARE %s : %s\n" % (x, {"b0": "BOOLEAN", "b1": "BOOLEAN", "b4": "REAL", "b5": "STRING", "b6": "CHAR", "s": "STRING"}.get(x, "STRING" if x == "x" and "aBc" in t else "INTEGER")) for x in new) + t)
        cases.append(dict(c, id="o-" + c["id"]))
    # options
    run(ck, cases, maxn=4000)
