"""Small programs that together use every statement and expression form: lists of entries
(an entry is one statement or one multi-line construct), with input lines.  PED: uses none
of the constructs --pedantic rejects."""


def P(src):
    """entries separated by blank lines"""
    return [e.strip("\n") for e in src.strip("\n").split("\n\n")]


CORPUS = {}
INPUT = {}
NOPED = set()


def add(name, src, inp="", ped=True):
    CORPUS[name] = P(src)
    INPUT[name] = inp
    if not ped:
        NOPED.add(name)


add("arith", '''
DECLARE x : INTEGER

DECLARE y, z : REAL

x <- 7 * (3 - 5) DIV 2

y <- x / 2 + 1.5

z <- -y * 2 - 10 MOD 4

OUTPUT x, " ", y, " ", z

OUTPUT 1 + 2 & "a" & 'b' = "3ab" AND NOT (x > 3 OR y <= z)

OUTPUT x <> 3, x < 4, x >= -7, -x

x <- 10 MOD -3

OUTPUT x DIV (x - x)
''')
add("ifs", '''
DECLARE n : INTEGER

n <- 3

IF n = 3 THEN
 OUTPUT "three"
ENDIF

IF n > 3 THEN
 OUTPUT "big"
ELSE
 IF n < 3 THEN
  OUTPUT "small"
 ELSE
  OUTPUT "same"
 ENDIF
 OUTPUT "after"
ENDIF

IF n = 4
THEN
 OUTPUT 4
ENDIF

OUTPUT "end"
''')
add("elseif", '''
n <- 3

IF n = 1 THEN
 OUTPUT "one"
ELSE IF n = 2 THEN
 OUTPUT "two"
ELSE IF n = 3 THEN
 OUTPUT "three"
ELSE
 OUTPUT "more"
ENDIF

OUTPUT INTEGER("12") + 1, REAL("1.5"), STRING(n) & "!", BOOLEAN(n), CHAR(65)
''', ped=False)
add("case", '''
DECLARE n : INTEGER

DECLARE c : CHAR

n <- 5

c <- 'k'

CASE OF n
 1 : OUTPUT "one"
 2 TO 4 : OUTPUT "few"
 -3 : OUTPUT "neg"
 5 : OUTPUT "five"
  OUTPUT "again"
 OTHERWISE : OUTPUT "other"
ENDCASE

CASE OF c
 'a' TO 'f' : OUTPUT "a-f"
 OTHERWISE :
  OUTPUT "rest"
  n <- n + 1
ENDCASE

CASE OF n
 7 : OUTPUT 7
ENDCASE

OUTPUT n
''')
add("loops", '''
DECLARE i, k, s : INTEGER

s <- 0

FOR i <- 1 TO 3
 s <- s + i
NEXT i

FOR k <- 10 TO 1 STEP -4
 OUTPUT k
NEXT k

WHILE s > 2 DO
 s <- s - 2
ENDWHILE

REPEAT
 s <- s + 5
 OUTPUT "r", s
UNTIL s > 10

WHILE s > 100
DO
 OUTPUT "never"
ENDWHILE

FOR i <- 1 TO 2
 FOR k <- i TO 2
  OUTPUT i * k
 NEXT
NEXT

OUTPUT i, k, s
''')
add("breaks", '''
s <- 0

FOR i <- 1 TO 5
 IF i = 2 THEN
  CONTINUE
 ENDIF
 IF i = 4 THEN
  BREAK
 ENDIF
 s <- s + i
NEXT i

WHILE TRUE DO
 s <- s + 1
 BREAK
ENDWHILE

REPEAT
 s <- s + 1
 CONTINUE
UNTIL s > 8

OUTPUT s, " ", i
''', ped=False)
add("procs", '''
DECLARE g : INTEGER

g <- 1

PROCEDURE Hello
 OUTPUT "hello"
ENDPROCEDURE

PROCEDURE Add(a : INTEGER, BYREF b : INTEGER, c : INTEGER)
 DECLARE t : INTEGER
 t <- a
 b <- b + t
 c <- 0
 g <- g + 1
 RETURN
ENDPROCEDURE

FUNCTION Fact(n : INTEGER) RETURNS INTEGER
 IF n <= 1 THEN
  RETURN 1
 ENDIF
 RETURN n * Fact(n - 1)
ENDFUNCTION

PROCEDURE Val(BYVAL a : INTEGER, b : STRING)
 a <- a + 1
 OUTPUT a, b
ENDPROCEDURE

CALL Hello

CALL Hello()

CALL Val(g, "s")

DECLARE r : INTEGER

CALL Add(2, g, r)

OUTPUT g, r, Fact(5)
'''.replace(" RETURN\nENDPROC", "ENDPROC"))
add("arrays", '''
DECLARE a : ARRAY[1:3] OF INTEGER

DECLARE m : ARRAY[0:1, -1:1] OF STRING

DECLARE b : ARRAY[1:3] OF INTEGER

a[1] <- 5

a[a[1] - 3] <- a[1] * 2

m[0, -1] <- "x"

m[1, 1] <- m[0, -1] & "y"

b <- a

a[2] <- 0

OUTPUT a[1], a[2], b[2], m[1, 1], m[0, 0]

a[4] <- 1
''')
add("types", '''
TYPE Season = (Spring, Summer, Autumn, Winter)

TYPE PInt = ^INTEGER

TYPE Point
 DECLARE x : INTEGER
 DECLARE y : REAL
 DECLARE tags : ARRAY[1:2] OF STRING
ENDTYPE

TYPE Line
 DECLARE from, till : Point
ENDTYPE

DECLARE s : Season

s <- Winter

s <- s + 2

DECLARE i : INTEGER

DECLARE p : PInt

i <- 4

p <- ^i

p^ <- p^ + 1

DECLARE l, l2 : Line

l.from.x <- i

l.till.tags[2] <- "t"

l2 <- l

l.from.x <- 0

OUTPUT s, " ", i, " ", p^, " ", l2.from.x, l2.till.tags[2], l.till.y

OUTPUT s = Summer
''')
add("consts", '''
CONSTANT MAX = 10

CONSTANT NAME = "abc"

CONSTANT NEG = -5

CONSTANT PI = 3.14

CONSTANT YES = TRUE

CONSTANT C = 'z'

DECLARE a : ARRAY[1:MAX] OF INTEGER

a[MAX] <- NEG

OUTPUT MAX, NAME, NEG, PI, YES, C, a[10]

MAX <- 3
''')
add("input", '''
DECLARE n : INTEGER

DECLARE s : STRING

DECLARE c : CHAR

DECLARE b : BOOLEAN

DECLARE r : REAL

INPUT n

INPUT s

READ c

INPUT b

INPUT r

OUTPUT n + 1, s, c, b, r
''', "41\nsome text\nq\nTRUE\n2.5\n")
add("files", '''
DECLARE line : STRING

DECLARE n : INTEGER

OPENFILE "out.txt" FOR WRITE

WRITEFILE "out.txt", "first line"

WRITEFILE "out.txt", 42

CLOSEFILE "out.txt"

OPENFILE "out.txt" FOR APPEND

WRITEFILE "out.txt", 1.5

CLOSEFILE "out.txt"

OPENFILE "out.txt" FOR READ

WHILE NOT EOF("out.txt") DO
 READFILE "out.txt", line
 OUTPUT LENGTH(line), line
ENDWHILE

CLOSEFILE "out.txt"

OPENFILE "r.dat" FOR RANDOM

n <- 5

PUTRECORD "r.dat", n

SEEK "r.dat", 2

n <- 6

PUTRECORD "r.dat", n

SEEK "r.dat", 1

GETRECORD "r.dat", n

OUTPUT n

CLOSEFILE "r.dat"

READFILE "out.txt", line
''')
add("strings", '''
DECLARE s : STRING

s <- "it's \\"quoted\\" // no comment\\t|"

OUTPUT s, LENGTH(s)

OUTPUT LEFT(s, 2), RIGHT(s, 1), MID(s, 3, 2), TO_UPPER("abc"), TO_LOWER("ABC")

OUTPUT '\\'', '"', '/', ASC('A'), CHR(66), UCASE('c'), LCASE('D')

OUTPUT IS_NUM("12"), STR_TO_NUM("1.5"), NUM_TO_STR(2.25)

PRINT 14/3/2020, DAY(14/3/2020), SETDATE(1, 2, 2003) < 2/2/2003

OUTPUT ""

OUTPUT "a", "" & 'b'

OUTPUT MID(s, 0, 1)
''')
add("deep", '''
DECLARE t : INTEGER

t <- 0

PROCEDURE Outer(k : INTEGER)
 DECLARE i : INTEGER
 FOR i <- 1 TO k
  IF i MOD 2 = 0 THEN
   WHILE t < i DO
    t <- t + 1
    CASE OF i
     2 : OUTPUT "two"
     OTHERWISE : REPEAT
       t <- t + 1
      UNTIL t > 3
    ENDCASE
   ENDWHILE
  ELSE
   OUTPUT "odd"
  ENDIF
 NEXT i
ENDPROCEDURE

CALL Outer(4)

OUTPUT t

CALL Inner(1)
''')
add("funcs", '''
TYPE Rec
 DECLARE n : INTEGER
ENDTYPE

FUNCTION Mk(n : INTEGER) RETURNS Rec
 DECLARE r : Rec
 r.n <- n
 RETURN r
ENDFUNCTION

FUNCTION Neg(b : BOOLEAN) RETURNS BOOLEAN
 RETURN NOT b
ENDFUNCTION

FUNCTION None RETURNS STRING
 RETURN "none"
ENDFUNCTION

DECLARE q : Rec

q <- Mk(3)

OUTPUT q.n, Neg(q.n = 3), None(), None() & "!"

FUNCTION Bad(n : INTEGER) RETURNS INTEGER
 IF n > 0 THEN
  RETURN Bad(n - 1)
 ENDIF
ENDFUNCTION

OUTPUT Bad(2)
''')


def text(name):
    return "\n".join(CORPUS[name]) + "\n"
