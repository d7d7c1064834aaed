"""C18: input of compiled programs is exact, whatever reads deliver."""
from .. import lib
from .c17 import C17


class C18(C17):
    id = "C18"
    rule = ("random histories of fgetc and fgets (any buffer size) over several files open at once, some opened twice, some "
            "written before by the same program, and standard input, with any bytes in them, run through the real library on the "
            "simulated machine while reads and opens fail or are interrupted. Every answer, the buffer before, in and behind "
            "every line, and the position that follows are compared with a reference model of files. Non-trivial: something was read.")
    assumptions = ("an answer of at most 0 from fopen counts as reporting the failure (KF2: it is not NULL)",)
    reading = True
    which = ["read", "read", "read", "open"]


CHECK = C18()
