"""What each check runs."""
import os

MCDOC = """SPECIFICATION Spec
INVARIANTS RoundTrip PrettyToo Standard PrefixesRejected Sane Out
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d Rich = %s Emit = TRUE
"""


# token sets for the exhaustive exploration of the parser
STRUCT = ["{", "}", "[", "]", ":", ",", '"', "a", "1", " "]
NESTED = ["{", "}", "[", "]", '"a":', "b:", ",", "1", '"s"', "\n", "'q'", "<2>", '"___jnid_":']
ESCAPES = ['"', "'", "\\", "\\u", "d83d", "de00", "00e9", "\\x", "4", "n", "/", "\u00e9", ","]
WORDS = ["null", "none", "N", "true", "yes", "no", "1", "-", "+", ".", "e", "_", "0x", "p", "inf", "nan", "<", ">", " ", "0"]
RFCTOK = ["{", "}", "[", "]", '"a":', '"b" :', ",", "-1", "0", ".5", "e3", '"\\n"', "null", "true", " "]
NUMS = ["-", "+", "0", "1", "9", ".", "e", "E", "_", "x", ","]


def doc_cases(c):
    """Documents enumerated by the specification."""
    a = c.cases("MCDoc", MCDOC % (1, "TRUE"), name="rich")
    if c.thorough:
        b = c.cases("MCDoc", MCDOC % (4, "FALSE"), name="poor")
        with open(a, "a") as f:
            f.write(open(b).read())
    return a


def docs(c):
    r = c.drive(infile=doc_cases(c))
    if r:
        c.validate(c.pid, r)


c02 = docs
c06 = docs


def texts(c):
    r = c.drive()
    if r:
        c.validate("Texts", r)


def c01(c):
    texts(c)
    c.trie(STRUCT, c.scale(3, 4), "total", "structure")
    c.trie(NESTED, c.scale(3, 4), "total", "nested")
    c.trie(ESCAPES, c.scale(3, 4), "total", "escapes")
    c.trie(WORDS, c.scale(2, 3), "total", "words")


def c03(c):
    c.trie(RFCTOK, c.scale(4, 5), "rfc", "standard")
    texts(c)


def c04(c):
    c.trie(STRUCT, c.scale(4, 5), "lenient", "structure")
    c.trie(NESTED, c.scale(4, 4), "lenient", "nested")
    c.trie(ESCAPES, c.scale(3, 4), "lenient", "escapes")
    c.trie(WORDS, c.scale(3, 4), "lenient", "words")
    c.trie(NUMS, c.scale(4, 5), "lenient", "numbers")
    texts(c)


def c05(c):
    c.trie(NESTED, c.scale(3, 4), "offset", "nested")
    c.trie(WORDS, c.scale(2, 3), "offset", "words")
    texts(c)


MCHIST = """SPECIFICATION Spec
VIEW View
INVARIANTS Frame Sane MapLaws FoldLaws Apart AskLaws Forced Out
CHECK_DEADLOCK FALSE
CONSTANTS Profile = "%s" Depth = %d Emit = TRUE
"""


def hist(profile, quick, thorough):
    """Every call in every state the specification reaches, then random histories."""
    def run(c):
        cases = c.cases("MCHist", MCHIST % (profile, c.scale(quick, thorough))) if profile else None
        r = c.drive(infile=cases)
        if r:
            c.validate("Hist", r)
    return run


c07 = hist("edit", 3, 4)
c08 = hist("path", 2, 3)
c09 = hist("fold", 3, 4)


def c10(c):
    hist(None, 0, 0)(c)
    r = c.drive("views")
    if r:
        c.validate("Views", r, name="views")


c11 = hist("copy", 3, 5)
c12 = hist("merge", 2, 3)
c13 = hist("equal", 1, 1)

c25 = hist("plain", 3, 4)
c26 = hist("ask", 1, 1)


def c14(c):
    hist(None, 0, 0)(c)
    r = c.drive("C14reads")
    if r:
        c.validate("Reads", r, name="C14reads")


MCSTRUCT = """SPECIFICATION Spec
INVARIANTS Laws Out
CHECK_DEADLOCK FALSE
CONSTANTS Profile = "%s" Depth = %d Emit = TRUE
"""


def struct(profile, quick, thorough, *more):
    """Go values: those the specification enumerates, then random types and values."""
    def run(c):
        cases = [c.cases("MCStruct", MCSTRUCT % (p, c.scale(q, t)), name=p) for p, q, t in ((profile, quick, thorough),) + more]
        r = c.drive(infile=c.join(cases))
        if r:
            c.validate("Struct", r)
    return run


c15 = struct("back", 1, 2)
c16 = struct("names", 2, 2)
c17 = struct("deps", 1, 1)
c19 = struct("convert", 1, 1)
c20 = struct("overlay", 2, 4)
c21 = struct("custom", 1, 2, ("hooks", 1, 2))

c27 = struct("iface", 1, 1)


MCGRAPH = """SPECIFICATION Spec
INVARIANTS TextOk TraceInv LoopsOnce Restored AllFound
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS Nodes = %d Ptrs = %d Lists = %d Moves = %d Emit = TRUE Wrong = ""
"""


def c18(c):
    """Every small graph written and read step by step, and for real; then random graphs."""
    for wrong, invs in [("counts", ["LoopsOnce", "Restored"]), ("waits", ["AllFound"]), ("forgets", ["AllFound"])]:
        cfg = (MCGRAPH % (3, 2, 0, 1)).replace("Emit = TRUE", "Emit = FALSE").replace('""', '"%s"' % wrong)
        c.must_break("MCGraph", cfg.replace("PROPERTY Ends\n", ""), invs)
    files = [c.cases("MCGraph", MCGRAPH % s, name="graph%d" % i) for i, s in enumerate(c.scale([(3, 2, 0, 1), (2, 2, 2, 1)], [(3, 2, 0, 2), (2, 2, 2, 2), (3, 1, 1, 2)]))]
    if c.thorough:
        for s in [(2, 2, 3, 1), (3, 1, 2, 1), (4, 1, 1, 1)]:
            c.model("MCGraph", (MCGRAPH % s).replace("Emit = TRUE", "Emit = FALSE"))
    r = c.drive(infile=c.join(files))
    if r:
        c.validate("Graph", r)


MCQUERY = """SPECIFICATION Spec
INVARIANTS InsertionDenotes Confluent InPlace NothingElse Spelled RoundTrip Sane Out
CHECK_DEADLOCK FALSE
CONSTANTS Profile = "%s" Depth = %d Emit = TRUE
"""


def query(profile, quick, thorough):
    def run(c):
        r = c.drive(infile=c.cases("MCQuery", MCQUERY % (profile, c.scale(quick, thorough))))
        if r:
            c.validate("Query", r)
    return run


c22 = query("docs", 2, 3)
c23 = query("params", 4, 5)


MCCONC = """SPECIFICATION Spec
INVARIANTS NoRace AsAlone Unchanged Out
CHECK_DEADLOCK FALSE
CONSTANTS Threads = %d Calls = %d Hidden = "%s" Emit = %s
"""


def c24(c):
    """Every combination of kinds of calls, by goroutines that start together, under the race detector."""
    # a call that keeps a note in the shared document breaks all three claims
    c.must_break("MCConc", MCCONC % (2, 1, "render", "FALSE"), ["NoRace", "AsAlone", "Unchanged"])
    c.model("MCConc", (MCCONC % (2, 1, "", "FALSE")).replace("CHECK_DEADLOCK", "PROPERTY Ends\nCHECK_DEADLOCK"))
    files = [c.cases("MCConc", MCCONC % (t, k, "", "TRUE"), name="conc%d%d" % (t, k)) for t, k in c.scale([(3, 1)], [(3, 1), (2, 2), (4, 1)])]
    r = c.drive(race=True, infile=c.join(files), timeout=800)
    if r:
        c.validate("Conc", r)
        c.note(race_reports=c.driver_stderr.count("WARNING: DATA RACE"), first_race=c.driver_stderr[:3000] if "DATA RACE" in c.driver_stderr else "")


# properties that are also put to documents of any size
LARGE = ["C%02d" % i for i in range(1, 24)] + ["C25", "C26"]


def also_large(pid, fn):
    def run(c):
        fn(c)
        r = c.drive("scale" + pid)
        if r:
            c.validate("Scale", r, name="scale" + pid)
    return run if pid in LARGE else fn


TABLE = {k.upper(): also_large(k.upper(), v) for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}
