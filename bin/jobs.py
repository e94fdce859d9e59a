"""Which harnesses decide which property, with which bounds."""
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Job:
    def __init__(self, harness, variant=0, defs=None, covers=(), par=1, weight=1, samples=4, steps=0, raw=None):
        self.harness, self.variant, self.defs = harness, variant, defs or {}
        self.covers, self.par, self.weight, self.samples, self.steps, self.raw = covers, par, weight, samples, steps, raw

    def path(self):
        return V + "/harness/" + self.harness

    def dflags(self):
        return self.raw if self.raw is not None else ["-D%s=%s" % kv for kv in sorted(self.defs.items())]

    def key(self):
        return self.harness + " ".join(self.dflags())

    def name(self):
        return "%s%s.%d" % (self.harness[:-2], "".join("-%s%s" % kv for kv in sorted(self.defs.items())), self.variant)


class Prop:
    def __init__(self, quick, thorough=None, bounds="", tbounds=None, assumptions=(), max_samples=40):
        self.q, self.t, self.b, self.tb = quick, thorough, bounds, tbounds
        self.assumptions = list(COMMON) + list(assumptions)
        self.max_samples = max_samples

    def jobs(self, tier):
        return self.q if tier == "quick" or self.t is None else self.t

    def bounds(self, tier):
        return self.b if tier == "quick" or self.tb is None else self.tb


COMMON = [
    "C library, file system and clock are models (engine/libc.c): one flat directory, no I/O errors except injected ones, clock fixed",
    "compiled as by clang -O1 without optimisation passes, x86-64 data layout; signed overflow wraps",
    "inputs outside the stated alphabets, sizes and command scripts are not covered",
]


def V_(h, n, **kw):
    n = n if hasattr(n, "__iter__") else range(n)
    return [Job(h, i, **kw) for i in n]


def H(h, n, valid="valid", other=None, par=None, **kw):
    """variants 0..n-1, each of which must reach `valid`, except those in `other` (variant -> covers);
    par: processes for the long ones, which start first"""
    other, par = other or {}, par or {}
    j = [Job(h, i, covers=other.get(i, (valid,)), par=par.get(i, 1), **kw) for i in (n if hasattr(n, "__iter__") else range(n))]
    return sorted(j, key=lambda x: -x.par)


PROPS = {}
DBSCRIPT = "command script READ / VERIFY PROOF * / EXIT; "

PROPS["C01"] = Prop(
    H("c01.c", 8, other={6: ("incomplete", "hypothesis mismatch")}),
    bounds=DBSCRIPT + "8 database templates; up to 6 free proof steps over every earlier label, '?' and unknown labels; up to 8 free math symbols in hypotheses, conclusions and floating types; frames of up to 4 hypotheses, substitutions of up to 9 symbols")
PROPS["C02"] = Prop(
    H("c02.c", 8),
    bounds=DBSCRIPT + "8 templates; $d statements of 2-3 free variables in outer and inner scopes, on the axiom, on the theorem and on an intermediate lemma; substitutions of 1-5 symbols with repeated variables, constants only, dummy variables")
PROPS["C03"] = Prop(
    H("c03.c", 9, other={8: ("number too large",)}),
    bounds=DBSCRIPT + "8 templates; up to 5 free letters out of A-Z, ?, white space and bad characters; up to 3 free labels in the parenthesised list; numbers up to three letters, and one of 28 letters (lists of up to 130 labels, so that UA.., UUA.., VA.. are valid); obsolete encoding included")
PROPS["C04"] = Prop(
    H("c04.c", 7, par={6: 6}),
    bounds=DBSCRIPT + "7 templates with up to four nested ${ $} blocks; which variables, hypotheses and labels occur where is free (2-4 choices in up to 8 places)")
PROPS["C05"] = Prop(
    H("c05.c", 19, other={2: ("missing label",), 7: ("$f needs a constant and a variable",)}),
    bounds=DBSCRIPT + "19 templates of up to 30 tokens; keyword letters out of cvdfeap{}.=(), any byte value but NUL, ^Z and vertical tab in labels and math symbols, free names, free white space, comment delimiters, truncation at every byte")

PROPS["C06"] = Prop(
    H("c06.c", 13, valid="written"),
    bounds="command scripts READ / WRITE SOURCE [/ FORMAT, / REWRAP] / EXIT; 12 templates of up to 40 tokens with up to 16 free bytes: line ends and white space everywhere, comment text, comments in all places, every kind of statement, no statement at all; one file, no includes")
PROPS["C07"] = Prop(
    H("c07.c", (0, 1, 3, 4, 5, 6, 10, 11), valid="included", other={11: ("split",), 10: ("included", "included again", "split"), 0: ("included", "included again", "missing", "merged"), 1: ("included", "included again", "missing", "merged"), 3: ("included", "included again", "split"), 4: ("included", "included again", "split"), 5: ("included", "included again", "split"), 6: ("included", "included again", "merged")}),
    bounds="READ, WRITE SOURCE with and without / SPLIT, / KEEP_INCLUDES, / NO_VERSIONING, ERASE, READ of the merged file and splitting it again; four files of up to 60 bytes, which may include each other and themselves in any way; free white space, comments and line ends around the inclusions; repeated, nested, missing files; file names that begin with other ones; a merged file split where the included files and backups exist with 192 combinations of other contents")
PROPS["C08"] = Prop(
    H("c07.c", (2, 7, 8, 9), valid="error located"),
    bounds="READ of databases with redeclared symbols; up to four files including each other, once and repeatedly; merged files with Begin, End and Skip markup; 8 or 9 free line ends around the inclusions and errors")
PROPS["C09"] = Prop(
    H("c09.c", 9, other={6: ("valid",), 7: ("valid",), 8: ("rejected",)}, par={8: 4, 2: 2, 4: 2, 1: 2}) + H("c09b.c", 2, par={1: 2, 0: 2}),
    bounds="proofs of up to 30 steps, and with 16 to 121 or 614 to 622 different labels (numbers of 2 to 4 letters), with free steps, letters, local labels and layout; any of the 8 format conversions and, for two of the templates, any two in a row")
PROPS["C10"] = Prop(
    H("c10.c", (0, 3, 4, 5, 6, 7, 8), valid="complete", other={3: ("complete", "with l1", "with l2", "with l3")}, par={0: 4, 8: 2, 4: 2, 6: 2}),
    bounds="PROVE followed by up to 5 Proof Assistant commands out of menus of up to 17 (ASSIGN, IMPROVE with qualifiers, REPLACE, LET, UNIFY with user choices, INITIALIZE, DELETE, MINIMIZE_WITH and EXPAND with qualifiers), free step numbers and math strings, theorems and lemmas with free symbols and $d; then SAVE NEW_PROOF")
PROPS["C11"] = Prop(
    H("c10.c", (1, 2, 9, 10), valid="undo", other={1: ("undo", "redo")}, par={1: 4, 2: 4, 9: 4, 10: 2}),
    bounds="histories of 5 commands out of ASSIGN, DELETE STEP, IMPROVE, UNDO, REDO, of 6 with a limit of 2 set in between (SET UNDO), of 5 with a limit of 0, 1 or 3 set before, and of 4 out of these and LET, REPLACE, UNIFY STEP, INITIALIZE ending with UNDO")
PROPS["C12"] = Prop(
    H("c12.c", (0, 1, 2), valid="found", par={0: 3}),
    bounds="SHOW LABELS on databases of 12 to 18 labels; patterns of up to 6 free characters (letters, * ? , . -), and ~ # @ = % forms with up to 3 free characters")
PROPS["C13"] = Prop(
    H("c12.c", (3, 4, 5), valid="found", other={i: ("found", "nothing") for i in (3, 4, 5)}),
    bounds="SEARCH on databases of 7 formulas (with 2 hypotheses for / JOIN) and 6 comments; search strings of up to 8 free characters forming whole tokens, or any text for / COMMENTS")
PROPS["C14"] = Prop(
    H("c14.c", 25, valid="result", par={3: 3, 17: 2, 16: 2, 7: 2}),
    bounds="every TOOLS command but UPDATE on files of up to 5 lines with up to 8 free bytes (white space, line ends, quotes, control and 8-bit characters where they matter), arguments of up to 2 free characters or empty, all choices of counts, columns and flags listed in the harness")
PROPS["C15"] = Prop(
    H("c15.c", 16, valid="written", other={14: ("error",), 15: ("error",)}),
    H("c15.c", [100 + i for i in range(16)], valid="written", other={114: ("error",), 115: ("error",)}),
    bounds="15 ways to overwrite a file; all 1024 combinations of existing versions for NUMBER, otherwise any first gap with three patterns of later versions; a stop of the program after every file system operation; failure of the first, second or third open for writing",
    tbounds="15 ways to overwrite a file; all 1024 combinations of existing versions; a stop of the program after every file system operation; failure of the first, second or third open for writing")

PROPS["C16"] = Prop(
    H("c16.c", 6, valid="valid", par={0: 2, 1: 2, 2: 2, 3: 2, 4: 2, 5: 2}),
    bounds="databases of 10 or 11 assertions in which every theorem has one of 2 to 4 proofs, read as written (normal or compressed, with comments inside) or rewritten; SHOW TRACE_BACK of 3 theorems with 9 combinations of / ESSENTIAL, / AXIOMS, / TO, / MATCH; SHOW USAGE of 7 assertions, / DIRECT and / RECURSIVE")

PROPS["C17"] = Prop(
    H("c17.c", 6, valid="shown", other={1: ("shown", "repeated"), 2: ("shown", "repeated"), 5: ("shown", "repeated")}, par={1: 4, 0: 2, 5: 3}),
    bounds="SHOW PROOF of three proofs in all combinations (648) and of all others in 15 combinations of / ALL, / LEMMON, / RENUMBER, / NO_REPEATED_STEPS, / REVERSE, / FROM_STEP, / TO_STEP, / DEPTH, / START_COLUMN; all proofs made by 4 (normal format) or 5 (compressed) choices out of hypotheses, axioms, modus ponens and conjunction, up to 90 steps; compressed proofs with free letters; lines that fit on the screen")
PROPS["C18"] = Prop(
    H("c18.c", 5, valid="shown"),
    bounds="SHOW STATEMENT and SHOW STATEMENT / FULL of every assertion of 5 templates: distinct variable conditions of up to 5 variables in any combination, three nested blocks, free declaration order, variables in hypotheses and conclusions, free line ends")
PROPS["C19"] = Prop(
    H("c19.c", 9, valid="ended", other={5: ("submitted",), 6: ("submitted",)}, par={5: 4, 6: 2}),
    bounds="5 sessions (pages of output, the Proof Assistant, TOOLS, questions, narrow screens) and one with a log file cut off after any byte; any 3 bytes as a command line; all command files of 3 out of 13 blocks of commands, of 2 blocks with either kind of line end and with or without the last one")
PROPS["C20"] = Prop(
    H("c20.c", 4, valid="saved", other={0: ("shown",), 1: ("shown",)}, par={2: 5, 0: 2}),
    bounds="25 commands at every width from 5 to 100 against width 200; a description with free spaces and line ends at widths 5 to 12; a proof saved in 5 formats at every width from 5 to 82, with labels of 2 to 101 characters and indentations of 0 to 90; WRITE SOURCE / REWRAP at the same widths")
PROPS["C21"] = Prop(
    H("c21.c", 7, valid="shown", other={0: ("shown", "ill-formed", "not defined"), 2: ("written",)}, par={1: 3, 2: 3}),
    bounds="5 forms of typesetting definitions with up to 4 free characters out of quotes, +, ;, comment delimiters; descriptions of 3 out of 21 kinds of markup; descriptions with 3 or 4 free bytes, HTML and LaTeX; statements with 2 hypotheses and 8 free symbols out of 13, / HTML, / ALT_HTML and / TEX; proof tables of all proofs made by 4 choices, normal and compressed; two distinct variable groups of up to 4 free variables; symbols without definition of 4 free characters")
PROPS["C22"] = Prop(
    H("c22.c", 5, valid="extracted", par={0: 3, 1: 2, 2: 2, 3: 3, 4: 4}),
    bounds="two groups of databases of up to 45 statements with nested scopes, symbols declared together or each on its own, a variable declared in two of them, local hypotheses and distinct variable conditions; 4 proofs of 2 to 4 alternatives, 12 selections of labels, normal and compressed proofs; descriptions of 3 out of 11 kinds of markup; 7 kinds of first lines, 4 statements under all combinations of headings of 3 levels")

PROPS["C23"] = Prop(
    H("c23.c", 2, valid="same", par={0: 4}),
    bounds="histories of any 2 of 17 commands on another database (among them an unfinished PROVE, failed reads, web page and LaTeX commands, SET commands), then ERASE, READ and 11 groups of up to 6 commands; 1 out of 17 showing commands before the same groups; TeX after HTML in one session excluded")
PROPS["C24"] = Prop(
    H("c24.c", 2, valid="same", par={0: 3, 1: 4}),
    bounds="histories of 2 commands that change or rewrite a database of 12 statements with section headings and comments, followed by 11 groups of showing and writing commands; line numbers in messages excluded")
PROPS["C25"] = Prop(
    H("c25.c", 3, valid="same", other={0: ("abbreviated", "ambiguous"), 1: ("written differently",), 2: ("asked",)}, par={0: 3, 1: 3}),
    bounds="63 commands of all parts of the program (except BEEP, SYSTEM, SUBMIT, TOOLS / UPDATE); every keyword abbreviated to every length in 3 kinds of case; 3 kinds of quotes, 3 of spacing, 2 of case; the command line cut off after every word before the first qualifier")
PROPS["C26"] = Prop(
    H("c26.c", 11, valid="bad", other={0: ("good",), 1: ("good",), 2: ("good",), 3: ("good",), 4: ("good",), 5: ("good",), 6: ("good",), 7: ("good",), 8: ("good",), 9: ("good",), 10: ("good",)}, par={0: 4, 1: 4, 2: 3, 9: 2, 10: 3}),
    bounds="$a, $p and syntax axioms; 16 arrangements of up to 4 date entries with free dates; one entry with two free characters anywhere in it; two dates of any months, the days 1, 29 and 31, and neighbouring years; all pairs ax-1/ax1 with 2 free hypotheses and 2 free $d each; 8 forms of labels with up to 4 free characters; lines of 75 to 82 characters and up to 4 free characters of white space; tokens of 2 free characters; 5 theorems in 3 mathboxes with a free reference; a version date with two free characters; one of 21 typesetting definitions missing, double or misspelled; comments with two of 12 kinds of markup with free labels and symbols")
PROPS["C27"] = Prop(
    H("c27.c", 4, other={0: ("changed", "refused"), 1: ("prove", "save"), 2: ("list",), 3: ("boxes",)}, par={0: 4, 2: 2, 3: 2}),
    bounds="13 commands (ASSIGN, REPLACE, IMPROVE and MINIMIZE_WITH in several forms) on 5 unfinished proofs, every set of one or two discouraged statements out of 7, 3 ways to break the tag over lines, 4 ways to override or not; PROVE and SAVE NEW_PROOF of 5 theorems; SHOW DISCOURAGED of 5 statements with free tags, normal and compressed proofs; two statements out of 5 in 5 places relative to 2 or 3 mathboxes (3 forms of headings) with 9 forms of IMPROVE, MINIMIZE_WITH, ASSIGN and REPLACE")
PROPS["C28"] = Prop(
    H("c28.c", 2, other={0: ("added", "unchanged"), 1: ("added", "unchanged")}, par={0: 3, 1: 3}),
    bounds="8 descriptions (none, two comments, with and without contributor and other tags) with one free character, 4 date comments below the proof, 5 finished and unfinished proofs, 12 ways to save, 3 contributors, 2 nestings; then a second SAVE by another contributor in 3 ways")
PROPS["C29"] = Prop(
    H("c29.c", 6, valid="listed", other={4: ("listed", "unchanged")}, par={1: 2, 2: 2}),
    bounds="one reference with each of the 43 keywords in 4 cases; 7 identifiers (one with a free character), 5 noise words, 8 pages, 7 ends, 3 line breaks, at most 2 of them unusual at once; up to 5 references in 4 assertions in all selections of 1344 (and 324 with an extension that has its own bibliography); 10 texts that are no reference in 4 labels, two at once; 780 files of up to 4 lines")
PROPS["C30"] = Prop(
    H("c30.c", 6, valid="listed", other={4: ("listed", "unchanged")}, par={0: 2, 2: 2}),
    bounds="4 assertions with 6 dates each (today, tomorrow, month and year boundaries, none), limits 1-4 and 3 forms; all pairs of dates of 6 days in the same or adjacent months; up to 3 entries of 3 kinds and 4 dates in one description; two WRITEs with ERASE or 3 ways to save in between; 780 files of up to 4 lines; dates back to 1993 without limit; today is fixed")
PROPS["C31"] = Prop(
    H("c31.c", 4, valid="listed", other={3: ("refused",)}, par={0: 3, 1: 2, 2: 2}),
    bounds="1 to 5 assertions of 5 forms ($a of 3 kinds of labels, $p, with hypothesis, with mandatory or optional $d), lemmas, pages of 1 to 5 or 100, 4 forms of the command; 3 assertions after 0 to 2 headings each of the 4 levels, written in 2 ways, with and without text, pages of 1 to 3; 4 page sizes that are not positive")
PROPS["C32"] = Prop(
    H("c32.c", 4, valid="shorter", other={i: ("shorter", "same") for i in range(4)}, par={3: 4, 0: 3, 1: 2}),
    bounds="a theorem with one of 3 proofs of 3 logical steps, two theorems and up to 9 axioms and a lemma that can shorten it to 2 steps or 1 and depend on 4 sets of axioms; 5 patterns, 2 EXCEPT, 4 ALLOW_NEW_AXIOMS, 2 NO_NEW_AXIOMS_FROM, 5 FORBID lists and MAY_GROW, up to three of them; after the same or no other MINIMIZE_WITH; with variables and $d of the statement that is used and of the theorem")
PROPS["C33"] = Prop(
    H("c33.c", 4, valid="proved", other={i: ("proved", "unknown") for i in range(4)}, par={0: 3, 2: 2}),
    bounds="4 theorems with up to 2 hypotheses (one about syntax), each in turn with every proof of up to 2 steps that are not the hypothesis or an axiom (dummy variables, unknown steps, other theorems), a theorem with every proof of up to 2 such steps in depth 3; 6 patterns, two EXPANDs with UNDO or REDO")
