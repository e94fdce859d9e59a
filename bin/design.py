import re
d=open('/verif/DESIGN.md').read()
d=d[:min(d.index(x) for x in ('## Known findings and repairs','Memory errors, crashes, internal') if x in d)]
d+='''Memory errors, crashes, internal `?BUG` stops of the program and loops without
end are violations in every harness of every property, within its bounds.

Tiers: `quick` is what the exploration bounds in `bin/jobs.py` say, exhaustively;
`thorough` is the same command with longer time limits and, where the harness
has them, larger bounds (C15). All explorations of `quick` are complete within
their bounds: nothing is cut off by time (a cut-off is exit 2).

## What decides each property

For all: functions encoded = all of `src/*.c` reached from `main` by the
commands given; the oracle is independent of the code under test. "txk" below
is the way a harness leaves characters of its input free: a choice of a
symbolic byte out of a stated alphabet, or any byte.

* **C01** free proof steps, free formulas (bounds in jobs.py); oracle: the
  stack machine of `refmm.h`. VERIFY PROOF reports an error iff refmm does.
* **C02** free $d groups at every scope, free proof, against refmm's $d check.
* **C03** free letters, label lists and Z's of a compressed proof; oracle:
  refmm's decoder.
* **C04** free block structure and hypotheses, oracle: refmm's frames; the proof
  uses them.
* **C05** free bytes and free tokens at many places of a small database, and
  twelve templates; error reported iff refmm rejects.
* **C06** WRITE SOURCE on arbitrary bytes: byte equality; / FORMAT and / REWRAP:
  token equality and comments terminated.
* **C07** free inclusion structures over three files, SPLIT and merged files
  read back; oracle: an independent expander in the harness.
* **C08** the same structures with an error planted in a free place; oracle:
  positions counted in the files.
* **C09** the proofs of all choices of `gen.h` (sets of databases with free
  proofs) are converted by all qualifiers and read back; refmm checks the
  result, the expanded steps are compared. Free bytes in packed / explicit
  proofs are decided against refmm, which implements these formats too.
* **C10** free sequences of Proof Assistant commands with free arguments; when
  the program announces a complete proof, refmm verifies the database saved.
* **C11** free sequences of commands with UNDO, REDO; SHOW NEW_PROOF / ALL
  before and after is compared with a stack of snapshots kept by the harness.
* **C12, C13** free patterns against free label sets/formulas; oracle: a
  recursive matcher in the harness.
* **C14** every TOOLS command on lines with free bytes and free arguments;
  oracle: a reimplementation from the HELP text.
* **C15** the file system model records every rename, remove, create; after
  every single operation (= every crash point) the harness checks that all old
  contents still exist; free sets of existing versions; failures of fopen.
* **C16** all citation graphs of a set of databases; oracle: closure over
  refmm's decoded proofs.
* **C17** all proofs of `gen.h`; oracle: steps recomputed by refmm.
* **C18** free frames and $d; oracle: refmm's frames.
* **C19** every prefix of free command scripts as standard input; SUBMIT
  against typing; log against screen.
* **C20** the same commands at a width that is a symbolic choice and at width
  79; words of both outputs compared, saved proofs verified by refmm.
* **C21** free definitions, descriptions, formulas, proofs, $d groups, undefined
  symbols; the expected page text is computed in the harness.
* **C22** all selections of labels from databases with free features; the
  extract is read by refmm and compared statement by statement.
* **C23, C24** two runs of the same free commands (after a free history/in a
  fresh session; in the session that changed the source/in one that reads the
  file written), outputs and files compared.
* **C25** 67 commands written in free variations; the effect must be the same.
* **C26** databases in which conventions are kept or broken by free characters
  and choices; the harness states each convention and compares the verdict.
* **C27** the same session on the database with the discouraged statements (or
  the other mathboxes), without their tags, and without these statements; the
  proofs shown must be the same.
* **C28** the description that must come out is computed in the harness.
* **C29** the rows of the table are computed from the list of references that
  the harness wrote into the database.
* **C30** the rows are computed from the dates that the harness wrote into the
  descriptions and from today's date, which the runtime fixes.
* **C31** the harness keeps the assertions and headings it wrote and computes
  the text (with links and anchors) of every page.
* **C32** the harness knows on which axioms every statement it wrote depends and
  computes which ones may be used and how short the proof becomes.
* **C33** the harness builds the proofs as trees, substitutes in the trees and
  compares the proof that is saved, label by label.
'''
extra='/verif/design_extra.md'
import os
if os.path.exists(extra): d+=open(extra).read()
d+='''
## Where the statements stop (corrected false alarms)

Checks that first reported something which turned out to be legitimate
behaviour; the property or the oracle was corrected:

* C08: positions of errors inside comments are not claimed.
* C09/C10: SAVE PROOF and SAVE NEW_PROOF add "(Contributed by ...)"; comments
  are compared without it. An explicit target of the last step is not checked
  by the program and not claimed. Repeated error lines count once.
* C10: warnings about incomplete proofs used in a proof are allowed; only the
  warned-about proofs are exempt.
* C11: a command without visible effect may still be an entry to undo.
* C13: SEARCH / COMMENTS removes line ends; `$?` is exactly one character.
* C14: CLEAN G discards LF, CLEAN T also final blanks, overlapping DELETE marks,
  SUBSTITUTE of nothing and UPDATE are outside the bounds.
* C16: COUNT_STEPS is not claimed. C17: formulas of '?' steps and wrapped lines
  are not claimed. C18: the line between label and keyword is accepted.
* C19: lines with a NUL, the DBG command and the wrapped echo of SUBMIT prompts
  are excluded; empty lines at a prompt are not logged.
* C20: separator lines of dashes, SHOW SETTINGS, the abbreviation of comments in
  SEARCH, comments with <HTML>, REWRAP's "PLEASE PUT DESCRIPTION HERE".
* C21: <HTML> blocks and LaTeX descriptions are not claimed; an ill-formed $t
  leaves a stub page; thin spaces are ignored; `&` stays as it is.
* C22: links written `~label` without a space are not covered.
* C23: TeX output after HTML in one session (the program refuses it); PROVE sets `=`.
* C24: line numbers refer to the file read.
* C26: which conventions are meant follows HELP VERIFY MARKUP and the messages; the
  form of the version date and unknown tags are outside the statement.
* C28: blanks and line ends around the entry are not compared.
* C31: the head of a page, the colour key, colours and white space are not
  compared; that "-.-." and "=-=-" share an anchor is accepted.
* C30: tags other than links, colours and white space are not compared.
* C29: the colours of statement numbers, white space in the table and the value
  of today's date are not compared.
* C25: a single possibility is not asked for; MATCH ALL asks further questions.
* All: vertical tab counts as white space in the program, not in the language;
  it is outside the alphabets. '$' inside a `$=` comment etc. as in the spec.

## Known findings and repairs

`known-findings.json`. Findings that are recorded and not repaired:

* `summary-after-dv-or-result-error` (C01-C04): "All proofs in the database were
  verified" is printed in a run that reported an error of this kind. VERIFY PROOF
  still reports the error itself. (Not repaired: the expected output of existing
  tests, e.g. disjoint1, contains it.)
* `number-after-link` (C21): expected output of the golden test `underscores`
  contains it, so that it cannot be repaired with the tests unedited.

All others are repaired by "fix:" commits in /repo, listed in the same file.

## Planted bugs

`seeded/`. Each was written from a property's text and the code, then checked.
"after" = missed at first, caught after the check was strengthened.

SEEDTABLE
Beyond these, `mut.py`-style mutation runs (one operator, constant or condition
changed, mutants that survive the tests) were used on proofs, scoping, lexing,
the Proof Assistant, UNDO, the label matcher and the writer of extracts, and
the checks were strengthened by the survivors that break a property.

## Not applicable / not covered

The technique executes the real code, so there is no part of the program that
it cannot encode in principle; what is out of reach is size: databases beyond
some dozens of statements (performance promises, the set.mm scale, fixed limits
such as 4-digit page numbers), resource exhaustion (malloc failure), and
timing. Nothing listed in properties.jsonl is left without a check.
'''
import json,glob
after=set("C14-1 C16-1 C19-1 C21-1 C22-1 C23-1 C25-1".split())|set(open('/verif/seeds_after.txt').read().split() if os.path.exists('/verif/seeds_after.txt') else [])
missed=set(open('/verif/seeds_missed.txt').read().split() if os.path.exists('/verif/seeds_missed.txt') else [])
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    rows.append('* %s: %s: %s'%(i,re.sub(r'\s+',' ',m['what_it_breaks']),'missed' if i in missed else 'caught by '+m['property']+(' (after)' if i in after else '')))
d=d.replace('SEEDTABLE','\n'.join(rows)+'\n')
open('/verif/DESIGN.md','w').write(d)
