# -*- the properties; read by gen.py
GOLD = "The golden tests run about 30 fixed databases; "
prop("C01", "A normal-format proof verifies exactly when it derives its statement",
     "VERIFY PROOF reports an error for a theorem with a normal (uncompressed) proof if and only if the Metamath language rules do not derive the theorem's statement from the listed steps: stack discipline, typed substitution for floating hypotheses, exact match of essential hypotheses, only active hypotheses and earlier assertions, exactly one resulting expression equal to the statement. A proof containing '?' is reported as unproved and is never counted as verified.",
     ["inputs"], "all sequences of proof steps and all choices of math symbols in hypotheses and conclusions within the bounds",
     GOLD + "no fixed set of databases reaches the wrong proofs that a broken comparison would let through",
     ["src/mmveri.c", "src/mmpars.c", "src/mmcmds.c"],
     [("verifyProof", "src/mmveri.c"), ("assignVar", "src/mmveri.c"), ("parseProof", "src/mmpars.c"), ("verifyProofs", "src/mmcmds.c")],
     [("g_WrkProof", "parsed proof: steps, RPN stack, saved subproofs", "src/mmpars.c"), ("g_Statement", "the statements of the database", "src/mmdata.c")])
prop("C02", "Distinct variable conditions are enforced exactly",
     "VERIFY PROOF reports an error for a step whose substitution gives two variables under a $d condition expressions with a common variable, or with a pair of variables for which the theorem being proved has no active $d statement in its scope; it reports none when all such conditions are met.",
     ["inputs"], "all choices of $d pairs (outer scope, inner scope, axiom, theorem) and of the variables occurring in the substituted expressions within the bounds",
     GOLD + "three of them test one $d violation each",
     ["src/mmveri.c", "src/mmpars.c"], [("assignVar", "src/mmveri.c"), ("parseStatements", "src/mmpars.c")],
     [("reqDisjVarsA/B, optDisjVarsA/B", "$d pairs of an assertion's frame", "src/mmdata.h")])
prop("C03", "Compressed proofs decode exactly",
     "A compressed proof is accepted if and only if its label list and letters are well formed (labels known, active, not mandatory, not repeated; numbers in range; Z only after a step; no stray characters) and the decoded step sequence, with back references, derives the statement.",
     ["inputs"], "all letter sequences and label lists within the bounds",
     GOLD + "their compressed proofs are all well formed but for a few",
     ["src/mmpars.c", "src/mmveri.c"], [("parseCompressedProof", "src/mmpars.c"), ("verifyProof", "src/mmveri.c")])
prop("C04", "Block scoping determines each assertion's frame",
     "Within nested ${ $} blocks, an assertion's mandatory hypotheses are exactly the active $e statements and the active $f statements of variables occurring in the assertion or in active $e statements, in order of appearance; using the assertion in a later proof requires exactly those, and hypotheses of closed blocks are unusable.",
     ["inputs"], "all placements of hypotheses, variables and labels in the block templates",
     GOLD + "few have nested blocks with different frames",
     ["src/mmpars.c"], [("parseStatements", "src/mmpars.c"), ("parseKeywords", "src/mmpars.c")],
     [("reqHypList, optHypList", "frame of an assertion", "src/mmdata.h")])
prop("C05", "Ill-formed databases are reported, well-formed ones are not",
     "READ and VERIFY PROOF together report an error for a database that breaks a rule of the Metamath language (unknown or misplaced keywords, missing or duplicate labels, bad characters, undeclared, inactive or redeclared symbols, malformed $c $v $f $e $d, unbalanced blocks, unterminated statements or comments) and report none for a database that follows all of them.",
     ["inputs"], "all values of the free bytes (keyword letters, names, white space, comment delimiters, position of the end of the file) in the templates",
     GOLD + "a handful of them is ill formed",
     ["src/mmpars.c", "src/mmcmds.c"], [("parseKeywords", "src/mmpars.c"), ("parseLabels", "src/mmpars.c"), ("parseMathDecl", "src/mmpars.c"), ("parseStatements", "src/mmpars.c")])
prop("C06", "WRITE SOURCE reproduces the source; reformatting keeps its tokens",
     "WRITE SOURCE after READ writes exactly the characters of the source read (carriage returns turned into line ends, a last line without line end completed). With / FORMAT or / REWRAP only white space and comments change: the tokens outside comments, in order, stay the same, and comments stay terminated.",
     ["inputs"], "all choices of the free bytes (white space, line ends, comment delimiters and text) in the templates",
     "the golden tests rewrite a few well laid out databases",
     ["src/mmpars.c", "src/mmcmds.c", "src/mmdata.c"], [("outputStatement", "src/mmpars.c"), ("writeSourceToBuffer", "src/mmpars.c"), ("rewrapComment", "src/mmpars.c"), ("writeSource", "src/mmcmds.c")],
     [("labelSectionPtr, mathSectionPtr, proofSectionPtr", "slices of the source buffer", "src/mmdata.h")])
prop("C07", "File inclusion expands to the included text and can be undone",
     "Reading a file with $[ file $] inclusions yields the tokens of the files in place of their first inclusions; further inclusions of a file already included (the main file among them) count as white space; inclusions within comments are ignored; a missing file is reported and nothing is read. WRITE SOURCE / SPLIT restores the main file and every included file byte for byte, also when the source read was a merged file written by WRITE SOURCE before.",
     ["inputs", "histories"], "all include graphs over four files with two to four free inclusions, all choices of white space and of the other free bytes",
     "no golden test includes a file",
     ["src/mmpars.c", "src/mmcmds.c", "src/mminou.c"], [("readInclude", "src/mmpars.c"), ("getNextInclusion", "src/mmpars.c"), ("writeSplitSource", "src/mmpars.c"), ("deleteSplits", "src/mmpars.c")],
     [("g_IncludeCall", "where each included file starts in the source buffer", "src/mmdata.c")])
prop("C08", "Errors are reported with the right file and line",
     "An error that READ reports for a symbol names the file in which the symbol stands and its line in that file, whatever inclusions (first, repeated, nested, or Begin/End/Skip markup of a merged file) precede it.",
     ["inputs"], "all choices of line ends at the free places of the templates",
     "no golden test includes a file",
     ["src/mmpars.c"], [("getFileAndLineNum", "src/mmpars.c"), ("sourceError", "src/mmpars.c"), ("readInclude", "src/mmpars.c")],
     [("g_IncludeCall", "where each included file starts in the source buffer", "src/mmdata.c")])
prop("C09", "SAVE PROOF converts between proof formats without changing the proof",
     "SAVE PROOF with any format qualifier (normal, compressed, packed, explicit, fast, old compression) replaces a correct or unfinished proof by one that verifies and whose steps, with back references expanded and hypotheses in order, are the same; the source outside the proof and comments stays the same. Proofs read in packed format (local labels) and explicit format (target labels, hypotheses in any order) are accepted exactly when the proof they stand for is correct, and stray punctuation in a proof is reported without a crash.",
     ["inputs", "histories"], "all choices of the free steps, letters, labels and layout; all conversions",
     "the golden tests save a few proofs in compressed format",
     ["src/mmpars.c", "src/mmpfas.c", "src/mmcmds.c", "src/mmdata.c"], [("compressedProof", "src/mmpars.c"), ("nmbrSquishProof", "src/mmdata.c"), ("nmbrGetTargetHyp", "src/mmdata.c"), ("parseProof", "src/mmpars.c"), ("typeProof", "src/mmcmds.c")],
     [("g_WrkProof", "parsed proof", "src/mmpars.c")])
prop("C10", "The Proof Assistant announces and saves only correct proofs",
     "Whatever sequence of Proof Assistant commands (ASSIGN, IMPROVE, REPLACE, LET, UNIFY with user choices, INITIALIZE, DELETE, MINIMIZE_WITH, EXPAND, UNDO) leads to a proof without unknown steps, the proof verifies (except for $d conditions and for proofs it has warned about), its completion is announced, and SAVE NEW_PROOF changes nothing but the proof. MINIMIZE_WITH keeps a proof valid ($d conditions included) and uses no axioms beyond those allowed by its qualifiers; EXPAND keeps it valid or incomplete. Step numbers out of range are refused.",
     ["histories", "inputs"], "all command sequences from the menus and all free symbols",
     "tests of single scripts cannot cover the histories",
     ["src/mmpfas.c", "src/mmunif.c", "src/metamath.c"], [("assignStatement", "src/mmpfas.c"), ("proveFloating", "src/mmpfas.c"), ("replaceStatement", "src/mmpfas.c"), ("minimizeProof", "src/mmpfas.c"), ("expandProof", "src/mmpfas.c"), ("unify", "src/mmunif.c"), ("autoUnify", "src/mmpfas.c")],
     [("g_ProofInProgress", "proof, target, source and user strings of each step", "src/mmpfas.c")])
prop("C11", "UNDO and REDO restore the proof exactly",
     "In the Proof Assistant, UNDO restores the proof (steps, unification state and working variables, as SHOW NEW_PROOF / ALL displays them) before the last command that changed it, and REDO the one after it; as many commands can be undone as SET UNDO says and no more; a new command after UNDO ends the possibility to REDO.",
     ["histories"], "all histories within the bounds, compared with a stack model",
     "no test uses UNDO",
     ["src/mmpfas.c", "src/metamath.c"], [("processUndoStack", "src/mmpfas.c"), ("copyProofStruct", "src/mmpfas.c")],
     [("proofStack", "saved proofs with stackPtr and stackEnd", "src/mmpfas.c")])
prop("C12", "Label patterns select exactly the matching statements",
     "SHOW LABELS lists exactly the assertions (with / ALL: all labelled statements), each once with its number and type, whose labels match the pattern: * any characters, ? one character, from~to a range of the source, #n a statement number, @n the n-th assertion, = the statement last proved, % statements with changed proofs, commas alternatives.",
     ["inputs"], "all patterns within the bounds, compared with a reference matcher",
     "the golden tests have no such patterns",
     ["src/mmdata.c", "src/metamath.c", "src/mmvstr.c"], [("matches", "src/mmdata.c"), ("matchesList", "src/mmdata.c"), ("entry", "src/mmvstr.c")])
prop("C13", "SEARCH finds exactly the matching statements",
     "SEARCH lists exactly the statements whose formula contains the given tokens one after the other, $* standing for any number of tokens and $? for any one-character token (with / JOIN also across the hypotheses of an assertion), or with / COMMENTS those whose description contains the given text, ignoring case, line ends and repeated spaces.",
     ["inputs"], "all search strings within the bounds, compared with a reference matcher",
     "the golden tests do not use SEARCH",
     ["src/metamath.c", "src/mmdata.c", "src/mmvstr.c"], [("matches", "src/mmdata.c"), ("edit", "src/mmvstr.c")])
prop("C14", "The TOOLS commands do what their help says and keep the old file",
     "Each TOOLS command (ADD, TAG, DELETE, CLEAN, SUBSTITUTE, SWAP, INSERT, BREAK, BUILD, MATCH, SORT, UNDUPLICATE, DUPLICATE, UNIQUE, REVERSE, RIGHT, PARALLEL, NUMBER, COUNT, TYPE, COPY) turns its input lines into exactly the output lines its HELP text describes, whatever bytes they contain, loses no line, ends, and leaves the previous version of the output file under its name followed by ~1.",
     ["inputs"], "all files and arguments within the bounds, compared with reference implementations",
     "no test uses TOOLS",
     ["src/metamath.c", "src/mmvstr.c", "src/mmdata.c", "src/mminou.c"], [("command", "src/metamath.c"), ("edit", "src/mmvstr.c"), ("qsortStringCmp", "src/mmdata.c"), ("fSafeRename", "src/mminou.c")])
prop("C15", "Writing over an existing file never loses it",
     "Every command that writes a file (WRITE SOURCE, OPEN LOG, OPEN TEX, SHOW STATEMENT / HTML, WRITE BIBLIOGRAPHY, RECENT_ADDITIONS and THEOREM_LIST, the TOOLS commands) first renames an existing file to name~1 and the earlier versions up to the first gap to the next higher number, dropping at most name~9; all other versions stay as they are. At every point at which the program could be stopped, and when a file cannot be opened for writing (which is reported), all these contents are still there under some name. WRITE BIBLIOGRAPHY and RECENT_ADDITIONS put the file back if it lacks the expected markers.",
     ["inputs", "crash points", "faults"], "all histories of existing versions, all stop points between file system operations and all failing opens within the bounds",
     "no test has an existing output file",
     ["src/mminou.c", "src/metamath.c", "src/mmwtex.c", "src/mmcmds.c"], [("fSafeOpen", "src/mminou.c"), ("fSafeRename", "src/mminou.c"), ("writeBibliography", "src/mmwtex.c")])
prop("C16", "SHOW TRACE_BACK and SHOW USAGE follow the references in proofs exactly",
     "SHOW TRACE_BACK lists, in database order and once each, exactly the assertions that the proof of a theorem refers to, directly or through other proofs: with / ESSENTIAL only those reached through essential steps, with / AXIOMS only the axioms among them, with / MATCH only those with matching labels, with / TO only those on a chain of references from the given statement; and it names the traced theorems whose proofs are incomplete. SHOW USAGE lists exactly the later theorems whose proofs refer to a statement, with / RECURSIVE also those referring to it through others. The answers do not depend on the proof format, normal or compressed.",
     ["inputs"], "all graphs of references made of the listed proofs, within the bounds",
     "no test traces more than one database",
     ["src/mmcmds.c", "src/metamath.c"], [("traceProof", "src/mmcmds.c"), ("traceProofWork", "src/mmcmds.c"), ("traceUsage", "src/mmcmds.c")])
prop("C17", "SHOW PROOF displays the stored proof",
     "SHOW PROOF / ALL / LEMMON shows the steps of the proof in order, numbered from 1; each with its label, the numbers of exactly the steps that prove its hypotheses, and the formula that results from them by substitution; a step that repeats an earlier subproof (in a compressed proof) refers to it by number and shows the same formula. The other layouts show the same steps: / ESSENTIAL (the default) only the root and the steps reached through logical hypotheses, the indented tree the hypothesis each step proves and its depth, / FROM_STEP, / TO_STEP and / DEPTH only the steps in range, / REVERSE the reverse order, / RENUMBER new consecutive numbers, / NO_REPEATED_STEPS each step once with the references redirected.",
     ["inputs"], "all proofs built by the given choices, within the bounds",
     "the tests show a few proofs in one or two layouts",
     ["src/mmcmds.c", "src/metamath.c", "src/mmdata.c", "src/mmveri.c"], [("typeProof", "src/mmcmds.c"), ("nmbrGetIndentation", "src/mmdata.c"), ("nmbrGetEssential", "src/mmdata.c"), ("verifyProof", "src/mmveri.c")])
prop("C18", "SHOW STATEMENT displays exactly the frame of an assertion",
     "SHOW STATEMENT shows the essential hypotheses in order, the assertion, and distinct variable groups whose pairs are exactly its mandatory distinct variable conditions. With / FULL it shows the statement number, its place in the source, its number among the assertions, the comment that immediately precedes it as description, exactly the mandatory hypotheses in the order in which a proof must supply them, the mandatory distinct variable pairs, and exactly the variables of the statement and its hypotheses.",
     ["inputs"], "all databases of the templates, within the bounds",
     "the tests show a few statements",
     ["src/mmcmds.c", "src/mmpars.c"], [("typeStatement", "src/mmcmds.c"), ("parseStatements", "src/mmpars.c")])
prop("C19", "Sessions end with their input, and command files and logs are faithful",
     "Wherever its standard input ends - at a command, a question, a page of output, in the Proof Assistant, TOOLS or HELP - and whatever bytes a line holds, the program ends normally. SUBMIT has the same effect as typing the lines of the command file, whichever line ends the file has and with or without a last one; and a log file opened by OPEN LOG holds exactly what the screen shows together with the commands typed.",
     ["inputs", "histories"], "all ends of input, lines and command files within the bounds",
     "the tests run fixed scripts to their end",
     ["src/mminou.c", "src/metamath.c", "src/mmcmdl.c"], [("cmdInput", "src/mminou.c"), ("cmdInput1", "src/mminou.c"), ("print2", "src/mminou.c")])
prop("C20", "The screen width changes line breaks, never what is said or saved",
     "Whatever SET WIDTH says, commands show the same text apart from white space (with words of descriptions kept whole), a proof saved with SAVE PROOF in any format is valid and has the same steps, and WRITE SOURCE / REWRAP writes the same words, however long labels are and however far a statement is indented.",
     ["inputs"], "all widths, label lengths and indentations within the bounds",
     "all tests use the default width and short labels",
     ["src/mminou.c", "src/mmdata.c", "src/metamath.c", "src/mmcmds.c", "src/mmpars.c"], [("printLongLine", "src/mminou.c"), ("print2", "src/mminou.c"), ("compressProof", "src/mmdata.c"), ("rewrapComment", "src/mmpars.c")])
prop("C21", "Web pages and LaTeX show the formulas and descriptions of the database",
     "SHOW STATEMENT / HTML, / ALT_HTML and / TEX show the hypotheses and the assertion symbol by symbol as the htmldef, althtmldef or latexdef statements of the $t comment define them, and on a page the distinct variable groups give exactly the mandatory distinct variable conditions; the definitions are read with doubled quotes, strings joined by + and C-style comments as documented, and ill-formed definitions are reported and abort the output. The page of a theorem shows the steps of its proof with the numbers, references, labels and formulas that SHOW PROOF shows. Descriptions appear on ALT_HTML pages with their markup converted as documented in HELP MARKUP (labels and http links, math in backquotes, italics, subscripts, bibliography references, the doubled characters, <, > and quotes as entities), and no description, however malformed, keeps the page with its formulas from being written.",
     ["inputs"], "all definitions, descriptions, formulas and proofs within the bounds",
     "the tests write one page",
     ["src/mmwtex.c", "src/mmcmds.c", "src/metamath.c"], [("readTexDefs", "src/mmwtex.c"), ("tokenToTex", "src/mmwtex.c"), ("printTexComment", "src/mmwtex.c"), ("printTexLongMath", "src/mmwtex.c"), ("getTexLongMath", "src/mmwtex.c"), ("typeProof", "src/mmcmds.c")])
prop("C22", "WRITE SOURCE / EXTRACT writes exactly the statements that are needed",
     "The file written by WRITE SOURCE / EXTRACT is a valid database, whose proofs verify, for every selection of labels and every valid database, wherever the first statement starts. It contains, in database order, exactly the selected assertions and the assertions that their proofs refer to, directly or through other proofs, unchanged: formula, kind, mandatory hypotheses and distinct variable conditions, and proof; all symbols of the database stay declared. It keeps the typesetting definitions, exactly the headings of the sections that contain extracted statements, and descriptions except that a link to a statement that is not extracted becomes an external link. Extracting the same labels again changes nothing.",
     ["inputs"], "all databases made of the listed parts, within the bounds",
     "the tests extract nothing",
     ["src/mmcmds.c", "src/mmdata.c"], [("writeExtractedSource", "src/mmcmds.c"), ("fixUndefinedLabels", "src/mmcmds.c"), ("getDescriptionAndLabel", "src/mmdata.c")])

prop("C23", "ERASE starts afresh and commands that only show things change nothing",
     "After ERASE and READ every command (VERIFY, SHOW, SEARCH, SAVE PROOF, WRITE SOURCE, PROVE, the web page, LaTeX and theorem list commands) says and writes the same as in a fresh session, whatever commands were given on another database before. Commands that only show, check or write things (SHOW, SEARCH, VERIFY, HELP, WRITE) do not change what later commands say or write.",
     ["histories"], "all histories within the bounds, compared with a fresh session",
     "no test uses ERASE or a second database",
     ["src/metamath.c", "src/mmcmds.c", "src/mmpars.c", "src/mmwtex.c", "src/mmdata.c"], [("eraseSource", "src/mmcmds.c"), ("eraseTexDefs", "src/mmwtex.c"), ("initBigArrays", "src/mmdata.c"), ("proveStatement", "src/metamath.c")])
prop("C24", "What WRITE SOURCE writes is what the session shows",
     "After commands that change the source (SAVE PROOF, SAVE NEW_PROOF after ASSIGN, MINIMIZE_WITH and the other Proof Assistant commands, WRITE SOURCE / REWRAP or / FORMAT), the database in memory is the one WRITE SOURCE writes: every command says and writes the same, line numbers apart, as in a fresh session that reads the written file.",
     ["histories"], "all histories within the bounds, compared with a fresh session reading the written file",
     "no test writes a changed database",
     ["src/metamath.c", "src/mmpars.c", "src/mmcmds.c", "src/mmpfas.c", "src/mmwtex.c"], [("outputSource", "src/mmpars.c"), ("outputStatement", "src/mmpars.c"), ("rewrapComment", "src/mmpars.c"), ("getSourceIndentation", "src/mmcmds.c"), ("getSectionHeadings", "src/mmwtex.c")])
prop("C25", "Commands may be abbreviated, spaced, quoted and asked for word by word",
     "A command line means the same whether its keywords are written in upper or lower case, in quotes or without, with any blanks between the words (none around / and =), or abbreviated to any beginning that fits only one of the possibilities the program lists; a beginning that fits several is reported as ambiguous with exactly these. Missing words and arguments are asked for one after the other, and answering them has the effect of the full command.",
     ["inputs"], "all abbreviations, cases, ways of spacing and quoting, and missing words of the listed commands",
     "the tests use a few fixed command lines",
     ["src/mmcmdl.c", "src/metamath.c"], [("processCommandLine", "src/mmcmdl.c"), ("getFullArg", "src/mmcmdl.c"), ("parseCommandLine", "src/mmcmdl.c")])
prop("C26", "VERIFY MARKUP warns exactly when a convention is broken",
     "VERIFY MARKUP * prints a warning, naming the statement or symbol, if one of the following conventions is broken, and \"No errors were found.\" if none is. Dates (not with / DATE_SKIP; not for $a other than ax-*, df-*): the description of an assertion has exactly one \"(Contributed by NAME, DATE.)\", not after a \"(Revised by NAME, DATE.)\" or \"(Proof shortened by NAME, DATE.)\"; every such entry is well formed, however it is broken into lines (a NAME without comma, a DATE like 5-Aug-1993 whose day and month exist); the last revision and the last shortening are later than the contribution and in order. With / TOP_DATE_CHECK the first comment has \"Version of DATE\", an existing date, not older than the newest date of a description (unless / DATE_SKIP). axNAME has the same assertion, hypotheses and $d as ax-NAME. No label has an underscore (unless / UNDERSCORE_SKIP); an assertion's is not a device name of Windows (CON, LPT1...) nor begins with mm in any case; a $a |- begins with ax- or df-; *OLD and *ALT have the discouragement of use and, for $p, of proof modification; a $a has not the latter. No symbol has an @ or a ?; no line has a tab, ends in a blank, or is longer than 79. Every symbol has exactly one latexdef, htmldef and althtmldef, and these are for symbols that exist. Labels after ~ in descriptions are assertions, symbols in backquotes have definitions, and a bibliographic reference says what and on which page. A proof in a mathbox refers to no earlier mathbox (unless / MATHBOX_SKIP).",
     ["inputs"], "all databases within the bounds, compared with an independent statement of the conventions",
     "the tests do not run VERIFY MARKUP on broken conventions",
     ["src/mmcmds.c", "src/mmdata.c", "src/mmwtex.c"], [("verifyMarkup", "src/mmcmds.c"), ("getContrib", "src/mmdata.c"), ("parseDate", "src/mmdata.c"), ("getMarkupFlag", "src/mmdata.c"), ("readTexDefs", "src/mmwtex.c"), ("printTexComment", "src/mmwtex.c"), ("getMathboxLoc", "src/mmwtex.c")])
prop("C27", "Discouraged statements and other mathboxes are not used unless asked for",
     "In the Proof Assistant, with SET DISCOURAGEMENT ON (the default) and without / OVERRIDE: ASSIGN and REPLACE with a statement whose description contains \"(New usage is discouraged.)\" are refused with a message and leave the proof as it is; IMPROVE and MINIMIZE_WITH do exactly what they do in the database without these statements. With / OVERRIDE, or with SET DISCOURAGEMENT OFF, these commands do exactly what they do without the tags, and print a warning if a discouraged statement is used. PROVE and SAVE NEW_PROOF for a theorem with \"(Proof modification is discouraged.)\" are refused, the source unchanged, unless overridden in the same ways (then with a warning). The tags count however they are broken into lines. SHOW DISCOURAGED lists exactly the statements with these tags, with the number of proof steps, the number of statements using each and their labels. IMPROVE and MINIMIZE_WITH use statements of an earlier \"Mathbox for ...\" than the one of the theorem only with / INCLUDE_MATHBOXES, otherwise they do what they do without these statements. ASSIGN says that a statement is in another mathbox if it is. Apart from this, mathbox headings and the label \"mathbox\" make no difference.",
     ["inputs", "histories"], "all unfinished proofs, tags, places and commands within the bounds",
     "a statement that is wrongly used or skipped shows only in a database where it happens to fit; the tests have no discouraged statements",
     ["src/metamath.c", "src/mmpfas.c", "src/mmdata.c", "src/mmcmds.c", "src/mmwtex.c"], [("getMarkupFlag", "src/mmdata.c"), ("proveByReplacement", "src/mmpfas.c"), ("proveFloating", "src/mmpfas.c"), ("minimizeProof", "src/mmpfas.c"), ("showDiscouraged", "src/mmcmds.c"), ("assignMathboxInfo", "src/mmwtex.c"), ("command", "src/metamath.c")])
prop("C28", "Saving a finished proof names the contributor once",
     "SAVE PROOF and SAVE NEW_PROOF, in any format, add \" (Contributed by NAME, DATE.)\" at the end of the description (the last comment before the label) if the proof has no unknown step, there is a description and it has no such entry yet. NAME is what SET CONTRIBUTOR said last (?who? by default); DATE is today, or the date below the proof if there is a comment \"$( [5-Nov-1999] $)\" there; with two such dates the second is used, and \"(Revised by ?who?, FIRST.)\" is added too. Otherwise, and when saved again, the description stays as it is, up to white space. Descriptions of other statements, and comments before the description, are not changed.",
     ["inputs", "histories"], "all descriptions, proofs, dates and ways to save within the bounds",
     "the tests save no proof",
     ["src/metamath.c", "src/mmdata.c"], [("command", "src/metamath.c"), ("getContrib", "src/mmdata.c"), ("getProofDate", "src/mmdata.c")])
prop("C29", "WRITE BIBLIOGRAPHY lists exactly the references in the descriptions",
     "A reference is, in the description of an assertion, a keyword of HELP WRITE BIBLIOGRAPHY in upper or lower case, anything (an identifier, a noise word such as \"of\"), [Author], \" p. \" and a page (any alphanumeric string), with white space and line ends free. WRITE BIBLIOGRAPHY puts one table row for each different reference between the first line \"<!-- #START# -->\" and the next \"<!-- #END# -->\": author with a link to the page of htmlbibliography (exthtmlbibliography from exthtmllabel on), page, the text before the noise word with a capital, and links with the numbers of all assertions that have it; sorted by author, page and text, labels sorted too. Text in math or with [[, with a blank after [, comments of other statements and of labels with OLD or NEW are not listed; a missing keyword or page gives a warning. The other lines stay as they are (but the date of a line \"This page was last updated on\" below), a file without the two lines is not changed, and the old file is kept as ~1.",
     ["inputs"], "all references, selections and files within the bounds",
     "the tests write no bibliography",
     ["src/mmwtex.c"], [("writeBibliography", "src/mmwtex.c")])
prop("C30", "WRITE RECENT_ADDITIONS lists exactly the latest assertions",
     "WRITE RECENT_ADDITIONS puts, between the first line \"<!-- #START# -->\" and the next \"<!-- #END# -->\", the LIMIT (default 100) latest assertions by date, from today back to 1993, the latest first and of one day the last in the database first; those without a date are not listed. The date is the most recent of the first \"(Contributed by WHO, DATE.)\", the last \"(Revised by\" and the last \"(Proof shortened by\" entry of the description as it is now, also after SAVE PROOF, SAVE NEW_PROOF and ERASE. Each row has the date, a link to the page, the number of the assertion, its description, hypotheses and formula. The other lines stay as they are, but today's date is put after \"<!-- last updated -->\" above and into a line \"This page was last updated on\" below; a file without the two lines is not changed, and the old file is kept as ~1.",
     ["inputs", "histories"], "all dates, entries, limits, histories and files within the bounds",
     "the tests write no such file",
     ["src/metamath.c", "src/mmdata.c"], [("command", "src/metamath.c"), ("getContrib", "src/mmdata.c"), ("compareDates", "src/mmdata.c"), ("parseDate", "src/mmdata.c"), ("pinkHTML", "src/mmwtex.c"), ("getTexOrHtmlHypAndAssertion", "src/mmwtex.c")])
prop("C31", "WRITE THEOREM_LIST lists every assertion once, under its headings",
     "WRITE THEOREM_LIST / THEOREMS_PER_PAGE n (100 by default) writes mmtheorems.html with the contents and as many pages mmtheorems1.html... as are needed for n assertions each, with each $a and $p once in the order of the database: its type (Axiom for ax-, Definition for df-, Syntax, Theorem), link, number, a star if it has distinct variable conditions, description, hypotheses and formula (not for \"Lemma for\" without / SHOW_LEMMAS). Above an assertion stand the headings between it and the assertion before, largest first: the last of each of the 4 levels, but none that is followed by a larger one; they are numbered PART 1, 1.1, 1.1.1, 1.1.1.1 and shown with their text. The summary has the parts and sections, the detailed contents all headings with links to the page and place where they are, a star if there is text, and for smaller ones the assertion. Every page has links to all pages with the numbers of their first and last assertion, and to the previous and next page in a circle. A number of theorems per page below 1 is refused.",
     ["inputs"], "all databases, headings and page sizes within the bounds",
     "the tests write no theorem list",
     ["src/mmwtex.c", "src/metamath.c"], [("writeTheoremList", "src/mmwtex.c"), ("getSectionHeadings", "src/mmwtex.c"), ("pinkHTML", "src/mmwtex.c"), ("getTexOrHtmlHypAndAssertion", "src/mmwtex.c"), ("command", "src/metamath.c")])
prop("C32", "MINIMIZE_WITH uses exactly the statements it may use",
     "MINIMIZE_WITH pattern tries the earlier $a and $p statements that match the pattern, but uses none that matches / EXCEPT or / FORBID or whose proof depends, directly or through other theorems, on a statement that matches / FORBID; none that is or depends on an axiom that the proof of the theorem did not depend on before, unless that axiom matches / ALLOW_NEW_AXIOMS and not / NO_NEW_AXIOMS_FROM; and none whose distinct variable conditions the theorem does not have. Among the statements that may be used it finds one that makes the proof shortest; without one the proof does not change (with / MAY_GROW too). The proof that results can be saved and verifies.",
     ["inputs"], "all proofs, dependences, patterns and qualifiers within the bounds",
     "a statement that is wrongly used still gives a correct proof, so that only the axioms below it show the error",
     ["src/metamath.c", "src/mmpfas.c", "src/mmcmds.c"], [("command", "src/metamath.c"), ("minimizeProof", "src/mmpfas.c"), ("traceProofWork", "src/mmcmds.c"), ("traceProof", "src/mmcmds.c"), ("matchesList", "src/mmdata.c")])
prop("C33", "EXPAND replaces every use of a theorem by its proof",
     "EXPAND pattern in the Proof Assistant replaces every use of a $p before the theorem whose label matches the pattern, from the latest to the earliest $p, by the proof of that $p with the proofs of its mandatory hypotheses in place of the hypotheses (as often as they are used); a use inside the proof of a hypothesis and one that comes with another expanded theorem are replaced too. A $f of the $p that is not mandatory and an unknown step become an unknown step. $a and other $p stay. When no step is replaced it says \"No expansion occurred\" and the proof stays. An EXPAND that changes the proof is one step for UNDO and REDO. The proof can be saved, and without unknown steps it verifies.",
     ["inputs", "histories"], "all proofs of theorems and lemmas, patterns and histories within the bounds",
     "the tests do not use EXPAND, and the order of nested replacements shows only in some proofs",
     ["src/mmpfas.c", "src/metamath.c"], [("expandProof", "src/mmpfas.c"), ("subproofLen", "src/mmpfas.c"), ("initProofStruct", "src/mmpfas.c"), ("command", "src/metamath.c"), ("matchesList", "src/mmdata.c")])
