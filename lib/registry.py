"""Which analyses decide which property."""
import attach
import conserve
import contracts
import docs
import exprs
import io_check
import lexprim
import plain
import tokens
import words
import patch
import styles
import includes

COMMON = [
    "clang 18's lowering of the sources is faithful; the sources analysed are those the Makefile links into knfmt",
    "a branch is pruned only on facts recorded earlier on the same path; integers do not wrap",
]

CHECKS = {}


def check(prop, technique, explanation, rules, level="other", assumptions=()):
    def deco(f):
        CHECKS[prop] = dict(run=f, technique=technique, explanation=explanation, rules=rules,
                            level=level, assumptions=list(assumptions))
        return f
    return deco


IO_EXPL = ("Property simulation: every path of main() and of the helpers it reaches down to the "
           "system calls is walked over the LLVM IR with an automaton of the file system calls "
           "(each call branches into its success and failure outcome); loops are iterated to a "
           "fixpoint. ")
IO_ASSUME = ["system calls behave as POSIX says; writes to different streams are not interleaved by other processes"]


def io(prog, res, prop):
    res.stop_on = prop
    io_check.run(prog, res)
    res.stop_on = None
    for k, n in (("events_rename", 1), ("events_write", 3), ("events_open", 1), ("events_mkstemp", 2),
                 ("events_fork", 1), ("events_parser_exec", 1)):
        res.floor(k, res.cov.get(k, 0), n)


@check("P01", "path-sensitive typestate analysis of file system calls",
       IO_EXPL + "In addition the function that builds the template of the temporary file is shown to keep the directory of the path.",
       ["user files are opened read-only", "only a temporary file into which every byte of the output was "
        "written is renamed, and only onto the path of the file being edited", "nothing but temporary files "
        "is unlinked, no other call that alters files is reachable",
        "the template is the directory of the path followed by a name without slash ending in XXXXXX"],
       assumptions=IO_ASSUME)
def p01(prog, res, tier):
    io(prog, res, "P01")
    contracts.tmptemplate(prog, res, "P01")


@check("P02", "path-sensitive typestate analysis of temporary files", IO_EXPL,
       ["on every path each temporary file created is renamed over the original or unlinked before the next "
        "file is opened and before the process ends"], assumptions=IO_ASSUME)
def p02(prog, res, tier):
    io(prog, res, "P02")


@check("P03", "path-sensitive dataflow from fstat results to fchmod and fchown", IO_EXPL,
       ["at every rename, mode, owner and group of the temporary file were compared equal to, or set to, those "
        "fstat reported for the descriptor of the original; owner before mode"], assumptions=IO_ASSUME)
def p03(prog, res, tier):
    io(prog, res, "P03")


@check("P04", "typestate analysis of read, tokenize, parse, output",
       IO_EXPL + "The functions that tokenize and that drive the parser are analysed with automata of their own.",
       ["output (standard output, temporary file, diff) only after the same file was read, tokenized and parsed "
        "successfully", "buffers are empty when the next file is read into them",
        "parsing succeeds only at end of file with every error recovered, output is produced only then",
        "tokenizing succeeds only at end of file, every token read is kept"], assumptions=IO_ASSUME)
def p04(prog, res, tier):
    io(prog, res, "P04")
    contracts.parser_exec(prog, res, "P04")
    contracts.lexer_tokenize(prog, res, "P04")


@check("P05", "path-sensitive propagation of failures to the exit status", IO_EXPL,
       ["on every path a failed open, read, tokenize, parse, write, rename, fork, style or patch error and every "
        "diff reported lead to a non-zero exit status; otherwise the status is zero"], assumptions=IO_ASSUME)
def p05(prog, res, tier):
    io(prog, res, "P05")


@check("P06", "path-sensitive must-precede analysis of the comparison",
       IO_EXPL + "The comparison itself is analysed against its contract.",
       ["a temporary file, a rename or a diff is reached only on the unequal outcome of comparing input and output",
        "the comparison returns zero exactly for equal lengths and equal bytes"], assumptions=IO_ASSUME)
def p06(prog, res, tier):
    io(prog, res, "P06")
    contracts.buffer_cmp(prog, res, "P06")


@check("P07", "affine dataflow over read and write loops",
       IO_EXPL + "Byte counts of the write loops are tracked as affine terms over a ghost counter; the read loop is "
       "analysed as a contract of its own.",
       ["each further write starts where the previous one ended and covers exactly the rest",
        "the loop ends only when nothing is left or on error",
        "rename, diff and a successful end of the file require the complete output",
        "read appends at the end of the data, asks for the free room, adds exactly the bytes returned and "
        "succeeds only at end of file"], assumptions=IO_ASSUME)
def p07(prog, res, tier):
    io(prog, res, "P07")
    contracts.buffer_read(prog, res, "P07")
    contracts.buffer_reserve(prog, res, "P07")


@check("P08", "path-sensitive analysis of option tests guarding effects", IO_EXPL +
       "The option loop is analysed once per option letter.",
       ["files are replaced only with -i and without -d, diff is spawned only with -d, output goes to standard "
        "output only with neither", "each option letter sets its own flag and nothing else"], assumptions=IO_ASSUME)
def p08(prog, res, tier):
    io(prog, res, "P08")
    contracts.options(prog, res, "P08")


TOK_EXPL = ("Path-sensitive dataflow over the LLVM IR of every function concerned, loops iterated to a fixpoint, helpers "
            "followed into. ")


@check("P11", "path-sensitive typestate (pairing) analysis of look-ahead regions, contracts of the stream operations",
       TOK_EXPL + "Every function that starts or ends a look-ahead region or a suspension of simplifications is walked; the "
       "operations of the token stream are analysed against their contracts with taking a token as the only primitive.",
       ["every look-ahead is ended exactly once on every path, innermost first, with the position saved when it was started",
        "starting saves and ending restores every word of the position",
        "lexer_peek* leave the position alone; lexer_if* consume exactly when they report a match",
        "an error met while looking ahead is not reported",
        "simplifications suspended for a look-ahead are resumed as they were on every path"])
def p11(prog, res, tier):
    tokens.p11(prog, res, "P11")


@check("P12", "path-sensitive ownership analysis of tokens taken from the stream",
       TOK_EXPL + "A token taken is owned by the function that took it until it is emitted or removed; ownership follows "
       "arguments into helpers. Calls made only inside look-ahead regions are found first and exempted.",
       ["on every path on which no error is reported each token taken is emitted or removed",
        "a token emitted was taken before and was not emitted or removed already",
        "semicolons directly before an emitted semicolon may be dropped"])
def p12(prog, res, tier):
    conserve.conservation(prog, res, "P12")


@check("P13", "abstract interpretation of the expression tree: fields emitted per node kind, ownership of tokens and operands",
       TOK_EXPL + "For each kind of node the function that emits expressions is walked once with the kind fixed, which "
       "yields the fields it emits; then every function that builds nodes is walked and each token taken and each operand "
       "obtained must end up in exactly one emitted field of the resulting tree.",
       ["no field is emitted twice", "each token and operand obtained while parsing an expression is kept in exactly one "
        "field that is emitted on every path on which it is set, or the expression is rejected",
        "only the parentheses around a whole expression may be left out, when the simplification is enabled"])
def p13(prog, res, tier):
    exprs.p13(prog, res, "P13")


@check("P14", "path-sensitive analysis of rendering per kind of document node, contracts of the buffer operations",
       TOK_EXPL + "The function that renders documents is walked once for every kind of node with the kind fixed, muted and "
       "unmuted; rendering a child is an event. Saving and restoring the output restores the events. Construction of "
       "nodes, indentation and the buffer operations are analysed against contracts.",
       ["every child is rendered exactly once, lists in order up to their end", "the text of a node is printed in full "
        "exactly once unless muted; only a lone blank or newline may be folded into a pending line break",
        "besides texts nothing but blanks is printed, nothing but trailing blanks and repeated newlines is removed",
        "layouts tried and rejected are undone before the next is tried", "muting is counted and changed by mute nodes only",
        "a node built is of the kind asked for, carries the text of its token and is added at the end of its parent"],
       assumptions=["tracing (-vv) is off and no patch is given (st_flags is zero)"])
def p14(prog, res, tier):
    docs.p14(prog, res, "P14")


@check("P15", "path-sensitive ownership analysis of elements of token lists, typestate analysis of emission",
       TOK_EXPL + "The program is analysed in a view in which every list operation is a call. Elements created or taken out "
       "of a list are owned until they are put into another one. The function emitting a token is walked with an automaton "
       "of what hangs off the token; branches that are removed are delimited by symbolic positions.",
       ["emitting a token emits all before it in order, the token once, all after it in order",
        "comments and directives read are appended, and hang off the token read next or before",
        "what is taken out of a list is put into another one; a token leaves the stream only after what hangs off it was moved "
        "to a neighbour", "removing a branch erases only what lies inside it; when folded a directive covering its text stands "
        "for it and what precedes it is kept", "include guards are dropped only if there are new ones",
        "only white space is marked as not to be emitted"])
def p15(prog, res, tier):
    attach.p15(res, "P15")


LEX_EXPL = (TOK_EXPL + "The function reading one token and everything it uses are walked over an abstract source: positions and "
            "bytes are symbols, a byte is known by the set of values it may have, what was read leads an automaton of the "
            "tokens of C. The primitives of lexer.c are used by contract and analysed against it. ")


@check("P17", "path-sensitive dataflow over symbolic source positions, contracts of the reading primitives",
       LEX_EXPL,
       ["the text of a token handed out starts where the one before ended, or where only blanks lie in between, and ends at the "
        "position reached (text-lost, other-text)", "the end of the source is reported only when it is reached (early-end)",
        "a token that is not emitted covers nothing but white space (text-as-space)",
        "reading a byte moves by one byte and delivers that byte, going back undoes it, the text of a token is the one between "
        "the positions (primitive)"],
       assumptions=["KS_str_match() of libks returns the length of the longest prefix made of the bytes asked for",
                    "the source holds no '\\0' followed by text where the end of the source is expected"])
def p17(prog, res, tier):
    lexprim.lexical(prog, res, "P17")


@check("P18", "path-sensitive dataflow over symbolic source positions, automaton of the tokens of C",
       LEX_EXPL,
       ["a token handed out is a complete token of C and no longer token starts there (token-cut)",
        "comments, directives, strings, literals, identifiers, keywords and operators are handed out as such (wrong-kind)",
        "the text of a token is the one consumed (other-text)",
        "every operator of C is in the table of keywords with its length (table)"],
       assumptions=["KS_str_match() of libks returns the length of the longest prefix made of the bytes asked for",
                    "text not valid in C (stray bytes, trigraphs, digraphs, line continuations inside of tokens) is not judged"])
def p18(prog, res, tier):
    lexprim.lexical(prog, res, "P18")


@check("P16", "interprocedural effect analysis under the assumption that simplifications are off, contracts of simple.c",
       TOK_EXPL + "Functions are walked with every question whether a simplification is on answered by no; operations that "
       "change tokens and are still feasible are propagated to the callers. The switch is followed from the option to the "
       "answer.",
       ["insertion, removal, move, copy and rewording of tokens, changes of the lists hanging off them and emission of text "
        "that is not a token are infeasible, other than removal of a semicolon where one was seen (changes-tokens)",
        "no simplification but sorting of includes can be forced (forced)",
        "a simplification is started or reported as on only if enabled or forced, enabled is what the option says, and "
        "only -s sets the option (switch)"],
       assumptions=["the reading side (clang.c, lexer.c, token.c) is subject of P15 and P17, alignment of directives "
                    "(cpp-align.c) is not covered", "EXPR_EXEC_TEST is used by the tests only",
                    "sorting of includes and include guards are off in the style"])
def p16(prog, res, tier):
    plain.p16(prog, res, "P16")


@check("P19", "path-sensitive dataflow over a segmented text, contracts of the functions that rewrite token texts",
       TOK_EXPL + "The text of a comment or macro is a chain of segments, each known by the set of bytes it is made of; pointers "
       "are positions between segments and lengths are sums of segments. What is put out is matched against the text.",
       ["everything but blanks is put out, once, in order, up to the end (text-lost, text-repeated, text-order)",
        "nothing but blanks is put in (text-added), not inside of words (word-cut) and none is dropped between words "
        "(blank-lost)", "no byte outside of the text is looked at (overrun)",
        "the text of a token is replaced by the one derived from it only (other-text)"],
       assumptions=["a line continuation separates what is on both sides of it (a blank in front of it or none is the same)",
                    "what a document is built of is rendered in full (P14)"])
def p19(prog, res, tier):
    words.p19(prog, res, "P19")


@check("P20", "path-sensitive dataflow over affine line numbers, automaton of unified diffs, contracts of lookup and numbering",
       TOK_EXPL + "The patch is an automaton of lines (file name, hunk, added, removed, common, remark); line numbers are affine "
       "terms over the number of the line at hand and the lines left of the hunk. The expressions that read headers are "
       "inspected as automata of their own.",
       ["the ranges made of a hunk cover the lines it adds and no others (wrong-lines, line-missed)",
        "no line of a hunk is taken for a header (hunk-line), headers are read as written (header)",
        "every file named is taken note of (file-ignored)",
        "a patch is rejected only if a hunk has no file, ends early or cannot be read, and always then (accepted, rejected)",
        "a line is found in a range iff the range covers it (lookup), tokens are marked by the line they start on, lines are "
        "counted as in the source (line-number), and the text of a span of lines is those lines (line-text)",
        "a token put behind another is part of the diff iff that one is (inherit)"],
       assumptions=["line numbers and counts of a patch fit into an unsigned int",
                    "regcomp() and regexec() match POSIX extended regular expressions"])
def p20(prog, res, tier):
    patch.p20(prog, res, "P20")


@check("P21", "table inspection, path-sensitive dataflow of each option's parser over key, colon and value, contracts of lookup, "
       "defaults, dispatch and getters, flow of option values to their uses",
       TOK_EXPL + "The table of options is read out of its initializer and held against the documented options; the parser of each "
       "entry is followed with that entry over a key, a colon or none, and a value of each type; the loops over options, categories "
       "and defaults are followed for an arbitrary element.",
       ["every option and value documented is in the table, spelled as documented, in its scope (table)",
        "a value accepted is the one written (value) and is kept for the option named and no other (wrong-option); a value not "
        "understood is skipped (ignored, stuck)",
        "nested options are read in their scope, and only there (scope); styles are based on one another one level deep (based)",
        "patterns are compiled as written and matched only if they could be (regex), the first category matching wins (priority)",
        "options are looked up by their whole name (lookup), defaults are the documented ones (default), what is asked for is what "
        "was set (getter)",
        "documents of other languages change nothing (language), a broken file is no reason to give up (file)",
        "values taken for others are not told apart (taken), no column limit is not taken for a width (limit)"],
       assumptions=["YAML is read as the subset used by clang-format -dump-config: double quotes and flow sequences make the whole "
                    "file be ignored", "clang-format, if run, prints a style of that subset"])
def p21(prog, res, tier):
    styles.p21(prog, res, "P21")


@check("P22", "typestate of each include while gathered, grouped, sorted and put back, path-sensitive dataflow for an arbitrary "
       "element of each loop, case analysis of the comparison functions",
       TOK_EXPL + "The loops over includes, groups and priorities are followed for an arbitrary element: what happened to it is "
       "judged when the loop goes on to the next one, and a loop may only end behind the last. Comparison functions are followed for "
       "each order of what they compare.",
       ["an include is gathered once, as the token it is (gather), behind what precedes the first one (start), until something other "
        "than an include or a blank line ends the block (block)",
        "each include is in the group of its priority, once (kept, priority, main)",
        "each include is taken out once and put back once behind the one before it, all references kept (lost, order, refs)",
        "nothing is written to a directive but the length of its blank lines (text)",
        "blocks left alone are left alone (block, diff), nothing carries over to the next block (reset)",
        "each priority has a group, groups are in order (groups, priorities), comparisons are orders (compare)",
        "the main include is told by its whole path (main), a blank line is two newlines at the very end (blank)"],
       assumptions=["groups are walked in the order they were made (uthash), vector_sort sorts",
                    "the list functions of token.c do what their names say (list operations are macros of libks)"])
def p22(prog, res, tier):
    includes.p22(prog, res, "P22")
