"""Source of properties.jsonl (gen.py writes it)."""

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             observe_at=list(observe), hook_needed=None))

PROPS = []
add = PROPS.append

add(P("P01", "In-place editing replaces a file atomically",
      "A file being edited in place is never opened for writing, truncated or removed: it is replaced by one rename of a "
      "temporary file that was created in the same directory and that already holds every byte of the formatted output. "
      "Apart from temporary files it created itself, knfmt alters or removes no file.",
      ["crash_points", "fault_sequences", "inputs"],
      "every point at which the process can be killed or a system call can fail, every file and option combination",
      "The tests run knfmt to completion on small files with every system call succeeding; none is killed half way or sees a failing write.",
      ["knfmt.c", "fs.c", "file.c", "libks/tmp.c"],
      [("filewrite: mkstemp, write loop, rename", "knfmt.c"), ("tmptemplate", "fs.c"), ("file_read opens read-only", "file.c")],
      observe=["system calls issued on the edited path"]))

add(P("P02", "A failed edit leaves no trace",
      "When editing a file in place fails at any step, the original stays as it was and the temporary file created for it is "
      "removed before the next file is processed and before the program ends.",
      ["fault_sequences", "histories"],
      "every failing system call at every step of an edit, for every position of the file among the arguments",
      "No test injects a failure into write, fstat, fchown, fchmod or rename.",
      ["knfmt.c"], [("err label of filewrite", "knfmt.c"), ("KS_tmpfd unlinks at once", "libks/tmp.c")],
      observe=["directory of the edited file"]))

add(P("P03", "Mode, owner and group survive in-place editing",
      "After a successful in-place edit the file has exactly the permission bits (including set-user-id, set-group-id and "
      "sticky), the owner and the group the original had.",
      ["inputs", "configurations"],
      "every combination of mode bits, owner and group of original and of freshly created files",
      "The tests edit files owned by the user running them, with ordinary modes.",
      ["knfmt.c"], [("fileattr", "knfmt.c")], observe=["stat of the edited file"]))

add(P("P04", "Input that is not accepted produces no output",
      "Nothing is written to standard output, to the file or to a diff for an input unless that same input was read, "
      "tokenized and parsed successfully up to its end. Each output stems from its own input only, never from bytes of an "
      "earlier file.",
      ["inputs", "histories"],
      "every input, accepted or rejected, at every position in a list of files",
      "Tests format one file at a time and only a handful of malformed ones.",
      ["knfmt.c", "parser.c", "lexer.c"],
      [("fileformat", "knfmt.c"), ("parser_exec", "parser.c"), ("lexer_tokenize", "lexer.c")],
      observe=["standard output", "edited files"]))

add(P("P05", "The exit status tells whether everything succeeded",
      "The exit status is non-zero when any file could not be opened, read, tokenized, parsed or written, or when a diff was "
      "reported, no matter which files before or after it succeeded; it is zero otherwise.",
      ["inputs", "fault_sequences", "histories"],
      "every sequence of files, each succeeding or failing at any step",
      "Tests look at the status of runs on a single file and never see a failing system call.",
      ["knfmt.c"], [("error in main", "knfmt.c"), ("return values of fileformat, filediff, filewrite, fileprint", "knfmt.c")],
      observe=["exit status"]))

add(P("P06", "A file that is already formatted is left alone",
      "When the formatted output equals the input byte for byte, in-place mode does not create, replace or touch anything and "
      "diff mode prints nothing; only when they differ is the file replaced or a diff shown.",
      ["inputs"], "every input whose output equals it, and every input whose output differs in any byte",
      "Tests compare contents and not whether a file was rewritten, and never try near-equal buffers.",
      ["knfmt.c", "libks/buffer.c"], [("buffer_cmp before filewrite and filediff act", "knfmt.c"), ("buffer_cmp", "libks/buffer.c")],
      observe=["system calls", "inode of the file"]))

add(P("P07", "Every byte is transferred",
      "Reading continues to the end of the file and writing to the end of the output, however the system splits the "
      "transfers: no byte is lost, repeated or reordered between file and memory, nor in what standard output, the "
      "replacing file or the two operands of a diff receive.",
      ["inputs", "schedules"], "every size of input and output and every sequence of short reads and writes",
      "Tests use regular files and pipes that accept everything at once.",
      ["knfmt.c", "libks/buffer.c", "libks/tmp.c"],
      [("write loops", "knfmt.c"), ("buffer_read_fd_impl, buffer_reserve", "libks/buffer.c"), ("KS_tmpfd", "libks/tmp.c")],
      observe=["bytes received by file, pipe or diff"]))

add(P("P08", "Each mode has its own effect and no other",
      "Files are replaced only when -i was given without -d, diffs are shown only with -d, and formatted source goes to "
      "standard output only when neither was given. Each option letter switches on exactly its own documented behaviour, in "
      "any combination and order with the others.",
      ["configurations"], "every combination and order of command line options",
      "Tests use a few fixed combinations.",
      ["knfmt.c", "options.c"], [("getopt loop, fileformat", "knfmt.c")], observe=["files", "standard output"]))

add(P("P11", "Looking ahead restores the position",
      "Whenever the parser inspects tokens further on before it decides how to go on, speculatively parsing whole "
      "declarations, expressions or statements included, the position in the token stream and its error state are put back "
      "exactly as they were before, on every path and for every nesting of look-aheads; errors met meanwhile are not "
      "reported and simplifications suspended meanwhile are resumed as they were. The lexer_peek operations never move the "
      "position, and the conditional lexer_if operations move it exactly when they report a match.",
      ["inputs"], "every token sequence, every outcome of every look-ahead, every nesting",
      "Tests only take the paths of well-formed code; a look-ahead that is not undone on a rare path drops or duplicates tokens.",
      ["lexer.c", "parser-*.c", "expr.c", "style.c", "simple.c"],
      [("lexer_peek_enter, lexer_peek_leave", "lexer.c"), ("parser_*_peek", "parser-*.c"),
       ("simple_disable, simple_enable", "simple.c")],
      state=[("lx_st", "position and error flag", "struct lexer"), ("lx_peek", "nesting of look-aheads", "struct lexer")],
      observe=["formatted output", "diagnostics"]))

add(P("P12", "The parser emits every token it takes, once",
      "Whenever the parser takes a token from the token stream, outside of look-ahead, it puts that very token into the "
      "formatted output exactly once, or deliberately removes it from the stream (keeping its comments), or the parse of the "
      "enclosing construct fails and is reported or recovered from; a token that was only looked at is never emitted. Only "
      "redundant semicolons may be swallowed. So no identifier, keyword, operator, bracket or literal of the source "
      "silently disappears or shows up twice.",
      ["inputs"], "every token sequence and every path through the recursive descent parser",
      "Tests format some hundred snippets; the parser has far more paths through optional attributes, recovery and old-style syntax.",
      ["parser*.c", "expr.c"],
      [("lexer_if, lexer_expect, lexer_pop followed by parser_doc_token", "parser-*.c"), ("parser_semi", "parser.c")],
      observe=["formatted output"]))

add(P("P13", "Expressions keep all of their operands and operators",
      "Every operator, bracket, literal, identifier and operand that the expression parser takes from the token stream "
      "becomes part of the expression tree, and formatting the tree emits each of these parts exactly once, whichever kind "
      "of expression, style option, missing operand or GNU extension is involved; otherwise the expression is rejected as "
      "a whole. The only exception are parentheses around an entire expression that -s removes.",
      ["inputs", "configurations"], "every expression, nesting and style",
      "Tests contain a few hundred expressions; emission depends on style options, missing operands, comments and nesting depth.",
      ["expr.c"], [("expr_doc", "expr.c"), ("expr_exec1 and the functions of the rules table", "expr.c")],
      state=[("struct expr", "node of the expression tree", "expr.c")], observe=["formatted output"]))

add(P("P14", "Layout decisions never lose or invent text",
      "When a document is rendered, whatever is decided about fitting, breaking, aligning, optional lines or the choice between "
      "several layouts, the text of every node is printed in full, exactly once and in order. Besides texts only spaces, tabs and "
      "newlines are printed and only trailing blanks are removed again. A layout that was tried and rejected leaves no trace. A "
      "hard line break always ends the line and a plain line break always separates what it stands between. Without a patch, "
      "text is left out only between a mute and the matching unmute.",
      ["inputs", "configurations"],
      "every document, column limit, style and nesting of groups, indents, optional and minimized parts",
      "The number of combinations of node kinds, widths and modes is unbounded; tests compare a few hundred rendered files.",
      ["doc.c", "util.c", "libks/buffer.c"],
      [("doc_exec1 and its helpers", "doc.c"), ("doc_print", "doc.c"), ("doc_exec_minimize_indent, doc_state_snapshot", "doc.c"),
       ("doc_trim_spaces, doc_trim_lines", "doc.c"), ("doc_alloc_impl, doc_append, doc_token", "doc.c"), ("strindent_buffer", "util.c")],
      state=[("st_mute", "nesting of mutes", "doc.c"), ("st_newline", "line break pending", "doc.c")],
      observe=["output buffer"]))

add(P("P15", "Comments and preprocessor directives stay attached and are emitted",
      "Every comment and every preprocessor directive read from the source hangs off a token, and whenever that token is "
      "emitted everything before it is emitted first and everything after it next, each once and in the original order. "
      "Tokens removed or moved by simplifications, semicolon handling or include sorting hand what hangs off them over to a "
      "neighbour. While one branch of #if / #else is being worked on, nothing outside of that branch is erased, output resumes "
      "at its end, and a branch that is given up on is replaced by its original text. Only white space, and an include guard "
      "for which a new one is added, may be dropped.",
      ["inputs"], "every placement of comments and directives in the source, every sequence of recoveries",
      "Comments and directives may occur between any two tokens; tests cover only a few hundred places.",
      ["parser.c", "clang.c", "lexer.c", "token.c", "cpp-include.c", "cpp-include-guard.c"],
      [("parser_doc_token_impl", "parser.c"), ("clang_read, clang_read_prefix", "clang.c"),
       ("lexer_remove, lexer_move_before", "lexer.c"), ("clang_branch, clang_recover, clang_branch_fold", "clang.c"),
       ("token_trim, token_move_suffixes, token_list_swap", "token.c"), ("cpp_include_guard", "cpp-include-guard.c")],
      state=[("tk_prefixes, tk_suffixes", "what hangs off a token", "struct token"), ("cl->prefixes", "read, not yet attached", "clang.c")],
      observe=["formatted output"]))

add(P("P16", "Without -s nothing but the layout changes",
      "Unless -s is given, and apart from sorting of includes and include guards requested by the style, no token of the source is "
      "inserted, moved, copied, reworded or removed and no text other than that of tokens and blanks is emitted. The one exception "
      "are redundant semicolons. Simplifications start only when enabled, enabling them is what -s does and nothing else.",
      ["inputs", "configurations"], "every source and every combination of options not including -s",
      "There are a dozen simplifications woven into the parser; tests run each of them but cannot show that none is ever active "
      "when not asked for.",
      ["simple.c", "parser*.c", "expr.c", "simple-*.c", "cpp-include.c", "cpp-include-guard.c", "knfmt.c"],
      [("simple_enter, is_simple_enabled, simple_alloc", "simple.c"), ("main", "knfmt.c"),
       ("parser_simple_decl_enter", "parser-decl.c"), ("parser_simple_stmt_enter", "parser-stmt.c"),
       ("expr_doc_sizeof, expr_exec_call", "expr.c")],
      state=[("si->enable, si->passes", "which simplifications are on", "struct simple")],
      observe=["formatted output"]))

add(P("P17", "Reading loses no text of the source",
      "Every byte of the source that is not white space becomes part of exactly one token, comment or preprocessor directive, in "
      "the order of the source: the text of a token is exactly the text consumed for it, the next token starts where the last "
      "one ended or after white space, nothing is taken for white space that is not, and the end of the source is reported only "
      "once all of it has been read. Text that cannot be read is rejected instead of being skipped. The one exception is a "
      "backslash outside of directives, literals and comments, which only continues a line.",
      ["inputs"], "every sequence of bytes",
      "Sources are arbitrary; a byte skipped at the end of some rare token disappears from the output silently.",
      ["clang.c", "lexer.c"],
      [("clang_read, clang_read_prefix, clang_read_comment, clang_read_cpp", "clang.c"),
       ("lexer_getc, lexer_ungetc, lexer_match, lexer_emit, lexer_eat_lines, lexer_eat_spaces", "lexer.c")],
      state=[("lx->lx_st", "position in the source", "struct lexer"), ("tk_str, tk_len", "text of a token", "struct token")],
      observe=["tokens", "formatted output"]))

add(P("P18", "The source is cut into the tokens of C",
      "Text is cut into tokens where the C language says: operators by longest match, identifiers and preprocessing numbers as a "
      "whole, string and character literals with their encoding prefix up to the closing quote (escapes included), comments up to "
      "their end, preprocessor directives up to the end of the line including continued lines and comments. Every token is of "
      "the kind its text has: keywords, identifiers, literals, operators, comments and directives are not mistaken for another.",
      ["inputs"], "every sequence of bytes forming valid tokens",
      "A token cut in two is emitted with a space in between which changes the program; the combinations are unbounded.",
      ["clang.c", "lexer.c", "token-defs.h"],
      [("clang_read, clang_keyword, clang_ellipsis, clang_read_comment, clang_read_cpp", "clang.c"), ("tokens", "token-defs.h"),
       ("lexer_match, lexer_emit", "lexer.c")],
      state=[("tk_type, tk_flags", "kind of a token", "struct token")],
      observe=["tokens", "formatted output"]))

add(P("P19", "Comments and macros keep their words",
      "Trimming of comments and aligning of line continuations in macros changes nothing but blanks: every other byte of the "
      "comment or macro, line breaks and backslashes included, is emitted once and in its place, no word is cut in two or "
      "joined with the next, and no byte outside of the text is looked at.",
      ["inputs", "configurations"], "every comment and every #define, with every layout of continued lines and every style",
      "Comments and macros hold arbitrary text, and what is done depends on trailing blanks, widths and line endings.",
      ["comment.c", "cpp-align.c", "clang.c"],
      [("comment_trim", "comment.c"), ("cpp_align, nextline", "cpp-align.c"), ("token_prolong", "clang.c")],
      state=[("tk_str, tk_len", "text of a token", "struct token")], observe=["formatted output"]))

add(P("P20", "A patch selects exactly the lines it adds",
      "With -D, the lines selected for formatting are exactly those the patch adds: removed lines, common lines and the remark "
      "about a missing newline at the end do not count, numbers found outside of the range of a hunk do not either. A token is "
      "considered changed iff the line it starts on is selected (one put behind another: iff that one is), lines are numbered as in the source, and lines fetched by their "
      "number are those lines. A patch with a hunk before any file name, or ending inside of a hunk, or that cannot be read is "
      "rejected; any other is accepted.",
      ["inputs"], "every unified diff and every source",
      "Patches are arbitrary sequences of hunks, and one line counted wrong moves the selection silently to other lines.",
      ["diff.c", "lexer.c", "clang.c"],
      [("diff_parse, matchpath, matchchunk, matchline, matchlines, diff_get_chunk", "diff.c"),
       ("lexer_emit, lexer_get_lines, lexer_line_alloc", "lexer.c")],
      state=[("fe_diff", "ranges of lines added", "struct file"), ("TOKEN_FLAG_DIFF", "token on a line added", "token.h")],
      observe=["formatted output", "exit status"]))

add(P("P21", "A style file means what it says",
      "Every option documented in the manual is recognised by its exact name, at its place in the file (top level, "
      "inside of BraceWrapping or of a category), with every value documented; it sets that option to that value and nothing else. "
      "Options and values not known are skipped and change nothing, documents of other languages are skipped as a whole. "
      "AlignOperands: true and false mean Align and DontAlign, ColumnLimit: 0 means no limit, IncludeGuards below 1 is rejected. "
      "The first category whose pattern matches decides about an include, categories without a usable pattern match nothing. "
      "Options not given have the documented defaults, without a file the OpenBSD style is used, and values documented as not "
      "supported are treated alike those they are taken for.",
      ["inputs", "configurations"], "every style file in the supported subset of YAML",
      "Options times values times places times order of options are far more files than tests have, and an option ignored or "
      "stored in the wrong place only shows in sources that depend on it.",
      ["style.c", "style.h", "cpp-align.c"],
      [("style_init, yaml_find_keyword, yaml_keyword", "style.c"), ("parse_bool, parse_enum, parse_integer, parse_*", "style.c"),
       ("style_parse_yaml_documents, yaml_document_language", "style.c"), ("style, style_brace_wrapping, style_include_priority", "style.c"),
       ("cpp_align", "cpp-align.c")],
      state=[("options[]", "value of each option", "struct style"), ("include_categories", "patterns and priorities", "struct style")],
      observe=["formatted output"]))

add(P("P22", "Sorting includes moves directives and loses none",
      "When includes are to be sorted (option -s, SortIncludes, IncludeBlocks: Regroup), each include of a block is in the output "
      "exactly once, with its text unchanged but for blank lines. Includes are only moved within a block: a run of include directives "
      "with no comment, other directive or code in between, nor a blank line unless regrouping. What precedes and follows the block "
      "stays where it is. Within a block the includes of a category come together, categories in order of Priority, within a category "
      "in order of SortPriority and then of text; the main include comes first, and includes in no category last. With -D a block "
      "with an include not part of the diff stays as it is, as does a block with an include whose path is not understood. Nothing of "
      "one block carries over to the next.",
      ["inputs", "configurations"], "every run of includes, every set of categories",
      "A directive dropped, doubled or moved across a comment or conditional takes a particular number of includes, groups and blanks "
      "that the few tests on includes do not have.",
      ["cpp-include.c", "style.c", "clang.c"],
      [("cpp_include_add, cpp_include_leave, cpp_include_exec, cpp_include_reset, cpp_include_alloc", "cpp-include.c"),
       ("include_cmp, add_to_include_group, add_line", "cpp-include.c"), ("style_include_priorities, priority_cmp", "style.c")],
      state=[("includes", "includes of the block", "struct cpp_include"), ("groups", "includes by priority", "struct cpp_include"),
             ("after", "what precedes the block", "struct cpp_include"), ("ignore", "block left alone", "struct cpp_include")],
      observe=["formatted output"]))

NOT_APPLICABLE = {}


def na(p, reason):
    add(p)
    NOT_APPLICABLE[p["id"]] = reason


na(P("P90", "Formatting is idempotent",
     "Formatting the output of knfmt again with the same style gives the same output.",
     ["inputs", "configurations"], "every source and style",
     "The second run sees other tokens positions, blank lines and breaks than the first.",
     ["doc.c", "clang.c"], [("doc_exec", "doc.c")], observe=["formatted output"]),
   "Relates two whole runs through the layout chosen in the first; widths, alignment and the places of line breaks are runtime "
   "quantities no dataflow over the source bounds.")
na(P("P91", "The output is the same program as the input",
     "Preprocessing and compiling the output gives the same tokens as the input, up to simplifications asked for.",
     ["inputs", "configurations"], "every valid C source and style",
     "Sources are unbounded.",
     ["knfmt.c", "clang.c", "doc.c"], [("fileformat", "knfmt.c")], observe=["formatted output"]),
   "Claimed piecewise by P12 to P19; the composition additionally needs that two tokens put side by side never fuse and that "
   "directives stay on their own lines, which depends on the rendered text.")
na(P("P92", "Lines stay within the column limit where a layout allows it",
     "A line exceeds the column limit only if no break inside of it is possible.",
     ["inputs", "configurations"], "every source and style",
     "Every layout has to be compared with every other possible one.",
     ["doc.c"], [("doc_fits", "doc.c")], observe=["formatted output"]),
   "Quantifies over sums of text widths and over all alternative layouts at run time.")
na(P("P93", "Declarations, macros and braces are aligned in columns",
     "Members of an aligned block start in the same column, the least one that fits all.",
     ["inputs", "configurations"], "every source and style",
     "Widths of the texts aligned are arbitrary.",
     ["ruler.c", "cpp-align.c"], [("ruler_exec", "ruler.c"), ("cpp_align", "cpp-align.c")], observe=["formatted output"]),
   "The columns are maxima over widths of runtime texts; no static domain in reach relates them to the output.")
na(P("P94", "Lines not selected by a patch come out as they were",
     "With -D, lines outside of the statements touched by the patch are emitted byte for byte.",
     ["inputs", "configurations"], "every source and patch",
     "Which lines are emitted verbatim depends on the groups the layout happens to have.",
     ["doc.c"], [("doc_diff_group_enter, doc_diff_verbatim", "doc.c")], observe=["formatted output"]),
   "Relates runtime positions of groups in the document to line numbers of the source; P20 decides which lines are selected, "
   "the extent of verbatim emission is not statically decidable here.")
na(P("P95", "Formatting takes time in proportion to the source",
     "Every source is formatted in time polynomial of low degree in its size.",
     ["inputs"], "every source",
     "Worst cases of nested structures are not found by sampling.",
     ["parser.c", "doc.c", "expr.c"], [("doc_fits", "doc.c"), ("lexer_peek_enter", "lexer.c")], observe=["running time"]),
   "Nested lookahead and refitting have costs depending on runtime nesting; no ranking argument over the recursive parser is in "
   "reach.")
