"""The properties, and for each the harness entries that decide it."""
V = ["accepted", "variable"]
R = ["accepted", "rule"]


def e(domain, covers=None, quick=True, **kw):
    d = dict(domain=domain, quick=quick, **kw)
    if covers is not None:
        d["covers"] = covers
    return d


OUT = (
    "longer texts and other templates; syntax hastur declares unsupported (functions other than eval, ifdef/ifndef, else if, "
    "export/override/private/undefine, target-specific variables, static patterns, vpath, load, !=), '\\#', carriage returns that "
    "do not end a line, keywords in upper case, references nested more than 12 deep"
)
OBS = "every byte string a user can read back (expanded variables, targets, dependencies, expanded commands, accepted or rejected) must equal what an independent reference interpreter of the documented syntax (harness/src/refmake.rs) computes on the same symbolic bytes"

ASSERT = "symbolic execution of the compiled code (LLVM IR), assertions and branches decided by Z3, assertions stated directly over the symbolic input"
MODEL = "symbolic execution of the compiled code (LLVM IR), assertions and branches decided by Z3, against a small model of plain strings, sets or trees executed on the same symbolic input"
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, entries, bounds=None, outside=OUT, covers=None, technique=None, note=None, state=None, observe=None, hook=None, assumptions=None):
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, entries=entries,
        bounds=bounds or "; ".join("%s: %s" % (k, v["domain"]) for k, v in entries.items()),
        outside=outside, covers=covers or ["accepted"], technique=technique, note=note, state=state or [], observe=observe or [], hook=hook, assumptions=assumptions or [],
    )


prop(
    "C02", "Assignments set exactly the named variable to the written value",
    "After a makefile is read, every variable has the value that its assignments in file order determine: '=' keeps the text for later expansion, ':=' and '::=' expand it at once, '?=' only sets a variable that has no value, and '+=' appends with one space in the flavor the variable already has. The name is the expanded text before the operator, the value starts after the blanks that follow the operator (so it can be empty), and no other variable changes.",
    ["inputs", "histories"], "all sequences of assignments to variables that refer to each other, all operators, all spellings of the operator and its surroundings",
    "The tests read a handful of fixed assignments, mostly of one variable; which flavor a value ends up with depends on the whole history of assignments before it.",
    ["src/lib.rs", "src/eval/mod.rs", "src/ast/mod.rs", "src/parsers/mod.rs"],
    [("assignment of a variable", "AssignVariable::eval in src/ast/mod.rs"), ("finding the operator", "parse_assignment_operator in src/parsers/variable/mod.rs"), ("the set of variables", "Database::set_variable in src/lib.rs")],
    {
        "h_assign_seq": e("'b := 1' and two statements <a|b><blank, ':' or nothing><one of ':?+ '>= <$ or nothing><a|b|x>y", V),
        "h_assign_hist": e("four assignments to a or b with = := ?= +=, value 'x' or a reference to b", V),
        "h_assign_line": e("any 4 bytes of 'ab =:?+$<tab>' after the name in one line", V),
        "h_assign_name": e("a name made of a blank or letter, one of seven references, and 0-2 bytes of 'ab '; five operators; three values; a following statement", V),
        "h_assign_line6": e("any 6 bytes of 'ab =:?+$<tab>' after the name", V, quick=False),
        "h_assign_seq3": e("as h_assign_seq with three statements", V, quick=False),
    },
)
prop(
    "C03", "A variable reference expands to the value the variable has at that moment",
    "Expanding a text replaces every $(name), ${name} and $c by the current expanded value of that variable (nothing if it has none), '$$' by '$', and leaves all other characters as they are; names may themselves be computed by references, to any depth. It does so identically wherever text is expanded: values, names, targets, dependencies, commands, conditions.",
    ["inputs", "histories"], "all texts made of dollars, brackets and names, over databases of simple and recursive variables that change later",
    "The tests expand a few fixed references; nesting, unusual names and the moment of expansion are unbounded.",
    ["src/ast/mod.rs", "src/parsers/ast/mod.rs", "src/eval/mod.rs"],
    [("evaluation of a reference", "VariableReference::eval in src/ast/mod.rs"), ("parsing of references", "advanced_var in src/parsers/ast"), ("expansion of a variable", "Variable::expand in src/eval/mod.rs")],
    {
        "h_expand_free": e("'v = ' and any 5 bytes of '$(){}ab', variables a b c x defined", V),
        "h_expand_chars": e("'v = ' and any 4 bytes of 31 characters of makefile syntax and punctuation", V),
        "h_expand_nest": e("two of twelve references, nested up to 3 deep, with a byte of 'a $' before each and one of 'b)}' after; = and :=; later reassignments", V),
        "h_expand_cond": e("references with a symbolic name in the arguments of ifeq and ifneq, both notations, with and without a reassignment before", V),
        "h_expand_rule": e("references with a symbolic name in a target, a dependency and a command, with and without a reassignment after", ["accepted", "rule", "command"]),
        "h_expand_where": e("references with a symbolic name in a condition, a target, dependencies and a command of one makefile", ["accepted", "command"], quick=False),
        "h_expand_free7": e("any 7 bytes of '$(){}ab'", V, quick=False),
    },
)
prop(
    "C04", "A substitution reference rewrites exactly the matching words",
    "$(name:key=replacement) yields the words of the variable's value in order, joined by one space: a word that matches the whole key pattern ('%' stands for any text, without a '%' the key is a suffix) becomes the replacement with '%' standing for the matched text, all other words stay unchanged, and a value without words yields nothing. A backslash quotes a '%', and key, replacement and name are expanded first.",
    ["inputs"], "all values, keys and replacements",
    "The tests substitute three fixed suffixes; matching has to be right for every word, blank, '%' and backslash.",
    ["src/ast/text_functions.rs", "src/ast/mod.rs", "src/parsers/ast/mod.rs", "src/evaluated/nom"],
    [("word by word substitution", "SubstitutionReference::eval and helpers in src/ast"), ("quoting", "find_char_unquote in src/parsers"), ("search in spans", "FindSubstring for BlockSpan in src/evaluated/nom")],
    {
        "h_subst_words": e("value: 0-4 bytes of 'ab ', key: 0-2 of 'a%', replacement: 0-2 of 'c%'", V),
        "h_subst_suffix": e("file-like words with symbolic blanks, dots and suffixes; 8 keys; 8 replacements", V),
        "h_subst_escape": e("value, key and replacement of 0-3 bytes of 'a%\\'", V),
        "h_subst_expr": e("keys, replacements and names given by references; nested substitutions; both flavors", V),
        "h_subst_words6": e("value: 0-6 bytes of 'ab ', key: 0-3 of 'ab%', replacement: 0-2 of 'c%'", V, quick=False),
    },
)
prop(
    "C05", "Physical lines are joined and cut into logical lines without losing text",
    "A backslash before a line break joins lines into one logical line with a single space in between (blanks around the join are dropped, backslashes before it are halved), a '#' drops the rest of the logical line including its continuations, and a carriage return before a line break is not part of the text. Everything else on a line is kept, the next line starts exactly after the break, and the last line needs no break.",
    ["inputs"], "all texts of backslashes, line breaks, carriage returns, comments, blanks and other characters",
    "The tests contain about ten fixed continuations; the rules about backslashes, comments and breaks interact at every position.",
    ["src/parsers/mod.rs", "src/parsers/comment.rs", "src/parsers/macros.rs"],
    [("joining lines", "collapsing line parser in src/parsers"), ("comments", "src/parsers/comment.rs"), ("the reading loop", "ParserState::parse_line in src/parsers/mod.rs")],
    {
        "h_lines_value": e("'a = x', any 5 bytes of '\\<nl> #b<tab>', 'y', a second assignment", V),
        "h_lines_crlf": e("'a = x' and any 5 bytes of '\\<nl><cr>#b', CRLF file", V),
        "h_lines_eof": e("'a =' and any 5 bytes of '\\<nl><cr># b' at the end of the text", V),
        "h_lines_start": e("any 5 bytes of '\\<nl># <tab>a=' at the start of the text", V),
        "h_lines_comment": e("a comment with any 3 bytes of '\\<nl> a<cr>' after four kinds of line, four following lines", V),
        "h_lines_kinds": e("eight kinds of line, each with two of eight joins at two places", V),
        "h_lines_value7": e("'a = x', any 7 bytes of '\\<nl> #b'", V, quick=False),
    },
)
prop(
    "C06", "Conditionals read exactly the lines of the branches that are taken",
    "ifeq and ifneq compare the expanded, trimmed arguments at the moment the line is read, however the two arguments are written; the lines up to the matching else or endif have an effect exactly if the condition and all enclosing conditions select them, and lines in a branch that is not taken have no effect at all. An else or endif without an open conditional, a second else and extra text after them are errors.",
    ["inputs", "histories"], "all sequences of conditional lines and statements, all arguments",
    "The tests nest conditionals at most once, in a few fixed orders; the state is a stack that any sequence of lines may drive.",
    ["src/parsers/conditional", "src/parsers/mod.rs"],
    [("the stack of conditionals", "ParserState in src/parsers/mod.rs"), ("parsing conditional lines", "src/parsers/conditional")],
    {
        "h_cond_seq": e("five lines, each an ifeq with a symbolic argument, else, endif or an assignment", V),
        "h_cond_body": e("two of thirteen lines (rules, commands, includes, define, malformed text, ...) inside a taken or untaken branch", V),
        "h_cond_args": e("parenthesised arguments of 0-2 bytes of 'ab $x()' each", V),
        "h_cond_quote": e("quoted arguments with symbolic quotes and 0-2 bytes of 'a $x\"'' each", V),
        "h_cond_kw": e("symbolic text before and after ifeq, else and endif", V),
        "h_cond_seq7": e("seven lines, with ifneq and reassignments of the compared variable", V, quick=False),
        "h_cond_args3": e("parenthesised arguments of 0-3 bytes of 'ab $x(),'", V, quick=False),
    },
)
prop(
    "C07", "define keeps the lines up to its endef verbatim",
    "A define sets the named variable to the text between its line and the matching endef, line breaks, comments and backslashes included; define lines inside it nest, and only a line that starts with the word endef ends it. The operator after the name means the same as in an assignment, and reading continues with the line after the endef.",
    ["inputs"], "all bodies, names, operators and endef lines",
    "The tests read three fixed defines; the body is arbitrary text and its end has to be found in it.",
    ["src/parsers/variable", "src/parsers/mod.rs", "src/lib.rs"],
    [("starting a define", "src/parsers/variable"), ("reading its body", "ParserState::parse_line in src/parsers/mod.rs")],
    {
        "h_define_op": e("eight spellings of name and operator over three previous values, bodies with references, comments and continuations, four spellings of endef, three following statements", V),
        "h_define_body": e("any 5 bytes of '<nl>#\\ <tab>a$=:' as the body", V),
        "h_define_nest": e("four lines, each one of seven define-like, endef-like and other lines", V),
        "h_define_end": e("0-2 bytes of ' <tab>\\#' before and 0-3 of ' <tab>#ax\\' after the word endef", V),
        "h_define_name": e("'define', a blank or nothing, any 4 bytes of 'vn $()=:+?#'", V),
        "h_define_body6": e("any 6 bytes of '<nl>#\\ a$(' as the body", V, quick=False),
    },
)
prop(
    "C08", "A rule line yields exactly its targets, dependencies and inline command",
    "A line with a separator colon defines one rule per word before the colon, each with the words after it as dependencies in order; words are separated by blanks, references in them are expanded and may contribute several words or the colon itself, a backslash quotes the character it protects, and text after an unquoted semicolon is the first command. A line that is neither this nor any other construct is reported as an error.",
    ["inputs"], "all target, dependency and separator texts, all quoting, all expansions",
    "The tests read a dozen fixed rule lines; where words end depends on quoting and on what references expand to.",
    ["src/parsers/targets", "src/parsers/file_sequence.rs", "src/parsers/mod.rs", "src/lib.rs"],
    [("splitting a rule line", "src/parsers/targets"), ("splitting into file names", "src/parsers/file_sequence.rs"), ("recording rules", "Database in src/lib.rs")],
    {
        "h_rules_free": e("'a' and any 5 bytes of 'b: \\;$v', then a command", R),
        "h_rules_chars": e("'a' and any 3 bytes of 31 characters of makefile syntax and punctuation", R),
        "h_rules_lists": e("lists with references and paths, symbolic separators, quotes, semicolons and comments", R),
        "h_rules_ref": e("thirteen lines where targets, colon or dependencies come from references, 0-2 bytes of ' a:;' after them", R),
        "h_rules_escape": e("0-4 bytes of '\\: b' in the target, 0-3 of '\\ \\:d' in the dependencies", R),
        "h_rules_free7": e("'a' and any 7 bytes of 'b: \\;'", R, quick=False),
    },
)
prop(
    "C09", "A rule's recipe is exactly the command lines that follow it, expanded late",
    "The lines after a rule that start with the command character, up to the next other construct, are its commands in order, each without that character, with continued lines kept together, backslash and break included, and one command character removed at each continuation. Commands are kept unexpanded and expand with the values the variables have when they are used; blank and comment lines in between do not end a recipe.",
    ["inputs", "histories"], "all command texts and all sequences of lines after a rule, any command character",
    "The tests read a few fixed recipes with the default command character.",
    ["src/parsers/recipe_line.rs", "src/parsers/mod.rs", "src/lib.rs"],
    [("reading a command line", "src/parsers/recipe_line.rs"), ("attaching it to the open rule", "ParserState in src/parsers/mod.rs")],
    {
        "h_recipe_free": e("any 5 bytes of '\\<nl><tab> a#' as a command", R),
        "h_recipe_chars": e("any 4 bytes of 20 characters of makefile and shell syntax as a command", R),
        "h_recipe_crlf": e("any 5 bytes of '\\<nl><cr><tab>a' as a command of a CRLF file", R),
        "h_recipe_seq": e("three lines after a rule, each a command, blank command, comment, assignment, conditional or continued command, with a symbolic byte", R),
        "h_recipe_late": e("commands with symbolic references, followed by reassignments", ["accepted", "command"]),
        "h_recipe_char": e("four command characters, symbolic bytes at the start of the following lines", R),
        "h_recipe_free7": e("any 7 bytes of '\\<nl><tab>a#' as a command", R, quick=False),
        "h_recipe_seq4": e("four lines after a rule", R, quick=False),
    },
    hook="Command::verif_ast (cfg hastur_verif): read access to the unexpanded command",
)
prop(
    "C10", "Several rules for one target combine as documented",
    "A target that is defined by several rules is one rule: a rule without commands adds its dependencies after the ones already known and keeps the known commands, a rule with commands replaces what was known. Each target of a rule with several targets is treated on its own, and the last rule of a file counts like any other.",
    ["inputs", "histories"], "all sequences of rules over a few targets, with and without commands",
    "The tests define each target once or twice; the result depends on the order of all rules for the target.",
    ["src/lib.rs", "src/parsers/mod.rs"],
    [("merging", "Database::add_rule and Rule in src/lib.rs"), ("closing the open rule", "ParserState in src/parsers/mod.rs")],
    {
        "h_merge_two": e("two rules with one or two targets of a b c, dependencies of two bytes of 'cd ', single or double colon, four recipes", R),
        "h_merge_inline": e("three rules with symbolic separators, inline commands and command lines", R),
        "h_merge_mixed": e("two rules with assignments, conditionals and commands in between", R),
        "h_merge_three": e("three rules with symbolic targets and dependencies", R, quick=False),
    },
)
prop(
    "C11", "An include reads the named files in place, in order",
    "include reads the files its expanded words name, in order, exactly as if their text stood at that place, with the variables known so far visible in them and their definitions visible afterwards, files that include files likewise. A missing file is an error for include and ignored for -include and sinclude; an error in an included file is an error.",
    ["inputs", "histories"], "all include lines, file names and contents of included files",
    "The tests include two fixed files once; names are expanded text, contents arbitrary.",
    ["src/lib.rs", "src/parsers/directives", "src/parsers/mod.rs"],
    [("include directives", "src/parsers/directives"), ("reading the file", "Engine::include in src/lib.rs")],
    {
        "h_include_stmt": e("four preceding texts, three directives, eight lists of names, eight file contents, three following texts", V),
        "h_include_nest": e("files that include files, with rules and assignments around", V),
        "h_include_text": e("an included file of any 4 bytes of 'a=:<nl><tab>#\\b'", V),
        "h_include_names": e("names of references and any 2 bytes of 'abc $\\', four files", V),
    },
    assumptions=["the file system is a table of files in the working directory; reads return the whole content and do not fail otherwise"],
)
prop(
    "C12", "eval reads its expanded argument as makefile text, where and when it is expanded",
    "Expanding $(eval text) first expands the text and then reads the result as makefile text at that moment, with the same effect as if it stood there, once per expansion, and contributes nothing to the expansion. What follows, even in the same line, sees its effect.",
    ["inputs", "histories"], "all argument texts and all places where an eval is expanded, immediately or late",
    "The tests evaluate two fixed statements.",
    ["src/ast/mod.rs", "src/lib.rs", "src/parsers/ast"],
    [("evaluating eval", "Eval::eval in src/ast/mod.rs"), ("reading text", "Engine::read_eval in src/lib.rs")],
    {
        "h_eval_stmt": e("twelve statements in an eval at four kinds of place, followed by text and two continuations", V),
        "h_eval_define": e("two-line texts of ten kinds of line from a define, four ways to eval it", V),
        "h_eval_late": e("evals inside a recursive variable, expanded in seven places", V),
        "h_eval_free": e("an eval of any 5 bytes of 'ab=: $()'", V),
    },
    outside=OUT + "; text that hastur cannot read in an eval (it declares error routing for this unimplemented)",
)

TOT = "longer texts; nesting deeper than the bounds allow (the recursion of the parser and of expansion is not bounded by hastur); memory exhaustion"
prop(
    "C01", "Reading and expanding any text ends in a result or a reported error",
    "For any bytes given as a makefile, reading them returns: it neither panics (except to say that a construct is not implemented) nor overflows nor loops, and it accepts the text or reports an error. The same holds for expanding everything that was read: variables, targets, dependencies and commands.",
    ["inputs"], "all byte strings, and all continuations of every kind of construct",
    "A crash needs one particular combination of bytes; tests sample a vanishing part of them.",
    ["src/lib.rs", "src/parsers/mod.rs", "src/parsers/ast/mod.rs", "src/ast/mod.rs", "src/evaluated/mod.rs", "src/evaluated/nom"],
    [("the reading loop", "Engine::read_makefile and ParserState::parse_line"), ("slicing text", "src/evaluated/nom"), ("expansion", "AstNode::eval in src/ast/mod.rs")],
    {
        "h_total_bytes": e("any 3 bytes as the whole text", ["accepted", "rejected"]),
        "h_total_ascii": e("any 4 ASCII bytes as the whole text", ["accepted", "rejected"]),
        "h_total_ascii5": e("any 5 ASCII bytes as the whole text", ["accepted", "rejected"]),
        "h_total_prefix": e("39 beginnings of constructs, any 2 bytes, four ends", ["accepted", "rejected"]),
        "h_total_self": e("six texts whose variables, evals or includes refer to themselves", ["read"]),
        "h_total_bytes4": e("any 4 bytes as the whole text", ["accepted", "rejected"], quick=False),
        "h_total_prefix3": e("39 beginnings of constructs, any 3 bytes, two ends", ["accepted", "rejected"], quick=False),
        "h_total_ascii6": e("any 6 ASCII bytes as the whole text", ["accepted", "rejected"], quick=False),
        "h_total_bytes5": e("any 5 bytes as the whole text", ["accepted", "rejected"], quick=False),
        "h_total_prefix4": e("39 beginnings of constructs, any 4 bytes, two ends", ["accepted", "rejected"], quick=False),
    },
    outside=TOT, technique=ASSERT,
)
prop(
    "C13", "Every expanded text names the variables it came from",
    "The sensitivity of an expanded text is the set of variables that were looked up to produce it, also through other variables, computed names, keys and replacements of substitutions and immediate assignments, and no other variable. In particular changing the value of a variable outside that set cannot change the text.",
    ["inputs", "histories"], "all chains of variables and all kinds of reference between them",
    "The tests ask for the sensitivity of two fixed expansions; it has to survive every way text is cut, copied and recombined.",
    ["src/evaluated/mod.rs", "src/ast/mod.rs"],
    [("sensitivity of a block", "Block::sensitivity in src/evaluated/mod.rs"), ("recording references", "VariableReference::eval and SubstitutionReference::eval in src/ast/mod.rs")],
    {
        "h_sens_chain": e("three variables that refer to each other through symbolic names, all operators", ["value"]),
        "h_sens_refs": e("twelve kinds of reference (computed, substituted, nested, evaluated), followed by three kinds of text, reassigned", ["value"]),
        "h_sens_define": e("references in defines and evals", ["value"]),
        "h_sens_influence": e("two runs that differ in one symbolic byte of the value of x: wherever variables, targets or dependencies differ, they are sensitive to x", ["block", "influenced", "rule"]),
    },
    outside="text that an eval reads counts as newly written text: what a define or rule produced by $(eval ...) depends on beyond its own references; longer chains than three; functions hastur does not implement",
    technique="symbolic execution of the compiled code (LLVM IR), assertions and branches decided by Z3: sensitivity against the lookups of a reference interpreter, and two-run noninterference",
)
prop(
    "C14", "Every piece of text knows the file, line and character it was written at",
    "Each segment of an expanded variable, target, dependency or command carries the location (file, line, character) where exactly its text stands in the source, also after joining lines, expansion, substitution, slicing and copying, in included files and for text from define; locations count characters and lines from 1. Only separators that hastur inserts itself are synthetic, and a reference is located at its dollar.",
    ["inputs"], "all texts, in particular after continued lines, multi-byte characters, includes and expansions",
    "The tests check the location of a few pieces near the start of a text; errors show only behind joins, cuts and wide characters.",
    ["src/source_location.rs", "src/evaluated/mod.rs", "src/parsers/mod.rs", "src/parsers/ast/mod.rs"],
    [("advancing a location", "Location::advance and LocatedStr::slice in src/source_location.rs"), ("segments of a span", "BlockSpan::segments in src/evaluated/mod.rs"), ("locations of parsed nodes", "src/parsers/ast/mod.rs")],
    {
        "h_loc_value": e("values with 2 symbolic bytes, references, joins and comments, after five kinds of line", ["accepted", "located"]),
        "h_loc_rules": e("rule lines and commands with a symbolic byte, references, joins, inline commands", ["accepted", "located", "rule", "reference"]),
        "h_loc_subst": e("eight substitutions over located words", ["accepted", "located", "synthetic"]),
        "h_loc_define": e("a define with 3 symbolic bytes, references and blank lines", ["accepted", "located"]),
        "h_loc_eval": e("text read by eval, directly and from a define", ["accepted", "located"]),
        "h_loc_include": e("included files with a symbolic byte", ["accepted", "located"]),
        "h_loc_wide": e("characters of 2-4 bytes, one of them symbolic", ["accepted", "located"]),
        "h_loc_free": e("a value with any 4 bytes of '\\<nl> $c#'", ["accepted", "located"]),
    },
    outside=OUT + "; for text read by eval the location is that of the text the eval expanded", technique=ASSERT,
)
prop(
    "C15", "A span of evaluated text behaves like the string it stands for",
    "However a block was composed (constants, slices of content, nested concatenations, references), a span of it has the length, text, characters, positions, slices, offsets, splits, search results and comparisons of the plain string with the same text. Slices of slices behave the same, and characters of several bytes are never cut.",
    ["inputs", "histories"], "all compositions of blocks, all cuts, all needles and predicates",
    "The tests use a few fixed blocks; off-by-one errors at segment boundaries need a particular composition and cut.",
    ["src/evaluated/mod.rs", "src/evaluated/nom", "src/evaluated/content_reference.rs"],
    [("slicing and searching", "the nom traits of BlockSpan in src/evaluated/nom"), ("spans", "BlockSpan in src/evaluated/mod.rs")],
    {
        "h_span_slice": e("two pieces of six kinds with symbolic ASCII bytes, all pairs of cuts", ["block"]),
        "h_span_slice3": e("three pieces of six kinds, all pairs of cuts", ["block"]),
        "h_span_wide": e("a piece with characters of 1-4 bytes, all pairs of cuts", ["block"]),
        "h_span_wide2": e("two pieces with characters of 1-4 bytes, all pairs of cuts", ["block"]),
        "h_span_search": e("two pieces, a cut, needles of 1-2 symbolic bytes", ["found", "not found"]),
        "h_span_search3": e("three pieces, a cut, needles of 1-3 symbolic bytes", ["found", "not found"]),
        "h_span_search_wide": e("two pieces with characters of 1-4 bytes, needles of 1-2 characters", ["found", "not found"]),
    },
    outside="more pieces, longer pieces, deeper nesting of concatenations", technique=MODEL,
)
prop(
    "C16", "Copies of spans keep text, locations and sensitivity",
    "Turning a span into a new block or a content reference, or pushing its contents to another block, yields exactly the text of the span with the location of every byte and at least its sensitivity; it can be repeated and composed, and leaves the original unchanged. Slices of a copy are the same slices of the original.",
    ["inputs", "histories"], "all compositions of blocks, all spans of them, repeated copying",
    "The tests copy one fixed span.",
    ["src/evaluated/mod.rs", "src/evaluated/content_reference.rs"],
    [("copying", "BlockSpan::to_new_block, to_content_reference and Block::push_all_contents")],
    {
        "h_copy_pieces": e("two pieces of six kinds with symbolic bytes, every span, five ways to copy and recompose", ["copy"]),
        "h_copy_pieces3": e("three pieces of six kinds, every span", ["copy"]),
        "h_copy_values": e("six values hastur expanded, with symbolic bytes, every span", ["copy"]),
        "h_copy_slices": e("every slice of every copy of two pieces", ["copy"]),
    },
    outside="more pieces, longer pieces, deeper nesting", technique=MODEL,
)
prop(
    "C17", "A database is a value: later reading never changes a copy of it",
    "A copy of a database keeps its variables and rules whatever is read afterwards; putting it back into an engine continues exactly from that state, on as many ways as wanted, and each continuation is what reading the same texts at once yields. Adding a rule to a database yields a new one and leaves the old one as it was, and a rule is found by the name of its target.",
    ["histories"], "all histories of reading, copying, restoring and adding",
    "The tests never keep a copy of a database.",
    ["src/lib.rs"],
    [("persistent maps", "Database in src/lib.rs"), ("replacing", "Engine::replace_database in src/lib.rs")],
    {
        "h_db_snapshot": e("two statements of nine, a copy, then two different statements of nine, each from the copy", ["forked"]),
        "h_db_rules": e("two rules with symbolic targets put into other databases one by one", ["rules"]),
    },
    outside="longer histories, other statements", technique=MODEL,
)
prop(
    "C18", "Interned names stand for their texts",
    "Interning a text twice gives the same name, different texts give different names, and every name resolves to its text and is found by it. Names of files and of variables do not mix, copies of the cache are independent, and reading makefiles never changes a name that was handed out.",
    ["inputs", "histories"], "all sequences of texts, in any order and repetition, interleaved with reading",
    "The tests intern one or two fixed names.",
    ["src/lib.rs"],
    [("interning", "NameCache in src/lib.rs")],
    {
        "h_names_files": e("three file names of 0-2 bytes of 'ab.', and a copy of the cache", ["names"]),
        "h_names_vars": e("three variable names of 0-2 bytes of 'ab.', and a copy of the cache", ["names"]),
        "h_names_read": e("a name interned as a variable, as a file, both or not before reading one of four texts with symbolic names", ["read"]),
    },
    outside="more or longer names", technique=MODEL,
)
prop(
    "C19", "Locations are ordered by file position, and only within one file",
    "Of two locations in the same file the one on the earlier line, or at the earlier character of the same line, is less; locations in different files are not comparable, and a synthetic location only compares (equal) to synthetic ones. The order is antisymmetric, transitive and consistent with equality, and text further right or down in a file is located later.",
    ["inputs"], "all pairs and triples of locations",
    "The tests compare a few fixed locations; an order has to be right for all pairs.",
    ["src/source_location.rs"],
    [("ordering", "PartialOrd for Location in src/source_location.rs")],
    {
        "h_order_pair": e("two locations of five kinds (synthetic, two files, two evaluated texts) with any 32-bit lines and characters", ["pair"]),
        "h_order_three": e("three such locations", ["three"]),
        "h_order_text": e("text on two lines of a file with symbolic characters, and slices of it", ["text"]),
    },
    outside="more than two files or three locations", technique=ASSERT,
)
prop(
    "C20", "What cannot be read is reported as the error it is, and nothing after it counts",
    "A line that is not a valid construct makes reading fail with the kind of error that names the problem (unattached or repeated else and endif, extra text, malformed conditions, missing separators, unterminated references, missing include files, commands without a rule). What stood before that line has taken effect, nothing from the line on has, and errors in included files are reported likewise.",
    ["inputs", "histories"], "all erroneous lines at all places",
    "The tests check one sample of some kinds of error and never what was read before it.",
    ["src/lib.rs", "src/parsers/mod.rs", "src/parsers/conditional"],
    [("routing of errors", "ParseErrorKind and MakefileError"), ("raising them", "src/parsers")],
    {
        "h_error_cond": e("seven preceding texts, seven kinds of wrong conditional lines with symbolic bytes, four following texts", ["error", "kept"]),
        "h_error_lines": e("seven preceding texts, five kinds of wrong lines with symbolic bytes, four following texts", ["error", "kept"]),
        "h_error_include": e("included files with four kinds of errors after correct lines", ["error"]),
    },
)
prop(
    "C21", "Visitors reach every node of a tree once, in order",
    "Walking an abstract syntax tree with a Visitor or MutVisitor that overrides any methods and calls the defaults visits every node exactly once, parents before children, children in source order. A walk by itself changes nothing, changes made by a mutable visitor stay in the tree, and copies of the tree are independent of them.",
    ["programs"], "all trees of all kinds of node",
    "The tests visit two fixed trees.",
    ["src/ast/visit.rs", "src/ast/mod.rs"],
    [("default methods", "super_* in src/ast/visit.rs")],
    {
        "h_visit_trees": e("all trees of nine kinds of node, depth 2", ["tree", "changed"]),
        "h_visit_trees3": e("all trees of nine kinds of node, depth 3", ["tree", "changed"]),
    },
    outside="deeper trees; concatenations of more than two; substitution nodes, which hastur's parser only builds with evaluated parts", technique=MODEL,
)
prop(
    "C22", "Characters beyond ASCII are text like any other, everywhere",
    "A character of several bytes may stand in names, values, targets, dependencies, commands, conditions, substitutions and bodies of define, next to every piece of syntax, and is kept as it is; a byte order mark at the start is not text. Nothing but the ASCII characters of the syntax (and blanks) separates or ends anything.",
    ["inputs"], "all characters of two, three and four bytes at all places",
    "The tests are almost all ASCII; byte and character positions differ only in other text.",
    ["src/parsers/mod.rs", "src/parsers/file_sequence.rs", "src/ast/text_functions.rs", "src/evaluated/nom", "src/lib.rs"],
    [("positions of characters", "src/evaluated/nom"), ("ends of words", "src/parsers/file_sequence.rs")],
    {
        "h_wide_assign": e("two characters of 1-4 symbolic bytes in a value, joins and comments between, four operators, a byte order mark", V),
        "h_wide_name": e("a character of 2-4 symbolic bytes in the name of a variable and in references to it", V),
        "h_wide_rule": e("characters of 1-4 symbolic bytes in the target and dependency of a rule, after quotes and before separators", R),
        "h_wide_recipe": e("two characters of 1-4 symbolic bytes in commands", R),
        "h_wide_subst": e("characters of 1-4 symbolic bytes in words, keys and replacements", V),
        "h_wide_cond": e("characters of 1-4 symbolic bytes in the arguments of conditions", V),
        "h_wide_define": e("two characters of 1-4 symbolic bytes in the body of a define", V),
        "h_wide_rule3": e("as h_wide_rule with a third character in a command", R, quick=False),
    },
    outside=OUT + "; three-byte characters other than U+4000 to U+4FFF and four-byte characters other than U+10000 to U+3FFFF are represented by those",
)
prop(
    "C23", "Makefiles read one after the other act like one history",
    "Reading several texts with one engine keeps the variables and rules of the earlier ones, and each statement sees exactly what was read before it. Conditionals, defines, recipes and continued lines do not reach over the end of a text, and after a text that is rejected the engine keeps what was read until then.",
    ["histories"], "all sequences of texts",
    "The tests read one text per engine.",
    ["src/lib.rs", "src/parsers/mod.rs"],
    [("reading a text", "Engine::read_makefile in src/lib.rs")],
    {
        "h_multi_files": e("two texts of fourteen kinds of statement followed by others", V),
        "h_multi_three": e("three texts of fourteen kinds of statement", V),
        "h_multi_free": e("'v' and any 3 bytes of '=:<nl>x<tab>\\', then any 3 bytes of '=:<nl>v<tab> '", V),
    },
)
prop(
    "C24", "The pieces a text is made of do not influence how it is read",
    "Reading a block gives the same result for every way its text is divided into pieces: constants, slices of other content, nested concatenations, empty pieces, cut at any character. Syntax, line breaks, continuations and words may span pieces.",
    ["inputs"], "all texts and all divisions of them into pieces",
    "The tests read text from one piece; pieces occur with eval, define and expansion, in any division.",
    ["src/lib.rs", "src/parsers/mod.rs", "src/evaluated/nom"],
    [("reading a block", "Engine::process_block in src/lib.rs"), ("searching across pieces", "src/evaluated/nom")],
    {
        "h_pieces_assign": e("seven texts of variables, conditionals, defines and evals with a symbolic byte, cut at any place into three kinds of piece", V),
        "h_pieces_rule": e("three texts of rules with a symbolic byte, cut at any place into three kinds of piece", R),
        "h_pieces_free": e("'v' and any 4 bytes of '=<nl>\\ #:$', cut at any place", V),
        "h_pieces_two": e("three texts with a symbolic byte, cut at any two places", V),
    },
)
prop(
    "C25", "Expanding what was read changes nothing and can be repeated",
    "Expanding variables, dependencies and commands of a makefile that contains no eval leaves all definitions and rules as they are, gives the same text every time, and agrees however it is asked for: by expanding the variable, by evaluating its tree, or by a reference to it.",
    ["inputs", "histories"], "all values and references, any number of expansions",
    "The tests expand everything once.",
    ["src/eval/mod.rs", "src/ast/mod.rs", "src/lib.rs"],
    [("expansion", "Variable::expand in src/eval/mod.rs and AstNode::eval in src/ast/mod.rs")],
    {
        "h_db_pure": e("five operators, any 2 bytes of '$bcw(:', three references; variables, rules and commands expanded twice", ["accepted"]),
    },
    outside="makefiles with eval in what is expanded late; longer texts", technique=MODEL,
)
prop(
    "C26", "A makefile is read the same however its reader delivers the bytes",
    "read_makefile reads its reader to the end and gives the same result for any division of the bytes into chunks, also inside a character, and for interrupted reads. If the reader fails, or the bytes are not UTF-8, that is reported as an I/O error and neither variables nor rules change.",
    ["inputs", "fault_sequences"], "all divisions into chunks, all places of a failure, all malformed byte sequences",
    "The tests read from memory in one chunk and never fail.",
    ["src/lib.rs"],
    [("reading bytes", "Engine::read_makefile in src/lib.rs")],
    {
        "h_reader_chunks": e("three texts with a symbolic byte and a wide character, all divisions into three chunks, an interrupted read", ["accepted"]),
        "h_reader_fault": e("four texts with a symbolic byte, a chunk end and a failure at any place", ["failed"]),
        "h_reader_utf8": e("three texts with any 1-3 bytes above 127", ["valid", "invalid"]),
    },
)
prop(
    "C27", "The syntax tree of a value has the shape of its text",
    "A value is parsed into text and references, and a reference whose text begins with eval, strip, word or words and a blank into a call of that function, with brackets of the kind that opened it balanced and arguments separated by commas outside of brackets, without their leading blanks. A reference without its closing bracket, and a call with too few or too many arguments, is the corresponding error.",
    ["inputs"], "all texts of dollars, brackets, commas, blanks and names",
    "The tests parse a few fixed calls; functions other than eval have no other visible effect in this version.",
    ["src/parsers/ast/mod.rs", "src/ast/mod.rs"],
    [("parsing references", "src/parsers/ast/mod.rs"), ("arguments of functions", "src/parsers/ast")],
    {
        "h_tree_free": e("any 5 bytes of '$(){}ab '", ["accepted", "rejected"]),
        "h_tree_free7": e("any 7 bytes of '$(){}a'", ["accepted", "rejected"]),
        "h_tree_call": e("a call of six names with a symbolic byte after the name and any 3 bytes of 'a, $(){}' as arguments, four ends", ["accepted", "rejected"]),
        "h_tree_nest": e("calls nested in calls, six names each, both brackets, seven kinds of arguments", ["accepted", "rejected"]),
        "h_tree_args": e("word, words and strip with any 5 bytes of 'a, ()'", ["accepted", "rejected"]),
    },
    outside="longer texts; unbalanced brackets inside arguments", technique=MODEL,
)
