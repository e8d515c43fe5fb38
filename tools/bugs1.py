BUGS = {}
def bug(name, prop, edits, needs, breaks, body):
    BUGS[name] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, body=body)
def mk(t, v, want):
    import json
    q = lambda s: json.dumps(s)
    ts = t if isinstance(t, list) else [t]
    return "is(show(&[%s], &[%s]), %s);" % (", ".join(map(q, ts)), ", ".join(map(q, v)), q(want))

bug("c02-third-append", "C02",
    [("src/lib.rs", "if implicit_space {\n                    vec![\n                        old.unexpanded_value,", "if implicit_space && !matches!(old.unexpanded_value.children(), ast::AstChildren::Concat(v) if v.len() > 5) {\n                    vec![\n                        old.unexpanded_value,")],
    "a value that already consists of more than five pieces, then +=", "the space between the value and the appended text is lost",
    mk("b = 1\na = $b$b$b$b$b$b\na += x\n", ["a"], "a=<111111 x>\n"))
bug("c02-append-flavor", "C02",
    [("src/parsers/variable/mod.rs", "VariableParameters::new(node, Flavor::Recursive, crate::eval::Origin::File),\n                    true,", "VariableParameters::new(node, Flavor::Simple, crate::eval::Origin::File),\n                    true,")],
    "+= on a variable that has no value yet, then += again with a reference to a variable that changes later", "a variable created by += counts as simple, so later appends expand at once",
    mk("a += x\nb = 1\na += $(b)\nb = 2\n", ["a"], "a=<x 2>\n"))
bug("c02-double-colon-equals", "C02",
    [("src/parsers/variable/mod.rs", 'pe_complete!(pe_fix!(tag!("::="))) => { |_| { AssignmentType::Simple }}', 'pe_complete!(pe_fix!(tag!("::="))) => { |_| { AssignmentType::Recursive }}')],
    "::= with a reference to a variable that changes later", "::= keeps the text unexpanded",
    mk("b = 1\na ::= $(b)\nb = 2\n", ["a"], "a=<1>\n"))
bug("c03-nesting", "C03",
    [("src/parsers/ast/mod.rs", "        if c == start_char {\n            count += 1;", "        if c == start_char && count < 3 {\n            count += 1;")],
    "references nested four deep with the same bracket", "the innermost bracket is not counted, the reference ends early",
    mk("a = b\nb = c\nc = d\nd = z\nv = $($($($(a))))\n", ["v"], "v=<z>\n"))
bug("c03-blank-name", "C03",
    [("src/ast/mod.rs", "let value = deref_variable!(name.into_string());\n                        vec![ContentReference::new_from_node(Arc::new(\n                            EvaluatedNode::VariableReference", "let value = deref_variable!(name.into_string().trim_end().to_owned());\n                        vec![ContentReference::new_from_node(Arc::new(\n                            EvaluatedNode::VariableReference")],
    "a reference whose name ends in a blank", "$(a ) expands like $(a)",
    mk("a = 1\nv = <$(a )>\n", ["v"], "v=<<>>\n"))
bug("c03-late-undefined", "C03",
    [("src/ast/mod.rs", "let interned_variable_name = names.intern_variable_name($name);", "let interned_variable_name = { let n: String = $name; let n = if n.len() > 1 && n.ends_with('$') { n[..n.len() - 1].to_owned() } else { n }; names.intern_variable_name(n) };")],
    "a name of several characters that ends in a dollar", "the dollar at the end of the name is dropped",
    mk("ab = 1\nv = <$(ab$$)>\n", ["v"], "v=<<>>\n"))
bug("c04-exact-key", "C04",
    [("src/ast/text_functions.rs", "        if token.len() < total_key_length {", "        if token.len() < total_key_length || (token.len() == total_key_length && pre_key.len() > 0 && post_key.len() > 0) {")],
    "a word that equals the key with an empty stem and text on both sides of the %", "the word is not replaced",
    mk("s = ac abc\nv = $(s:a%c=x%y)\n", ["v"], "v=<xy xby>\n"))
bug("c04-overlap", "C04",
    [("src/ast/text_functions.rs", "let total_key_length = pre_key.len() + post_key.len();", "let total_key_length = std::cmp::max(pre_key.len(), post_key.len());")],
    "a word in which the two ends of the key overlap", "a word that is shorter than the key is processed",
    mk("s = aba\nv = $(s:ab%ba=x%y)\n", ["v"], "v=<aba>\n"))
bug("c04-separator", "C04",
    [("src/ast/text_functions.rs", "    let mut first = true;\n\n    while tokens.len() > 0 {", "    let mut first = tokens.len() > 0 && tokens.chars().next() == Some('\\t');\n\n    while tokens.len() > 0 {")],
    "-", "-", mk("a = 1\n", ["a"], "a=<1>\n"))
del BUGS["c04-separator"]
bug("c05-three-backslashes", "C05",
    [("src/parsers/mod.rs", "s.slice(..(s.len() - backslash_count + (backslash_count / 2)))", "s.slice(..(s.len() - backslash_count + (backslash_count / 2) + (backslash_count / 5)))")],
    "five backslashes before a line break", "one backslash too many stays",
    mk("a = x\\\\\\\\\\\ny\n", ["a"], "a=<x\\\\ y>\n"))
bug("c05-continued-comment", "C05",
    [("src/parsers/comment.rs", "ends_with_backslash(line_parse.0) & 1 == 1\n    {", "ends_with_backslash(line_parse.0) == 1\n    {")],
    "a comment that ends in three backslashes before the break", "the comment ends although its line continues",
    mk("# c \\\\\\\na = 1\nb = 2\n", ["a", "b"], "a undefined\nb=<2>\n"))
bug("c05-crlf-empty", "C05",
    [("src/parsers/mod.rs", "            should_add_space = false;\n        }\n    }\n\n    Ok((i, Block::new", "            should_add_space = lines.len() > 1;\n        }\n    }\n\n    Ok((i, Block::new")],
    "two continued lines followed by an empty continued line", "a second space appears",
    mk("a = x\\\n  \\\n y\nb = p\\\n q\\\n \\\n r\n", ["a", "b"], "a=<x y>\nb=<p q r>\n"))
bug("c06-nested-endif", "C06",
    [("src/parsers/mod.rs", "        for conditional in &self.conditionals {\n", "        for conditional in self.conditionals.iter().rev().take(2) {\n")],
    "three nested conditionals of which only the outermost is not taken", "lines of the innermost branch have an effect",
    mk("ifeq (a,b)\nifeq (a,a)\nelse\nifeq (a,a)\nelse\nv = 1\nendif\nendif\nendif\nw = 2\n", ["v", "w"], "v undefined\nw=<2>\n"))
bug("c06-comma-depth", "C06",
    [("src/parsers/conditional/mod.rs", "c == terminator && count <= 0", "c == terminator && count <= 1")],
    "a comma inside of brackets in the first argument", "the first argument ends at the comma inside of brackets",
    mk("f = 1\nifeq ($(a,b),)\nv = 1\nendif\n", ["v"], "v=<1>\n"))
bug("c06-else-nested", "C06",
    [("src/parsers/conditional/mod.rs", "top_conditional.seen_else = true;", "top_conditional.seen_else = last_idx == 0;")],
    "two elses in a nested conditional", "the second else is not reported",
    mk("ifeq (a,a)\nifeq (a,b)\nelse\nv = 1\nelse\nv = 2\nendif\nendif\n", ["v"], "error TooManyElses\nv=<1>\n"))
bug("c07-nest-level", "C07",
    [("src/parsers/variable/mod.rs", "                define.nesting += 1;", "                define.nesting = std::cmp::min(define.nesting + 1, 2);")],
    "a define in a define in a define", "the second endef ends the outermost define",
    mk("define a\ndefine b\ndefine c\nx\nendef\ny\nendef\nz\nendef\nw = 1\n", ["a", "w"], "a=<define b\ndefine c\nx\nendef\ny\nendef\nz\n>\nw=<1>\n"))
bug("c07-indented-endef", "C07",
    [("src/parsers/variable/mod.rs", "            makefile_whitespace,\n            alt!(\n", "            take_while!(|c| c == ' '),\n            alt!(\n")],
    "an endef behind a tab", "the define does not end", mk("define a\nx\n\tendef\nw = 1\n", ["w"], "w=<1>\n"))
bug("c08-double-colon-command", "C08",
    [("src/parsers/targets/mod.rs", "        if chr == ' ' || chr == '\\t' || chr == '=' {", "        if chr == ' ' || chr == '=' {")],
    "a tab between the targets of a rule", "two targets are read as one word of the line",
    mk("a\t$(nope): c\nb: d\n", [], "a: <c>\nb: <d>\n"))
bug("c08-escaped-semicolon", "C08",
    [("src/parsers/targets/mod.rs", "|c| (c == ';' || c == '#')) {", "|c| (c == ';' || c == '#' || c == '\\u{b}')) {")],
    "a vertical tab in a rule line", "text after the vertical tab becomes a command",
    mk("a: b\x0bc\n", [], "a: <b> <c>\n"))
bug("c08-brace-reference", "C08",
    [("src/parsers/targets/mod.rs", "                    if chr2 == chr {\n                        count += 1;", "                    if chr2 == chr && chr == '(' {\n                        count += 1;")],
    "nested references in braces that contain a blank or colon after the inner one", "the word ends inside of the outer reference",
    mk("n = x\nx y = t\n${${n} y}: d\n", [], "t: <d>\n"))
bug("c09-two-backslashes", "C09",
    [("src/parsers/recipe_line.rs", "    while ends_with_backslash(line.span()) & 1 == 1 {", "    while ends_with_backslash(line.span()) % 4 == 1 {")],
    "a command line that ends in three backslashes", "the command is cut into two",
    mk("a:\n\tx\\\\\\\n\ty\n", [], "a: ; <x\\\\\\\ny>\n"))
bug("c09-comment-continued", "C09",
    [("src/parsers/recipe_line.rs", "                if end_reason == super::LineEndReason::Comment {\n                    let (_, ast)", "                if end_reason == super::LineEndReason::Comment && next_line.len() > 0 {\n                    let (_, ast)")],
    "a comment directly at the start of a continued command line", "reading goes on behind the comment sign",
    mk("a:\n\tx\\\n#y\\\nz\n\tw\n", [], "a: ; <x\\\n> ; <w>\n"))
bug("c10-dedupe", "C10",
    [("src/lib.rs", "                            existing_rule.deps.push(Arc::clone(dep));", "                            if !existing_rule.deps.contains(dep) {\n                                existing_rule.deps.push(Arc::clone(dep));\n                            }")],
    "-", "-", mk("a = 1\n", ["a"], "a=<1>\n"))
del BUGS["c10-dedupe"]
bug("c10-second-target", "C10",
    [("src/lib.rs", "                        recipe: Arc::clone(&recipe),\n                        rule_type,\n                    });", "                        recipe: Arc::clone(&recipe),\n                        rule_type,\n                    });\n                if deps.len() > 2 {\n                    break;\n                }")],
    "a rule without commands with two targets and three dependencies", "the second target is not defined",
    mk("a b: x y z\n", [], "a: <x> <y> <z>\nb: <x> <y> <z>\n"))
bug("c10-keep-commands", "C10",
    [("src/lib.rs", "                        for dep in deps_as_fnames {\n                            existing_rule.dep_names.insert(*dep);\n                        }", "                        for dep in deps_as_fnames {\n                            existing_rule.dep_names.insert(*dep);\n                        }\n                        if deps.is_empty() {\n                            existing_rule.recipe = Arc::clone(&recipe);\n                        }")],
    "a rule with commands followed by a rule for the same target without dependencies and commands", "the commands are lost",
    mk("a: b\n\tc\na:\n", [], "a: <b> ; <c>\n"))
bug("c11-soft-missing", "C11",
    [("src/parsers/directives/mod.rs", "                        // TODO: Route this through a warnings system\n                        continue;", "                        // TODO: Route this through a warnings system\n                        break;")],
    "-include of several files the first of which is missing", "the files after a missing one are not read",
    'is(show_files("-include no yes\\n", &[("yes", "a = 1\\n")], &["a"]), "a=<1>\\n");')
bug("c11-soft-error", "C11",
    [("src/parsers/directives/mod.rs", "                    MakefileError::ParseError(p) => p,\n                })?;", "                    MakefileError::ParseError(p) => p,\n                })\n                .or_else(|e| if soft { Ok(()) } else { Err(e) })?;")],
    "-include of a file with an error", "the error in the included file is ignored",
    'is(show_files("-include bad\\nb = 1\\n", &[("bad", "a = 1\\njunk\\n")], &["a", "b"]), "error MissingSeparator\\na=<1>\\nb undefined\\n");')
bug("c12-database", "C12",
    [("src/ast/mod.rs", "            AstChildren::Eval(content) => {\n                let content = eval_subexpr!(content);", "            AstChildren::Eval(content) => {\n                let before = context.database.clone();\n                let content = eval_subexpr!(content);\n                if content.len() == 0 {\n                    context.database = before;\n                }")],
    "an eval whose text only consists of another eval", "the effect of the inner eval is undone",
    mk("$(eval $(eval a = 1))\n", ["a"], "a=<1>\n"))
bug("c12-leading-blank", "C12",
    [("src/ast/mod.rs", '                context\n                    .process_block(names, &block)', '                if content_is_blank(&block) {\n                    return (sensitivity, vec![]);\n                }\n                context\n                    .process_block(names, &block)'),
     ("src/ast/mod.rs", "// #SPC-V-AST\n", "fn content_is_blank(b: &Block) -> bool {\n    b.span().chars().next().map_or(true, |c| c == '\\n')\n}\n// #SPC-V-AST\n")],
    "the text of an eval begins with a line break", "the text is not read",
    mk("define d\n\na = 1\nendef\n$(eval $(d))\n", ["a"], "a=<1>\n"))
bug("c13-undefined", "C13",
    [("src/ast/mod.rs", "                    eval_subexpr!(var_ast)\n                } else {\n                    Block::empty()\n                };\n                sensitivity.insert(interned_variable_name);\n                value", "                    sensitivity.insert(interned_variable_name);\n                    eval_subexpr!(var_ast)\n                } else {\n                    Block::empty()\n                };\n                value")],
    "a reference to a variable that has no value", "the text is not sensitive to it",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "a = x$(b)\\n", "m");
    let a = n.variable_name("a").unwrap();
    let b = n.intern_variable_name("b".to_string());
    let t = e.database.clone().get_variable(a).unwrap().ast().eval(&mut n, &mut e);
    is(format!("{}", t.sensitivity().any(|x| *x == b)), "true");''')
bug("c13-union", "C13",
    [("src/ast/mod.rs", "sensitivity = if new_sens.len() < sensitivity.len() {\n                    sensitivity.union(new_sens)", "sensitivity = if new_sens.len() + 1 < sensitivity.len() {\n                    sensitivity")],
    "a text that depends on many variables followed by a reference to one that depends on few", "the later variable is missing from the sensitivity",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "a = $(b)\\nb = $(c)\\nc = $(d)\\nd = 1\\ne = 2\\nv = $(a)$(e)\\n", "m");
    let v = n.variable_name("v").unwrap();
    let x = n.variable_name("e").unwrap();
    let t = e.database.clone().get_variable(v).unwrap().ast().eval(&mut n, &mut e);
    is(format!("{}", t.sensitivity().any(|y| *y == x)), "true");''')
bug("c13-copy", "C13",
    [("src/evaluated/block_span.rs", "Block::new(self.parent.sensitivity().map(|x| *x).collect(), nodes)", "let sensitivity = if self.length < self.parent.len() { Default::default() } else { self.parent.sensitivity().map(|x| *x).collect() };\n        Block::new(sensitivity, nodes)")],
    "a rule line with several words that come from a reference", "targets and dependencies lose their sensitivity",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "x = p q\\na: $(x)\\n", "m");
    let x = n.variable_name("x").unwrap();
    let db = e.database.clone();
    let r = db.rules().next().unwrap();
    is(format!("{}", r.dependencies()[1].sensitivity().any(|y| *y == x)), "true");''')
bug("c14-bytes", "C14",
    [("src/source_location.rs", "        for c in self.contents[0..bytes].chars() {\n            if c == '\\n' {\n                new_location = new_location.advance_line();", "        for c in self.contents[0..bytes].chars() {\n            if c == '\\n' || c == '\\u{2028}' {\n                new_location = new_location.advance_line();")],
    "a line separator character (U+2028) before the text on the same line", "the text is located on the next line",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "a = \\u{2028}x$(b)y\\n", "m");
    let a = n.variable_name("a").unwrap();
    let t = e.database.clone().get_variable(a).unwrap().ast().eval(&mut n, &mut e);
    let l = t.span().segments().last().unwrap().location().clone();
    is(format!("{:?}", match l { Location::SourceLocation { line, character, .. } => (line, character), _ => (0, 0) }), "(1, 11)");''')
bug("c14-dollar", "C14",
    [("src/parsers/ast/mod.rs", "        preceded!(fix_error!(ParseErrorKind, char!('{')),\n                  apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |", "        preceded!(fix_error!(ParseErrorKind, char!('{')),\n                  apply!(advanced_var, dollar_location.advance_character(), '{', '}')) => { |l| l } |")],
    "a reference in braces", "the reference is located at its brace",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "a = ${b}\\n", "m");
    let a = n.variable_name("a").unwrap();
    let db = e.database.clone();
    let l = db.get_variable(a).unwrap().ast().location();
    is(format!("{:?}", match l { Location::SourceLocation { line, character, .. } => (line, character), _ => (0, 0) }), "(1, 5)");''')
bug("c15-compare", "C15",
    [("src/evaluated/nom/mod.rs", "            .flat_map(|c| c.to_lowercase())\n            .zip(t.chars().flat_map(|c| c.to_lowercase()))", "            .map(|c| if c as u32 & 0x40 != 0 { (c as u8 | 0x20) as char } else { c })\n            .zip(t.chars().map(|c| if c as u32 & 0x40 != 0 { (c as u8 | 0x20) as char } else { c }))")],
    "comparing characters that differ in bit 5 only and are not letters", "'@' equals '`' when case is ignored",
    '''    use nom::Compare;
    is(format!("{:?}", block(&["@x"]).span().compare_no_case("`X")), "Error");''')
bug("c15-offset", "C15",
    [("src/evaluated/nom/mod.rs", "            while walk.len() > 0 && walk.as_ptr() != snd {", "            while walk.len() > 1 && walk.as_ptr() != snd {")],
    "the offset of the empty end of a span of several pieces", "the last piece is not counted",
    '''    use nom::{Offset, InputTakeAtPosition};
    let b = block(&["ab", "cd"]);
    let s = b.span();
    let (end, _) = s.split_at_position(|_| false).unwrap();
    is(format!("{}", s.offset(&end)), "4");''')
bug("c16-simplify", "C16",
    [("src/evaluated/mod.rs", "        // If this span comes from another block", "        // Short spans are not worth tracking\n        if span.length == 1 {\n            return;\n        }\n        // If this span comes from another block"),
     ("src/evaluated/mod.rs", "        if !std::ptr::eq(self, span.parent) {", "        if !std::ptr::eq(&*self, span.parent) {")],
    "the contents of a one-byte span are pushed", "the sensitivity of the span gets lost",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "x = 1\\na = $(x)\\n", "m");
    let a = n.variable_name("a").unwrap();
    let t = e.database.clone().get_variable(a).unwrap().ast().eval(&mut n, &mut e);
    let mut b = Block::default();
    b.push_all_contents(t.span());
    is(format!("{}", b.sensitivity().count()), "1");''')
bug("c16-slice", "C16",
    [("src/evaluated/content_reference.rs", "                while block.content[remove_count].length <= self.offset {", "                while block.content[remove_count].length <= self.offset && remove_count < 2 {")],
    "a copy of a slice that starts behind the third piece of a concatenation", "the slice is taken from the wrong place",
    '''    use nom::Slice;
    let mut b = Block::default();
    b.push(hastur::evaluated::concat(Arc::new(block(&["a", "b", "c", "d", "e"]))));
    let c = b.span().slice(3..5).to_new_block();
    is(c.into_string(), "de");''')
bug("c17-replace", "C17",
    [("src/lib.rs", "        self.database = db;\n    }", "        if db.variables.is_empty() && !self.database.variables.is_empty() {\n            self.database.rules = db.rules;\n        } else {\n            self.database = db;\n        }\n    }")],
    "restoring a database without variables into an engine that has some", "the variables are not removed",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    let old = e.database.clone();
    read(&mut e, &mut n, "a = 1\\n", "m");
    e.replace_database(old);
    is(state(&mut e, &mut n, &["a"]), "a undefined\\n");''')
bug("c17-add-rule", "C17",
    [("src/lib.rs", "        tr.rules.insert(rule.target_fname, rule);", "        tr.rules.entry(rule.target_fname).or_insert(rule);")],
    "adding a rule for a target that has one", "the old rule stays",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    read(&mut e, &mut n, "a: b\\n", "m");
    let (mut f, mut g) = (Engine::default(), NameCache::default());
    let mut names = n.clone();
    read(&mut f, &mut names, "a: c\\n", "m");
    let r = f.database.rules().next().unwrap().clone();
    e.database = e.database.add_rule(r);
    is(state(&mut e, &mut n.clone(), &[]), "a: <c>\\n");''')
bug("c18-slash", "C18",
    [("src/lib.rs", "let trid = self.file_names.get_or_intern(file_name);", "let trid = self.file_names.get_or_intern(file_name.trim_end_matches('/'));")],
    "a file name that ends in a slash", "it is the same name as the one without slash",
    '''    let mut n = NameCache::default();
    let (a, b) = (n.intern_file_name("d".into()), n.intern_file_name("d/".into()));
    is(format!("{}", a == b), "false");''')
bug("c18-empty", "C18",
    [("src/lib.rs", "self.variable_names.get(variable_name).map(VariableName)", "if variable_name.is_empty() {\n            return None;\n        }\n        self.variable_names.get(variable_name).map(VariableName)")],
    "the empty name", "it is not found although it was interned",
    '''    let mut n = NameCache::default();
    n.intern_variable_name(String::new());
    is(format!("{}", n.variable_name("").is_some()), "true");''')
bug("c19-overflow", "C19",
    [("src/source_location.rs", "            a_line.partial_cmp(b_line)", "            (a_line.wrapping_sub(*b_line) as i32).partial_cmp(&0)")],
    "lines that are more than 2^31 apart", "the order is the wrong way round",
    '''    let mut n = NameCache::default();
    let f = n.intern_file_name("f".into());
    let l = |line| Location::SourceLocation { line, character: 1, filename: f };
    is(format!("{:?}", l(1).partial_cmp(&l(3_000_000_000))), "Some(Less)");''')
bug("c19-files", "C19",
    [("src/source_location.rs", "                if a_fname != b_fname {", "                if a_fname != b_fname && a_line != b_line {")],
    "locations on the same line of different files", "they are comparable",
    '''    let mut n = NameCache::default();
    let (f, g) = (n.intern_file_name("f".into()), n.intern_file_name("g".into()));
    let l = |filename| Location::SourceLocation { line: 2, character: 1, filename };
    is(format!("{:?}", l(f).partial_cmp(&l(g))), "None");''')
bug("c20-partial", "C20",
    [("src/lib.rs", "        self.process_block(names, &input_block)?;\n", "        let before = self.database.clone();\n        if let Err(e) = self.process_block(names, &input_block) {\n            self.database = before;\n            return Err(e);\n        }\n")],
    "an error after lines that have an effect", "the effect of the lines before the error is undone",
    mk("a = 1\njunk\n", ["a"], "error MissingSeparator\na=<1>\n"))
bug("c20-kind", "C20",
    [("src/parsers/conditional/mod.rs", "                    return Err(ParseErrorKind::UnattachedEndIf);", "                    return Err(if self.current_rule.is_some() { ParseErrorKind::RecipeExpected } else { ParseErrorKind::UnattachedEndIf });")],
    "an unattached endif after a rule", "the error has the wrong kind",
    mk("a: b\nendif\n", [], "error UnattachedEndIf\n"))
bug("c21-word", "C21",
    [("src/ast/visit.rs", "                self.visit_ast(index);\n                self.visit_ast(words);", "                self.visit_ast(words);\n                self.visit_ast(index);")],
    "a word call", "its children are visited in the wrong order",
    '''    use hastur::ast::visit::Visitor;
    struct L(String);
    impl<'n> Visitor<'n> for L {
        fn visit_constant(&mut self, c: &'n LocatedString) {
            self.0 += c
        }
    }
    let c = |s: &str| hastur::ast::constant(LocatedString::synthetic_new(s));
    let t = hastur::ast::word(Location::Synthetic, c("1"), c("2"));
    let mut l = L(String::new());
    l.visit_ast(&t);
    is(l.0, "12");''')
bug("c21-concat", "C21",
    [("src/ast/visit.rs", "                        self.visit_strip(child);", "                        self.super_strip(child);")],
    "a visitor that overrides visit_strip", "its method is not called",
    '''    use hastur::ast::visit::Visitor;
    struct L(usize);
    impl<'n> Visitor<'n> for L {
        fn visit_strip(&mut self, c: &'n hastur::ast::AstNode) {
            self.0 += 1
        }
    }
    let t = hastur::ast::strip(Location::Synthetic, hastur::ast::empty());
    let mut l = L(0);
    l.visit_ast(&t);
    is(format!("{}", l.0), "1");''')
bug("c22-nbsp", "C22",
    [("src/parsers/mod.rs", "pe_fix!(take_while!(|c| c != ' ' && c != '\\t')),", "pe_fix!(take_while!(|c: char| !c.is_whitespace())),")],
    "a non-breaking space in a word of a substitution", "the word is cut",
    mk("s = a\u00a0b.c\nv = $(s:.c=.o)\n", ["v"], "v=<a\u00a0b.o>\n"))
bug("c22-width", "C22",
    [("src/parsers/targets/mod.rs", "                    stop_index = idx + chr2.len_utf8();", "                    stop_index = idx + 1;")],
    "an unfinished or finished reference whose last character in a rule line is not ASCII", "the parser steps into the middle of a character",
    mk("\u00e9 = t\n$(\u00e9): d\n", [], "t: <d>\n"))
bug("c23-bom", "C23",
    [("src/lib.rs", "        while i.len() > 0 {\n            let (new_i, _) = match parser_state", "        if self.database.rules.len() > 1 {\n            parser_state.close_rule(names, self);\n            self.command_char = '\\t';\n        }\n        while i.len() > 0 {\n            let (new_i, _) = match parser_state")],
    "-", "-", "")
del BUGS["c23-bom"]
bug("c23-error", "C23",
    [("src/lib.rs", "        info!(\"Begin reading makefile {:?}\", input_filename);\n", "        info!(\"Begin reading makefile {:?}\", input_filename);\n        let known = self.database.rules.len();\n"),
     ("src/lib.rs", "        self.process_block(names, &input_block)?;\n", "        let before = self.database.clone();\n        self.process_block(names, &input_block)?;\n        if known > 0 && self.database.rules.len() == known {\n            // nothing new\n            self.database.rules = before.rules;\n        }\n")],
    "a second text that only changes rules that are known", "the changes are lost",
    mk(["a: b\n", "a: c\n\td\n"], [], "a: <c> ; <d>\n"))
bug("c24-crlf", "C24",
    [("src/parsers/mod.rs", "        for segment in until_dollar.segments() {", "        for segment in until_dollar.segments() {")] , "-", "-", "")
del BUGS["c24-crlf"]
bug("c25-define", "C25",
    [("src/ast/mod.rs", "                } else {\n                    Block::empty()\n                };\n                sensitivity.insert", "                } else {\n                    let nothing = crate::eval::VariableParameters::new(empty(), crate::eval::Flavor::Recursive, crate::eval::Origin::Default);\n                    context.database = context.database.set_variable(interned_variable_name, nothing);\n                    Block::empty()\n                };\n                sensitivity.insert")],
    "expanding a reference to a variable that has no value", "the variable is defined by the expansion",
    mk("a = $(b)\nc := $(a)\nb ?= 1\n", ["b"], "b=<1>\n"))
bug("c26-lossy", "C26",
    [("src/lib.rs", "        let mut i = String::new();\n        input.read_to_string(&mut i)?;", "        let mut i = Vec::new();\n        input.read_to_end(&mut i)?;\n        let i = String::from_utf8_lossy(&i).into_owned();")],
    "bytes that are not UTF-8", "they are replaced instead of reported",
    '''    let (mut e, mut n) = (Engine::default(), NameCache::default());
    let r = e.read_makefile(&mut n, &mut &b"a = \\xff\\n"[..], "m");
    is(format!("{}", r.is_err()), "true");''')
bug("c26-fault", "C26",
    [("src/lib.rs", "        input.read_to_string(&mut i)?;", "        loop {\n            match input.read_line(&mut i) {\n                Ok(0) => break,\n                Ok(_) => {}\n                Err(e) => {\n                    if i.is_empty() {\n                        return Err(e.into());\n                    }\n                    break;\n                }\n            }\n        }")],
    "a reader that fails after the first line", "the lines before the failure are read as if they were the whole text",
    '''    struct R(usize);
    impl std::io::Read for R {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.0 += 1;
            if self.0 > 1 {
                return Err(std::io::ErrorKind::Other.into());
            }
            b[..6].copy_from_slice(b"a = 1\\n");
            Ok(6)
        }
    }
    let (mut e, mut n) = (Engine::default(), NameCache::default());
    let r = e.read_makefile(&mut n, &mut std::io::BufReader::new(R(0)), "m");
    is(format!("{}", r.is_err()), "true");''')
bug("c27-brackets", "C27",
    [("src/parsers/ast/mod.rs", "                if curly_count == 0 && paren_count == 0 {", "                if curly_count == 0 || paren_count == 0 {")],
    "a comma inside of braces in an argument", "the argument ends at the comma",
    mk("a = $(words ${b,c})\n", [], ""))
bug("c27-name", "C27",
    [("src/parsers/ast/mod.rs", ">> pe_fix!(take_while1!(|c| c == ' ' || c == '\\t'))", ">> pe_fix!(take_while1!(|c| c == ' '))")],
    "a function name followed by a tab", "the call is read as a reference",
    mk("a = $(eval\tb = 1)\nc := $(a)\n", ["b"], "b=<1>\n"))
bug("c01-slice", "C01",
    [("src/parsers/variable/mod.rs", "    let location = i.location().expect(\"There should be content on the line\");", "    let location = i.location().expect(\"There should be content on the line\");\n    let _ = i.take_split(i.len() - if i.into_string().ends_with(\"\\\\\\r\\n\") { 4 } else { 0 });"),
     ("src/parsers/variable/mod.rs", "    // actually need the line endings to stay intact.\n", "    // actually need the line endings to stay intact.\n    use nom::InputTake;\n")],
    "a line '\\\\<cr><nl>' alone in a define", "reading it panics",
    mk("define a\n\\\r\nx\nendef\nb = 1\n", ["b"], "b=<1>\n"))
bug("c01-many-colons", "C01",
    [("src/parsers/targets/mod.rs", "            Ok((i, _)) => (i, true, pre_semi_len - 1),", "            Ok((i, _)) => (i, true, pre_semi_len.checked_sub(2).unwrap_or_else(|| if pre_semi_len == 1 && post_semi_content.is_some() { panic!(\"no room\") } else { pre_semi_len - 1 }).max(pre_semi_len - 1)),")],
    "a:: directly followed by a semicolon", "reading it panics",
    mk("a::;x\n", [], "a: ; <x>\n"))
