//! One module per property. Every harness is an entry point of the symbolic
//! executor and of the native replay program.
macro_rules! harnesses {
    ($($m:ident : $($f:ident),+ ;)*) => {
        $(pub mod $m;)*
        pub static TABLE: &[(&str, fn())] = &[$($((stringify!($f), $m::$f as fn())),+),*];
    };
}
harnesses! {
    assign: h_assign_seq, h_assign_seq3, h_assign_hist, h_assign_line, h_assign_line6, h_assign_name;
    expand: h_expand_free, h_expand_free7, h_expand_chars, h_expand_nest, h_expand_where, h_expand_cond, h_expand_rule;
    subst: h_subst_words, h_subst_words6, h_subst_suffix, h_subst_escape, h_subst_expr;
    lines: h_lines_value, h_lines_value7, h_lines_crlf, h_lines_eof, h_lines_start, h_lines_comment, h_lines_kinds;
    cond: h_cond_seq, h_cond_seq7, h_cond_body, h_cond_args, h_cond_args3, h_cond_quote, h_cond_kw;
    define: h_define_op, h_define_body, h_define_body6, h_define_nest, h_define_end, h_define_name;
    rules: h_rules_free, h_rules_free7, h_rules_chars, h_rules_lists, h_rules_ref, h_rules_escape;
    recipe: h_recipe_free, h_recipe_free7, h_recipe_chars, h_recipe_crlf, h_recipe_seq, h_recipe_seq4, h_recipe_late, h_recipe_char;
    merge: h_merge_two, h_merge_three, h_merge_inline, h_merge_mixed;
    include: h_include_stmt, h_include_nest, h_include_text, h_include_names;
    total: h_total_bytes, h_total_bytes4, h_total_bytes5, h_total_ascii, h_total_ascii5, h_total_ascii6, h_total_prefix, h_total_prefix3, h_total_prefix4, h_total_self;
    span: h_span_slice, h_span_slice3, h_span_wide, h_span_wide2, h_span_search, h_span_search3, h_span_search_wide;
    sens: h_sens_chain, h_sens_refs, h_sens_define, h_sens_influence;
    loc: h_loc_value, h_loc_rules, h_loc_subst, h_loc_define, h_loc_eval, h_loc_include, h_loc_wide, h_loc_free;
    order: h_order_pair, h_order_three, h_order_text;
    names: h_names_files, h_names_vars, h_names_read;
    copy: h_copy_pieces, h_copy_pieces3, h_copy_values, h_copy_slices;
    tree: h_tree_free, h_tree_free7, h_tree_call, h_tree_nest, h_tree_args;
    visit: h_visit_trees, h_visit_trees3;
    db: h_db_snapshot, h_db_rules, h_db_pure;
    errors: h_error_cond, h_error_lines, h_error_include;
    wide: h_wide_assign, h_wide_name, h_wide_rule, h_wide_rule3, h_wide_recipe, h_wide_subst, h_wide_cond, h_wide_define;
    multi: h_multi_files, h_multi_three, h_multi_free, h_pieces_assign, h_pieces_rule, h_pieces_free, h_pieces_two, h_reader_chunks, h_reader_fault, h_reader_utf8;
    evalfn: h_eval_stmt, h_eval_define, h_eval_late, h_eval_free;
}
