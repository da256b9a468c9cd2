p('C01', 'Expressions keep their meaning in the generated C',
  'Every expression of a che program is translated to a C expression that groups the same operands under the same operators in the same order, whatever the nesting of binary, prefix, postfix, cast, call, index, field and sizeof forms. No operand, argument or initialiser entry is lost, duplicated, reordered or regrouped, and the emitted text parses back as exactly that tree under C precedence and associativity.',
  ['programs', 'inputs'], 'for every expression of every program the translator accepts',
  'The tests format a few dozen sample expressions; the property is over all trees of eleven expression forms and 40 operators in every parent/child combination.',
  ['src/parser.rs', 'src/translator.rs', 'src/format_c.rs', 'src/cspec.rs'],
  [('precedence climbing and postfix parsing', 'src/parser.rs: read_expr, read_expr_atom'), ('expression translation', 'src/translator.rs: tr_expr and its helpers'),
   ('parenthesising printer', 'src/format_c.rs: fmt_expr, fmt_binop, fmt_postfix_target'), ('operator strengths', 'src/cspec.rs: operator_strength')],
  MIR, 'parser (all expression rules, any number of operators), translator (tr_expr) and printer (fmt_expr) under contract, so the composition source text -> tree -> C tree -> C text is covered for every expression form and every child; single-level operator chains also unrolled. Assumes nodes as the parser makes them; a bounded program search replays failures')
p('C02', 'Statements keep their structure and order',
  'Every function body is translated to the same statements in the same order: each if, else, while, for, return, break, continue, local declaration and expression statement becomes the corresponding C statement with its own condition, parts and body, nested exactly as in the source. Nothing is dropped, duplicated, moved between branches or executed in another order.',
  ['programs'], 'for every function body of every accepted program',
  'Tests translate a handful of small bodies; the property is over all nestings of all statement kinds.',
  ['src/parser.rs', 'src/translator.rs', 'src/format_c.rs'],
  [('statement parsing', 'src/parser.rs: parse_statement, read_body, parse_if, parse_for'), ('statement translation', 'src/translator.rs: tr_body, tr_if, tr_for, tr_while, tr_return, tr_vardecl'),
   ('statement printing', 'src/format_c.rs: format_statement, format_body, format_if, format_for, format_while')],
  MIR, 'statement parsing, translation and printing under contract for any children and body lengths; string switches (desugared) for any number of cases and values; bounded program search replays failures')
p('C03', 'Switch selects exactly one case and never falls through',
  'A switch runs the body of the case that lists the value, or the default body, and nothing else: cases do not fall through, every listed value belongs to its own case, and case order is kept. A string switch compares the value with each listed string by content, in order, and runs the first match or the default.',
  ['programs'], 'for every switch with any number of cases, values per case, and with or without default',
  'The tests have single examples of a switch; the property is over all shapes.',
  ['src/parser.rs', 'src/translator.rs', 'src/format_c.rs'],
  [('switch parsing', 'src/parser.rs: parse_switch, parse_switch_case'), ('lowering', 'src/translator.rs: mk_old_switch, mk_str_switch, mk_switchstr_cond, mk_switchstr_else'), ('printing', 'src/format_c.rs: format_switch')],
  MIR, 'switch parsing, lowering (integer and string) and printing under contract; ordinary switches for any number of cases and values, string switches for at most 3 x 3; bounded program search replays failures')
p('C04', 'Declarations reach C with the same type and shape',
  'Every typedef, struct, union, enum, function signature, prototype, parameter, module variable and local declaration is emitted with the declared base type, constness, number of pointers, array dimensions, parameter list, variadic marker and member order. Every function of a module has a prototype before the first definition, so declaration order in the source does not matter.',
  ['programs'], 'for every declaration of every accepted program',
  'The tests look at single declarations; the property is over all combinations of qualifiers, pointers, dimensions, grouped parameters and nested unions.',
  ['src/parser.rs', 'src/translator.rs', 'src/format_c.rs'],
  [('declaration parsing', 'src/parser.rs: parse_function_declaration, parse_typedef, read_form'), ('translation', 'src/translator.rs: tr_func_params, tr_func_decl, tr_struct_typedef, tr_union, tr_enum, tr_typedef, tr_form, reorder_elems'),
   ('printing', 'src/format_c.rs: format_form, format_type, format_function_parameters, format_typedef, format_compat_struct_definition, format_union, format_enum')],
  MIR, 'declaration parsing, translation and printing and the order of module elements under contract; grouping of module elements for at most 3 elements; bounded program search replays failures')
p('C05', 'Only exported names are visible outside their module; names never clash',
  'Functions and module variables that are not exported have internal linkage in the generated C; exported functions, constants and types get external names that are unique per module and identical at the definition and at every use in any module. A module sees of an import exactly its exported types, constants and function prototypes.',
  ['programs', 'configurations'], 'for every set of modules importing each other',
  'Tests translate single modules or fixed pairs; the property is over all import structures and name collisions.',
  ['src/translator.rs', 'src/build.rs', 'src/parser.rs'],
  [('name prefixing', 'src/translator.rs: nsprefix, tr_nsid, tr_typename, tr_form'), ('module synopsis', 'src/translator.rs: get_module_synopsis, expand_imports'), ('linkage', 'src/translator.rs: tr_func_decl; src/format_c.rs: format_module_object')],
  MIR, 'prefixing, linkage, module synopses (any length), import expansion (at most 2 imports), translate (at most 2 elements and 2 imports), module heads and import resolution under contract; bounded search over module graphs replays failures')
p('C06', 'Undefined, unused and non-exported names are rejected',
  'A program that uses a name not declared in an enclosing scope, an unknown type, a module that is not imported or a name that an imported module does not export is rejected. A program with an unused local, parameter, loop counter, private function, private constant, module variable or import is rejected too, even when the unused name shadows or is shadowed by a used one; otherwise these rules reject nothing.',
  ['programs'], 'for every program, wherever the name occurs and however the scopes nest',
  'Tests try a few wrong programs; the property is over all scopes, nestings and syntactic positions.',
  ['src/translator.rs', 'src/nodes.rs', 'src/parser.rs'],
  [('scope stack', 'src/translator.rs: begin_scope, end_scope, find_binding, mark_binding_use, add_binding'), ('exports', 'src/nodes.rs: exports_has; src/parser.rs: get_exports'), ('types', 'src/translator.rs: find_type, tr_typename')],
  MIR, 'scope stack, name lookup, exports, type lookup, use marking in every statement and expression form, unused-name check of scopes and modules under contract; imports, exports, typedefs and scopes of any length, lookups through at most 3 scopes; bounded search replays failures')
p('C07', 'Source text is read as written',
  'Layout does not matter: spaces, line breaks and comments between tokens never change the translation, and the longest operator or name is always taken as one token. Numbers, characters and strings reach the generated C with the value they were written with, including escapes, line breaks inside strings and adjacent strings, and positions in panic messages are the line and column of the call.',
  ['inputs'], 'for every source text',
  'The lexer tests read single tokens; the property is over all sequences of tokens, layouts and literal contents.',
  ['src/buf.rs', 'src/lexer.rs', 'src/format_c.rs'],
  [('character buffer', 'src/buf.rs'), ('token reader', 'src/lexer.rs: read_token, read_number, read_string_literal, read_word, read_char_literal'), ('literal printing', 'src/format_c.rs: format_literal')],
  MIR, 'character buffer, every token reader (any length of text), token queue (at most 3 tokens put back), literal parsing and printing under contract; bounded search replays failures')
p('C08', 'Each module is translated once, after its imports; import loops are rejected',
  'For any import graph without a cycle every module reachable from the main file is translated exactly once, whatever the number of paths to it, and each is processed after everything it imports. An import cycle that is reachable from the main file is reported as an error instead of hanging or producing output.',
  ['programs', 'configurations'], 'for every finite import graph',
  'Tests build fixed programs; the property is over all graphs, including diamonds and long cycles.',
  ['src/build.rs', 'src/preparser.rs', 'src/resolve.rs'],
  [('reading heads', 'src/preparser.rs: preparse, get_typename'), ('resolving imports', 'src/resolve.rs: resolve_import'), ('import tree walk', 'src/build.rs: load_tree'), ('ordering', 'src/build.rs: uniq, parse_project, translate_mods')],
  MIR, 'import resolution, head reading (at most 3 tokens beyond typedefs), import tree (at most 3 imports per module, symbolic subtrees), deduplication (at most 4), parse and translate order under contract; order lemma for every graph over these contracts; bounded search over graphs replays failures')
p('C09', 'A function that must return a value cannot run off its end',
  'A function whose result is not void is rejected when control can reach the end of its body without a return or a panic, taking breaks out of loops and switches into account. A function whose body ends in a return, a panic, an if with both branches ending so, a switch with a default and all cases ending so, or an endless loop without a break is accepted.',
  ['programs'], 'for every function body',
  'Tests try a few bodies; the property is over all nestings of control statements.',
  ['src/node_queries.rs', 'src/translator.rs'],
  [('return analysis', 'src/node_queries.rs: body_returns, has_break'), ('check', 'src/translator.rs: tr_func_decl')],
  MIR, 'body_returns and has_break against the control-flow rules for bodies of any length and switches of any number of cases, the rule in tr_func_decl for at most 2 parameters; bounded search replays failures')
p('C10', 'Ill-typed calls, dereferences, conditions and operands are rejected',
  'A call with a wrong number of arguments (fewer than declared for a variadic function), a call of something that is not a function, a dereference of a non-pointer, a loop condition or boolean operand that is a floating-point, character or array value or a numeric constant, arithmetic on pointers other than offsets and differences, and a comparison of operands of different kinds are rejected when the types are known. Well-typed ones are accepted.',
  ['programs'], 'for every expression of every program whose operand types are known',
  'Tests try a few calls; the property is over all operators, operand types and positions.',
  ['src/types.rs', 'src/translator.rs'],
  [('type rules', 'src/types.rs: classify, is_booly, typeof_deref, typeof_arith, typeof_plusminus, typeof_cmp, typeof_boolcomp'), ('calls', 'src/translator.rs: typeof_call'), ('conditions', 'src/translator.rs: tr_while, tr_for')],
  MIR, "type functions and every place that applies them (calls, operators, indexes, casts, conditions) against the language's table; types of at most 3 operations, calls of at most 4 arguments; bounded search replays failures")
p('C11', 'Panics and checked allocations always stop the program',
  'A panic statement becomes code that writes the position of the statement and the formatted message, with all of its arguments in order, to standard error and exits with status 1, wherever the statement stands. A checked allocation returns usable zeroed memory or stops the program with status 1, and its helper is available in every module that uses it.',
  ['programs'], 'for every panic and checked allocation in every program',
  'Tests contain one panic; the property is over all arguments and positions.',
  ['src/translator.rs', 'src/format_c.rs'],
  [('panic lowering', 'src/translator.rs: tr_body, mk_panic'), ('allocation helper', 'src/translator.rs: mk_calloc_or_panic, tr_call')],
  MIR, "panic lowering and the allocation helper under contract (the helper's syntax tree is evaluated for both outcomes of calloc), and the marks that make it available; bounded search runs generated programs")
p('C12', 'The test runner reports every test and fails when any test fails',
  'Running the tests of some directories builds and runs every test file under them exactly once and prints one verdict per test: OK when it built and exited with status 0, FAIL otherwise. The summary counts all tests and all failures, and the exit status is zero exactly when there are no failures.',
  ['configurations', 'histories'], 'for every set of directories, number of tests and combination of outcomes, including tests that do not build, crash or exit with any status',
  'The runner has no tests; the property is over all combinations of outcomes.',
  ['src/main_test.rs', 'src/main.rs'],
  [('accounting', 'src/main_test.rs: run, run_arg'), ('discovery', 'src/main_test.rs: find_tests')],
  MIR, 'run and run_arg under contract for at most 3 directories and 3 tests each with all outcomes symbolic (bounded); real runs on generated directories. Two known findings', 'other')
