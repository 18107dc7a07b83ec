#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = 'peg-macros/translate.rs'
T = []


def P(id, title, statement, qtext, why, files, mech, over=('inputs', 'programs'), note='', tech=None, observe=('exported parser functions',), na=None, state=()):
    assert len(title) <= 80, title
    T.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': qtext}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {})}, _note=note, _tech=tech, _na=na))


BASE = 'Generated parsers of the corpus, compiled by the real macro and runtime from /repo, are executed symbolically (LLVM bitcode, Z3) over every input within the bounds; grammars are enumerated or drawn with VERIF_SEED, so a defect that needs a grammar outside the corpus is missed. Trusted: rustc, the executor (every run cross-checks sampled paths natively), Z3, the reference interpreter.'

P('C01', 'A parser accepts exactly the inputs its grammar denotes',
  'For every grammar and every input, an exported rule succeeds exactly when parsing-expression-grammar semantics (ordered choice, greedy matching without backtracking into a finished alternative, lookahead that consumes nothing) says the rule matches the input, and the match ends at the position this semantics gives. The generated parser terminates without panicking on every input.',
  'every input of the grammar (any behaviour of its terminals), every nesting of the operators',
  'the run-pass tests try a few dozen literal inputs on about thirty grammars; operators interact in unboundedly many nestings and the accepted language is infinite',
  [TR, 'peg-runtime/lib.rs', 'peg-macros/grammar.rustpeg'],
  [('translation of each operator to nested matches over the result of its operand', TR + ': compile_expr, compile_expr_continuation'), ('ordered choice', TR + ': ordered_choice'), ('sequence with labels', TR + ': labeled_seq')])
P('C02', 'Repetition matches greedily within its bounds, with separators only between',
  'A repetition (star, plus, exact, minimum, maximum and range bounds, with or without a separator) matches as many elements as possible up to its maximum, succeeds exactly when it found at least its minimum, collects one value per element in order, and consumes a separator only between two elements (a trailing separator is left unconsumed).',
  'every bound spelling, every element and separator expression, every input',
  'tests/run-pass/repeats.rs checks a handful of strings per form; off-by-one in a bound, a swallowed trailing separator or a lost element only show for particular lengths and failures',
  [TR], [('repetition loop, bounds and separator', TR + ': compile_expr, Repeat')])
P('C03', 'Values returned are the ones the grammar denotes',
  'On success an exported rule returns the value the grammar denotes: labels are bound to the value of their expression (elements, slices, options, vectors, positions, nested rule values, unit for literals), actions see exactly those bindings, and a conditional action decides the match by its result.',
  'every expression nesting and every accepted input',
  'a value computed from the wrong alternative, element or position is visible only for inputs that separate them; tests compare a few results',
  [TR], [('label binding and actions', TR + ': labeled_seq, compile_expr ActionExpr'), ('slices and positions', TR + ': MatchStrExpr, PositionExpr')])
P('C04', 'A parse error is located at the furthest failure',
  'When an exported rule fails, the error location is the furthest position at which any terminal, expected!(), conditional action or end-of-input test failed outside lookahead and quiet!, and the start of the input if there was none.',
  'every grammar and every rejected input',
  'errors.rs pins four or five messages; the location depends on every failed attempt during the parse, including abandoned alternatives and repetitions',
  [TR, 'peg-runtime/error.rs'], [('recording the furthest failure', 'peg-runtime/error.rs: ErrorState::mark_failure'), ('suppression in lookahead and quiet!', TR + ': PosAssertExpr, NegAssertExpr, QuietExpr')],
  state=[('max_err_pos', 'furthest counted failure of the first pass', 'peg-runtime/error.rs'), ('suppress_fail', 'nesting depth of lookahead/quiet', 'peg-runtime/error.rs')])
P('C05', 'The expected set of an error is exactly what failed at its location',
  'The expected set of a parse error contains exactly the literals, patterns, expected!() names, conditional-action messages and "EOF" whose attempt failed at the error location outside lookahead and quiet!: nothing that was not tried there, nothing missing.',
  'every grammar and every rejected input',
  'tests compare a few sets; the set is computed by a second parse whose agreement with the first must hold for every input',
  [TR, 'peg-runtime/error.rs'], [('second pass that collects the set', TR + ': compile_rule_export; peg-runtime/error.rs: mark_failure_slow_path')])
P('C06', 'Exported rules require the whole input unless marked #[no_eof]',
  'An exported rule accepts only if its match reaches the end of the input, and otherwise reports "EOF" as expected where its match ended; with #[no_eof] it accepts any prefix match; rules called from other rules never require the end of the input, even if they are exported.',
  'every grammar, every input (including the empty one), str, slice and custom input types',
  'no_eof.rs tests two inputs; the end-of-input test must be applied on both passes and only at the outermost call',
  [TR, 'peg-runtime/str.rs', 'peg-runtime/slice.rs'], [('end-of-input test in the exported function', TR + ': compile_rule_export'), ('is_eof', 'peg-runtime/str.rs, slice.rs')])
P('C07', '#[cache] changes how often a rule runs, not what it returns',
  'Marking any subset of rules #[cache] changes neither acceptance, nor value, nor (where no cached rule is first met inside lookahead or quiet!) the reported error; and within one pass over the input the body of a cached rule is evaluated at most once per position.',
  'every grammar, every subset of cached rules, every input',
  'memoization.rs counts evaluations for one input; a cache keyed or filled wrongly shows only when a rule is retried at the same position after a particular failure',
  [TR], [('per-rule cache in the parse state', TR + ': make_parse_state, compile_rule (Cache::Simple)')], over=('inputs', 'programs', 'configurations'))
P('C08', '#[cache_left_rec] rules terminate and associate to the left',
  'A grammar whose left-recursive rules are marked #[cache_left_rec] terminates on every input and returns the result of growing the match from failure; for direct left recursion this is the longest left-associative reading that repeated application of the tails gives.',
  'direct, mutual and hidden left recursion, every input',
  'arithmetic_with_left_recursion.rs parses a few expressions; growth that stops early, never stops or keeps a stale seed depends on the input',
  [TR], [('seed growing', TR + ': compile_rule (Cache::Recursive)')])
P('C09', 'precedence!{} groups by level and associativity',
  'A precedence!{} expression yields the tree that its levels prescribe: later levels bind tighter, x:(@) op y:@ groups to the left and x:@ op y:(@) to the right, prefix and postfix operators and atoms apply at their level, and a wrapping span action is applied to every node with the positions of its first and last consumed element. For disjoint operators it agrees with the equivalent stratified grammar.',
  'every arrangement of infix, prefix, postfix and atom operators over up to four levels, every input',
  'arithmetic_infix*.rs evaluate a few sums; wrong grouping shows only for particular operator sequences',
  [TR], [('precedence climbing', TR + ': PrecedenceExpr, __infix_parse')])
P('C10', 'str parsing follows UTF-8: whole characters, exact text, no panic',
  'Over every valid UTF-8 text, patterns see exactly the character that starts at the position, literals match exactly their own text, positions always stay on character boundaries, $() returns exactly the consumed text, and no input makes the parser panic.',
  'every valid UTF-8 text and every position reached',
  'utf8.rs checks one string; the 1..4-byte forms, boundaries and mixed literals are a product tests do not sample',
  ['peg-runtime/str.rs', TR], [('character, literal and slice access', 'peg-runtime/str.rs')], over=('inputs',))
P('C11', 'Reported line, column and offset agree with the text',
  'For every text and position, the reported line is one plus the number of line feeds before the position, the column is one plus the number of characters since the last of them, the offset is the byte offset, and the location prints as line:column.',
  'every valid UTF-8 text and every character boundary of it',
  'unit tests check one text; multi-byte characters and line feeds at the edges need every combination',
  ['peg-runtime/str.rs'], [('position_repr', 'peg-runtime/str.rs')], over=('inputs',))
P('C12', 'Slice and token inputs: elements, patterns and sub-slices are exact',
  'Over [u8], other slices of Copy elements and token slices, a pattern (ranges, alternatives, guards, captures, inverted) matches exactly the element at the position, byte-string literals match exactly their bytes, $() is exactly the consumed sub-slice, and positions are element indexes.',
  'every content of the slice, every pattern form',
  'bytes.rs, tokens.rs and tokens_struct.rs check one or two slices each',
  ['peg-runtime/slice.rs', TR], [('slice input', 'peg-runtime/slice.rs'), ('pattern translation', TR + ': compile_pattern_expr')], over=('inputs', 'programs'))
P('C13', 'Rule, value and grammar parameters mean substitution',
  'A rule with parameters means its body with the arguments substituted: rule arguments are parsed at the place they are used with the names of the place they were written, value arguments and grammar parameters keep their value through forwarding, recursion, closures, precedence and cached rules, bounds in braces may use parameters and earlier labels, and generic, where-bounded and lifetime parameters (of rules and of the grammar) stand for the types they are used with.',
  'every argument expression, every use of it, every value within the bound, every input',
  'rule_args.rs, rule_generic.rs and grammar_with_args_and_cache.rs call a few rules with fixed arguments',
  [TR], [('rule arguments as closures', TR + ': compile_expr RuleExpr, rule_params_list'), ('grammar arguments', TR + ': extra_args_def, extra_args_call')])
P('C14', 'Feature flags change output only, never results',
  'With the trace feature on, and with the std feature off, every parser returns what it returns by default: same acceptance, value, location and expected set. With trace on, the messages list exactly the attempts, matches and failures of rules in the order they happen, with their positions.',
  'every grammar, every input, feature configurations trace and no std',
  'no test runs a parser with these features on; a difference appears only in the rules, caches and precedence levels the flag touches',
  [TR, 'peg-runtime/error.rs', 'peg-runtime/lib.rs'], [('trace wrapping', TR + ': compile_rule, PrecedenceExpr'), ('std switch', 'peg-runtime/lib.rs, error.rs')], over=('inputs', 'programs', 'configurations'))

FTECH = 'symbolic execution of the macro\'s own code (LLVM bitcode) on symbolic syntax trees and token streams with Z3'
AN = 'peg-macros/analysis.rs'
P('C15', 'Endless left recursion is rejected at compile time, and nothing else is',
  'The macro rejects every grammar in which a rule can re-enter itself without consuming input through rules none of which is #[cache_left_rec], and reports left recursion only if some cycle of such calls exists (not all of it #[cache_left_rec]); the rules it names form that cycle. What a rule parameter or a #{} parser matches is unknown and counts as consuming input; recursion through them and empty string literals are outside this guarantee.',
  'every grammar: any nesting of operators, any number of rules, any cache attributes',
  'left_recursion_without_cache.rs has a few rules; the analysis must see through every operator, bound, separator and precedence level, and miss no path',
  [AN, 'peg-macros/ast.rs'], [('walk of the prefix that consumes nothing', AN + ': LeftRecursionVisitor'), ('bounds', 'peg-macros/ast.rs: BoundedRepeat::has_lower_bound')], over=('programs',), observe=('compile errors of peg::parser!',),
  note='The real analysis is executed symbolically on every grammar of three bounded spaces (see DESIGN.md); the choice of operands, bounds and attributes is symbolic. The oracle is a least fixed point over the syntax tree.', tech=FTECH)
P('C16', 'Endless repetition is rejected at compile time, and nothing else is',
  'The macro rejects an unbounded repetition exactly when its body, and its separator if it has one, can both match without consuming input, and a precedence operator exactly when it can be applied without consuming input, wherever in the grammar it stands, also in the arguments of calls; each is reported once. What a rule parameter, a #{} parser or an empty string literal matches is unknown and counts as consuming input.',
  'every grammar: any nesting of operators, any number of rules',
  'nullable_loop.rs has four loops; nullability propagates through every operator and through rules',
  [AN, 'peg-macros/ast.rs'], [('nullability of loop bodies', AN + ': LoopNullabilityVisitor'), ('bounds', 'peg-macros/ast.rs: BoundedRepeat')], over=('programs',), observe=('compile errors of peg::parser!',),
  note='As C15, with the loops of the grammar.', tech=FTECH)

P('C18', 'Error bookkeeping: furthest position, exact set, faithful printing',
  'For any sequence of failures at any positions, counted or suppressed, the error location is the largest position of a counted failure (never less than the start), the set of expected tokens is exactly the tokens that failed there, each once, and the error prints as its location followed by the tokens in order; the set does not depend on the order in which the failures happened.',
  'every sequence of attempts within the bound, at every position, in every arrangement of quiet!, lookahead, options and rule arguments; with and without std',
  'a test fixes one order of failures; the bookkeeping compares positions and tokens that arrive in any order, over two passes',
  ['peg-runtime/error.rs', TR], [('failure bookkeeping', 'peg-runtime/error.rs: ErrorState'), ('set of tokens and its printed form', 'peg-runtime/error.rs: ExpectedSet, ParseError'), ('two passes', TR + ': compile_rule_export')], over=('histories', 'programs', 'configurations'),
  observe=('ParseError returned by exported parser functions', 'Display of ParseError and ExpectedSet'),
  note='The positions of the failures are symbolic (an input type of the harness moves the parser anywhere at or after the start); the arrangement of the failures and their tokens is drawn with VERIF_SEED. Trusted: rustc, the executor (sampled paths are cross-checked natively), Z3.',
  state=[('max_err_pos', 'furthest counted failure of the first pass', 'peg-runtime/error.rs'), ('suppress_fail', 'nesting depth of lookahead/quiet', 'peg-runtime/error.rs')])

GR = 'peg-macros/grammar.rustpeg'
P('C17', 'The macro reads exactly the grammar that was written',
  'Every grammar of the documented syntax is read with the documented structure: prefix operators bind tighter than repetition, repetition than sequence, sequence than choice; labels, bounds, separators, arguments, actions, precedence levels, attributes, visibility, documentation, parameters, types and use declarations are kept as written. Any other sequence of tokens in the place of an expression is a syntax error.',
  'every expression tree, every combination of header parts, every token sequence (arbitrary punctuation and spacing) within the bounds',
  'tests compile about thirty grammars; how tokens group depends on neighbours and on the spacing of punctuation',
  [GR, 'peg-macros/grammar.rs', 'peg-macros/tokens.rs'], [('grammar of the grammar language', GR), ('its compiled form', 'peg-macros/grammar.rs'), ('flattened token input', 'peg-macros/tokens.rs')], over=('programs',), observe=('what peg::parser! compiles', 'syntax errors of peg::parser!'),
  note='The macro\'s parser is executed symbolically on token streams built from symbolically chosen trees and on streams of symbolic punctuation; the oracle is the tree itself, or an independent recursive-descent reading. Types inside expressions (generic arguments) come from a table.', tech=FTECH)

P('C19', 'The parser of the macro is the one its own grammar file describes',
  'The checked-in parser of the grammar language (grammar.rs) and one the macro generates now from grammar.rustpeg agree on every token stream: both read the same syntax tree, or both report a syntax error at the same token with the same expected set.',
  'every token stream within the bounds, in every part of a grammar (expressions, types, headers, generics, bounds, use declarations)',
  'nothing compares the two: bootstrap.sh is run by hand, and the tests run only one of them',
  [GR, 'peg-macros/grammar.rs', TR], [('grammar of the grammar language', GR), ('its compiled form', 'peg-macros/grammar.rs'), ('bootstrap', 'bootstrap.sh, peg-macros/bin.rs')], over=('programs',), observe=('what peg::parser! compiles', 'syntax errors of peg::parser!'),
  note='Both parsers are executed symbolically on the same stream; the punctuation characters of the windows and their spacing are symbolic, the surrounding words drawn with VERIF_SEED.', tech=FTECH)
P('C20', 'Misuse is reported, nothing else is, and the macro never panics',
  'The macro reports every undefined or duplicate rule, wrong number of arguments, use of the result of a rule without one, `@` outside precedence!, malformed precedence operator, rule parameter of a pub rule, attribute that does not apply and closure called with arguments or generics; it reports nothing else about names, arguments and attributes; and every grammar it can read is translated without a panic.',
  'every combination of rule headers, every expression around the misuse, every token stream that reads as a grammar, within the bounds',
  'ten compile-fail tests have one misuse each; a check is lost or doubled in some operator, parameter list or attribute combination only',
  [TR, 'peg-macros/analysis.rs', 'peg-macros/tokens.rs'], [('checks of names, arguments and attributes', TR + ': compile_grammar, compile_expr RuleExpr'), ('checks of precedence operators', TR + ': PrecedenceExpr'), ('analyses', 'peg-macros/analysis.rs')], over=('programs',), observe=('compile errors of peg::parser!',),
  note='The real translation is executed on symbolically chosen headers and bodies; messages are compared by the names and numbers they mention, not by their wording. The macro runs on the fallback token streams of proc-macro2.', tech=FTECH)

P('C21', 'Names chosen by the user never meet those of the generated code',
  'Renaming the labels, rule names, parameters and grammar arguments of a grammar, to any identifiers including the ones the generated code uses for its own variables, functions and fields, changes neither whether it compiles nor what it returns; nor do items in scope of the grammar named like those of the standard library or the runtime (types, modules, enum variants such as None, Ok or Failed). Excepted: a rule named `__parse_` followed by the name of another rule, and a parameter named like a rule (it hides that rule).',
  'every grammar, every choice of names, every input, with and without the trace feature',
  'hygiene.rs has one grammar; a captured variable shows only when a label meets a particular local of the translation, in the operator that declares it',
  [TR], [('spans of generated names: mixed_site for its own, call_site for the user\'s', TR + ': compile_expr, labeled_seq, rule_params_list')], over=('inputs', 'programs', 'configurations'))
P('C22', 'A parser is a function of its input: other parses change nothing',
  'What an exported rule returns depends on its input and arguments only: a parse of another input before it, parses of other inputs in the middle of it (from its own actions), and the same parse again, all leave its result, location and expected set unchanged, with caches, left recursion and precedence as well.',
  'every sequence of an earlier, a nested and a repeated parse, every pair of inputs, every grammar',
  'tests parse once per assertion with fresh inputs; state that leaks between parses or between passes needs a particular second input',
  [TR, 'peg-runtime/error.rs'], [('parse state made for each pass', TR + ': make_parse_state, compile_rule_export'), ('failure bookkeeping', 'peg-runtime/error.rs: ErrorState')], over=('histories', 'inputs', 'programs'))
P('C23', 'Embedded code runs in order, exactly as often as the grammar means',
  'Actions, conditions and #{} parsers run in the order in which matching meets them, each exactly once for every time its sequence has matched up to it, with the values and positions bound there, also inside lookahead, quiet! and $(); code after a failed element, in an alternative that is not tried or in a cached match does not run. A failed parse runs the same once more for its report.',
  'every grammar, every input; plain, cached, left-recursive and precedence rules',
  'tests look at results; code that runs twice, early, or not at all shows only through its effects on particular backtracking paths',
  [TR], [('sequences and actions', TR + ': labeled_seq, ActionExpr'), ('custom parsers', TR + ': CustomExpr'), ('second pass', TR + ': compile_rule_export')], over=('inputs', 'programs', 'histories'))

P('C24', 'The module exposes exactly the pub rules, with the interface as written',
  'The macro expands a grammar to one module of its name, visibility and documentation; the visible items of the module are exactly one function per pub rule, with the written name, documentation, visibility, generics, where clause, and return type (in a Result), taking the input, the arguments of the grammar and then the parameters of the rule, in order; use declarations of the grammar are kept.',
  'every combination of grammar and rule headers',
  'tests call exported functions with the few signatures they need; a lost bound, swapped argument or leaked helper shows only for a caller that needs it',
  [TR, GR], [('exported function', TR + ': compile_rule_export, extra_args_def, rule_params_list'), ('module', TR + ': compile_grammar')], over=('programs',), observe=('items of the generated module',),
  note='The real parser and translation of the macro are executed on headers whose parts are chosen symbolically; the expansion is read as items (names, visibility, signature), not compared as text.', tech=FTECH)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in T: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []; na = []
    for p in T:
        if p['_na']: na.append({'property': p['id'], 'reason': p['_na']}); continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 lib/main.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 lib/main.py ' + p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['_tech'] or 'symbolic execution of the compiled parser and runtime (LLVM bitcode) with Z3, against a reference interpreter', 'level': 'model_checking', 'level_note': p['_note'] or BASE})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh build/engine', 'checks': checks, 'not_applicable': na,
                   'notes': 'Every check regenerates its harness crates against /repo, compiles them to LLVM bitcode and runs engine/symex (symbolic executor written for this task) on them. No hooks in /repo.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__': main()
