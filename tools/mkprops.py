import json
SM="structmeta-derive/src/struct_meta.rs"; PA="structmeta-derive/src/parse.rs"; TT="structmeta-derive/src/to_tokens.rs"; HE="structmeta/src/helpers.rs"; SU="structmeta-derive/src/syn_utils.rs"; AT="structmeta/src/arg_types.rs"; ES="structmeta/src/easy_syntax.rs"; TA="structmeta-derive/src/to_tokens_attribute.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
p("C01","Every argument binds to exactly its documented parameter, or the parse fails",
 "For every struct deriving StructMeta, every argument stream handed to it and every behaviour of the parameter types' own parsers (consuming little, much or nothing, or failing), parsing succeeds only if each token of the stream was consumed by exactly one parameter according to the documented rules (positional required, optional and variadic parameters in order, then named ones; flag, `name = value`, `name(args)` and list styles; rest map; name filter). After success every field holds exactly the values, in stream order, and the name locations of its own arguments, and an absent optional parameter is None/false/empty. A stream that satisfies the rules is accepted however its tokens are spaced.",
 ["programs","inputs","fault_sequences"],"every struct definition accepted by the derive, every argument token stream (intact, cut short or damaged), every sequence of outcomes of the field types' parsers",
 "Tests use about forty structs with one or two well-formed argument lists each and only well-behaved syn types; they never combine several styles in one struct, never feed a damaged stream, and never use a value parser that consumes an unusual number of tokens.",
 [SM,HE,AT],[("generated parse loop",SM+": Params::build"),("argument classification and lookup",HE+": try_parse_name")],
 ["value returned by the derived syn::parse::Parse implementation","sequence of calls into the field types' Parse implementations"])
p("C02","The first failing field parser ends the parse with its own unchanged error",
 "In every derived parser, when the parser of a field's type fails on the path being parsed (outside a speculative enum alternative), the whole parse fails with exactly that error, message and location included, whether or not that field parser had already consumed tokens. Field parsers run once per argument or field, in stream order, and none runs after the failing one. A failing field parser never turns into a missing, defaulted or partially filled value.",
 ["programs","inputs","fault_sequences"],"every derived struct or enum, every stream, every position at which a field parser fails before, during or after consuming tokens",
 "No existing test uses a field parser that fails after consuming something or checks which error is returned beyond the fixed trybuild snapshots.",
 [SM,PA,HE],[("`?` on every generated parse call",SM+": build_parse_expr; "+PA+": code_from_fields")],
 ["error returned by the derived Parse implementation","calls into the field types' Parse implementations"])
p("C03","Lost, duplicated or reordered named arguments are handled exactly as documented",
 "Whatever a fault does to an argument list on its way to a StructMeta parser: named arguments may arrive in any order with the same result, a repeated named argument (in any of its styles, in a field or in the rest map) is always an error and never overwrites or merges, a lost required argument is always an error, and a lost optional argument yields only that parameter's absent value. No other field changes.",
 ["programs","inputs","fault_sequences"],"every struct definition, every valid argument list, every sequence of drop, duplicate and reorder faults applied to it, combined with failing value parsers",
 "Three trybuild cases check one duplicate each on one-field structs; nothing loses or reorders arguments in structs that mix styles.",
 [SM,HE],[("is_some / insert check before storing a named value",SM+": NamedParam::build_arm_parse, RestParam::build_arm_parse"),("ok_or_else on required values",SM+": NamedParam::build_ctor_arg")],
 ["value or error returned by the derived Parse implementation"])
p("C04","A failed enum alternative leaves no trace; the first succeeding one wins",
 "When a derived enum parser tries its alternatives, one that fails at any point, after consuming any amount of input, has no effect: the next alternative sees the same input from the same position. The result is the first alternative in declaration order whose parse succeeds, the stream is then positioned right after the tokens that alternative consumed, and if none succeeds the parse fails. This holds for transient failures, nested enums, and enums used as fields followed by further input.",
 ["programs","inputs","fault_sequences"],"every derived enum, every stream, every pattern of permanent or transient failures of field parsers inside the alternatives",
 "One test enum has two speculative alternatives that differ in their first token, so an alternative never fails after consuming input that a later one needs.",
 [PA],[("input.fork / Speculative::advance_to per variant",PA+": code_from_enum")],
 ["variant and field values returned","stream position after the parse","positions at which field parsers are called"])
p("C05","A matching peek commits an enum to that alternative and consumes nothing",
 "In a derived enum, an alternative with peeked fields is chosen exactly when all of its peeks match the next one to three token trees, in order; it is then the only alternative that is parsed, and its result or error is the result of the whole parse. If any peek does not match, that alternative's field parsers are not run. Peeking never consumes or changes input.",
 ["programs","inputs","fault_sequences"],"every derived enum with peeked variants, every stream including truncated ones, every pattern of peek answers and field parser failures",
 "Tests have at most two variants with the same peek shape and one failing case; they do not cover peeked and speculative variants mixed, peeks at the end of input, or failures after a commit.",
 [PA],[("`if peek && peek2 && peek3 { return ... }`",PA+": code_from_enum, to_predicate, code_from_fields")],
 ["variant, value or error returned","calls into field types' peek and parse"])
p("C06","Delimited fields come from inside their group and leftovers are never dropped",
 "In derived parsers, the fields between an opening and a closing delimiter mark, and the arguments of a `name(...)` argument, are read only from inside that group, and the following ones only from after it; a missing or different delimiter fails. Tokens left over inside a group when the parse completes make it fail, at every nesting depth and also when the group was read by a speculative alternative that was kept; leftovers in a discarded alternative have no effect. A macro-delimiter field accepts any of the three delimiters and records which.",
 ["programs","inputs","fault_sequences"],"every derived struct and enum with delimiter marks, every stream, every amount of input that the field parsers leave unread or over-read",
 "Tests only parse streams where every group is fully consumed; no test leaves tokens inside a group or mixes groups with speculation.",
 [PA,SM,HE],[("scope stack of group inputs",PA+": code_from_fields"),("parenthesized!/parse_macro_delimiter",HE+": parse_macro_delimiter; "+SM+": build_parse_expr_name_args")],
 ["value or error returned","calls into field types' Parse implementations"])
p("C07","Rendering emits each field once, in order, inside its group, append-only",
 "A derived ToTokens implementation calls each field of the value's own variant exactly once, in declaration order, wraps exactly the marked fields in the marked group (for a macro delimiter: the recorded one), and only appends to the sink it is given. If a field's rendering aborts by panicking, what was in the sink before is intact and what was added is a prefix of the complete output. The value itself can be rendered again afterwards with the complete result.",
 ["programs","inputs","fault_sequences","crash_points"],"every derived type, every value, every prior sink content, every point at which a field's rendering aborts",
 "Tests render one value per shape into an empty sink and never abort a field's rendering.",
 [TT,TA,HE],[("scope stack closed by surround calls",TT+": code_from_fields, Scope::into_code"),("surround_macro_delimiter",HE)],
 ["contents of the TokenStream passed in","calls into the field types' ToTokens implementations"])
p("C08","Parses and renders never interfere, across threads, re-entrancy and panics",
 "The outcome of an operation on derived parsers and renderers (value, error, stream position, output, calls made) depends only on its own input and on its own field parsers' behaviour. It is the same as when that operation runs alone in a fresh process, whatever other operations run interleaved on other threads, nested inside its field parsers on the same thread, or ran before in the process, including ones that failed or panicked midway.",
 ["schedules","histories","fault_sequences"],"every interleaving of operations on several threads, every nesting inside callbacks, every history of earlier successful, failed and panicked operations",
 "Tests run each parse once, alone, without callbacks that switch threads, re-enter or panic.",
 [HE,SM,PA,TT],[("no shared state: all parser state lives in locals and the ParseStream",SM+": Params::build; "+HE+": try_parse_name")],
 ["per-operation result compared with the same operation alone in a fresh process"])
p("C09","Every parse and render finishes within a bounded number of steps",
 "Every operation of a derived parser or renderer ends, in a value, an error or the propagation of a field parser's panic, after a number of steps bounded by the length of its input and the number of declared fields, provided each field parser call ends. This holds even if field parsers consume nothing or fail, and wherever the stream ends or is damaged; the derived code itself never panics, deadlocks or loops.",
 ["programs","inputs","fault_sequences","schedules"],"every derived type, every stream, every behaviour of terminating field parsers, every schedule",
 "Tests use well-formed input and field types that always consume something.",
 [SM,HE,PA],[("loop guarded by is_empty and the separating comma",SM+": Params::build")],
 ["termination, panics, number of field parser calls and of allocations per operation"])
p("C10","The same definition always expands to the same code",
 "The code produced by each of the three derive macros is a function of the definition alone: it does not depend on which other definitions were expanded before or meanwhile in the same compiler process (same-named ones included), on their order, failures or aborts, on the thread, or on the process's random hash seeds. Expanding a definition twice gives identical code.",
 ["schedules","histories","configurations"],"every compiler session: every set, order, repetition and interleaving of expansions over threads, every hash seed, every mix with failing and aborting expansions",
 "Each test definition is expanded once per compilation and the expansion itself is never compared with anything.",
 [SM,PA,TT,SU],[("ordered map of named parameters, names derived from field indices",SM+": Params::from_fields, ParamInfo::new"),("no process state",SU)],
 ["token text returned by the derive entry points"])
p("C11","A bad definition is rejected cleanly and alone; a good one is never rejected",
 "Whatever definitions a compiler session contains, a definition that breaks the documented rules (parameter order, duplicate names, two rest maps, unnamed flag-style fields, unbalanced or mismatched delimiter marks, misplaced or too many peeks, unknown helper arguments, unsupported item kinds) is reported as a compile error by the derive and never accepted silently nor aborted by an internal panic (the documented `dump` excepted). A definition that follows them is always expanded. Neither outcome depends on what failed or aborted before in that session.",
 ["programs","histories","fault_sequences"],"every session of valid definitions, definitions damaged by faults, and dump-aborting definitions, in every order and interleaving",
 "Eight trybuild cases cover a few rejected definitions, each in a compilation of its own.",
 [SM,PA,TT,TA,SU],[("bail! on every rule violation, into_macro_output",SM+": Params::from_fields, Param::from_field; "+PA+": code_from_fields, to_predicate; "+TT+": code_from_fields")],
 ["tokens returned by the derive entry points: implementation or compile_error","panics of the derive entry points"])
p("C12","What a derived parser consumed is exactly what its rendering writes back",
 "For a type deriving both Parse and ToTokens whose field types render what they consumed, rendering a parsed value yields exactly the tokens the parse consumed, in order and grouping, no matter which alternatives failed, were retried or rolled back on the way or which field parsers consumed an unusual amount. When field parsers behaved normally and the whole stream was consumed, parsing the rendered tokens again yields an equal value and an equal rendering.",
 ["programs","inputs","fault_sequences"],"every type deriving Parse and ToTokens, every stream it accepts, every pattern of failed and retried alternatives before acceptance",
 "Tests check about twenty shapes with one input each, all parsed on a straight path without failed alternatives.",
 [PA,TT,HE],[("same field order and scope rules in both derives",PA+": code_from_fields; "+TT+": code_from_fields")],
 ["rendered tokens compared with consumed tokens","second parse"])
p("C13","The parameter style of a field is determined by its type as documented",
 "A field's kind (flag, value, name-args, list, optional, rest, unnamed) follows from the written form of its type: `bool`, `Flag`, `NameValue`, `NameArgs`, `Option`, `Vec`, `HashMap<String, _>` with any of their usual path spellings, and nothing else.",
 ["programs"],"every field type","Only a few spellings of Option are unit-tested.",
 [SM,SU],[("path matching",SU+": get_arguments_of, is_match_ns")],["style accepted by the generated parser"])
p("C14","The hint for a corrupted parameter name is the unambiguous one or none",
 "When an argument's name arrives with characters lost, added, changed or swapped so that no parameter of the struct (of any style) has it and no rest parameter takes it, the parse fails and the error names a declared parameter only if that one is within one edit (one character inserted, deleted or changed) or one transposition of two neighbours of the name as it arrived, and is the single closest one (an edit is closer than a transposition). If exactly one declared parameter is that near, the error does name it.",
 ["inputs"],"every set of declared names and every corruption of a name, in every position of the stream","One trybuild case and six distance assertions.",
 [HE],[("edit distance",HE+": distance, find_similar_name")],["error text"])
p("C15","Argument wrapper types convert and compare by value",
 "Flag compares by presence, combines by `|` keeping the first location, and converts from bool; NameValue and NameArgs compare by their contents.",
 ["inputs"],"every value","No direct tests.",
 [AT],[("operator implementations",AT)],["values returned"])
p("C16","Expansions carry the definition's generics, bounds and raw names through",
 "For every definition, the generated implementations carry its generic parameters and where clauses unchanged, and compile without name clashes for any legal field, variant or parameter name.",
 ["programs"],"every generic definition and every set of names","Two tests use raw field names; none uses generics.",
 [SU,SM,PA,TT],[("split_for_impl",SU+": impl_trait")],["rustc result"])
p("C17","The dump option shows the generated code",
 "With the documented `dump` option each derive aborts compilation with a message that contains the code it would otherwise have produced.",
 ["programs"],"every definition with dump","Not tested.",
 [SU],[("panic with the expansion",SU+": impl_trait_result")],["compiler message"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
