# Writes /verif/properties.jsonl (source of truth for the property texts).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="parse-display-derive/src/"; R="parse-display/src/"; W="parse-display-with/src/"
p("C01","Derived Display renders exactly its format",
  "For every value of a type with derived Display, the text written is exactly the format's literal pieces, verbatim and in order (with `{{` and `}}` standing for one brace each), with each placeholder replaced by what the placed field writes. An error returned by the writer or by a field's own formatting is returned by the derived fmt, and nothing is written after it.",
  ["programs","inputs","fault_sequences"],"all derivable types and formats, all field values, all points at which the sink or a field's formatting can fail",
  "tests compare to_string() of a few dozen fixed values; none has a failing writer, none ranges over field values or over mixes of literal text, escapes and placeholders",
  [D+"lib.rs",R+"helpers.rs"],[("DisplayFormat::format_args, FormatArgs::build_write, DisplayFormat::try_unescape",D+"lib.rs"),("derive_display_for_struct / derive_display_for_enum",D+"lib.rs")],
  ["Display::fmt of the derived type","the sequence of writes reaching the fmt::Write sink"])
p("C02","Every placeholder resolves to the documented source",
  "In a derived Display, `{name}`/`{0}` shows exactly that field (raw identifiers included), `{a.b.c}` exactly that nested member, `{}` the variant's name in an enum or variant format and the field itself in a field format, and `{:trait}` in a struct, enum or variant format uses the value's own other trait. A field's own format wins over showing the field directly and is relative to that field, a variant's format wins over the enum's, a newtype or a unit variant without any format shows its only field or its name, and a placeholder naming an unknown field is rejected at compile time.",
  ["programs","inputs"],"all derivable structs and enums, all placeholder paths in them, all field values",
  "tests exercise each row of the documentation table once with one or two field names; mixes of levels, positions, raw identifiers and same-typed fields that could be swapped are not ranged over",
  [D+"lib.rs"],[("VarBase::format_arg, format_arg_of_field, format_arg_from_some_format, field_expr",D+"lib.rs"),("FieldKey::from_str_deep, from_ident, binding_var, field_map",D+"lib.rs"),("make_arm: variant format over enum format",D+"lib.rs")],
  ["Display output of derived types","compile errors of the derive"])
p("C03","Format strings are split uniquely or rejected",
  "Every format string either splits, left to right and without loss, into literal runs, escaped braces and `{path}` / `{path:spec}` placeholders, or is rejected with a compile error; it is never silently truncated, reinterpreted or accepted with an unmatched single brace. Display and FromStr see the same split, and a literal-only format yields its unescaped text in both directions.",
  ["inputs"],"all strings as format attribute values",
  "the tests contain a handful of formats and one invalid format; the grammar holds over all strings including multi-byte text, adjacent escapes and braces at every position",
  [D+"lib.rs"],[("DisplayFormat::parse, DisplayFormatPart::try_unescape, DisplayFormat::try_unescape, escape_fmt",D+"lib.rs")],
  ["Display output","accepted and rejected FromStr inputs","compile errors"])
p("C04","Format parameters behave as in std::format!",
  "A placeholder with format parameters formats its field precisely as `format!` would format that field with the same parameters: same fill, alignment, sign, `#`, `0`, width, precision and formatting trait, including `{:p}` on pointers and references. The parameters of every spec `format!` accepts with literal width and precision are recognised as the same trait and parameters, and anything that names no formatting trait is rejected at compile time.",
  ["programs","inputs"],"all format specs, all field types implementing the selected trait, all values",
  "unit tests parse 20 specs and derive with a few; they do not relate the trait chosen for bounds and pointer handling with the spec for arbitrary specs, nor cover combinations",
  [D+"format_syntax.rs",D+"lib.rs",R+"helpers.rs"],[("FormatSpec::parse, FormatType::from_str, FormatType::trait_name, Align::from_str",D+"format_syntax.rs"),("DisplayFormat::format_args (spec passed through, fmt_pointer)",D+"lib.rs"),("fmt_pointer",R+"helpers.rs")],
  ["Display output compared with format!","compile errors"])
p("C05","Derived FromStr accepts only whole-string matches",
  "A derived FromStr without a user regex accepts a string only if the entire string, from first to last character, is the format with each placeholder replaced by some text; literal text in the format, variant names and unescaped braces match only themselves, never as regex syntax. Field text may be any characters, including newlines and regex metacharacters.",
  ["programs","inputs"],"all derivable types with display formats, all input strings",
  "tests try a few accepted and rejected strings per type; anchoring and literalness must hold for all inputs, including text before or after, newlines and metacharacters in the format",
  [D+"parser_builder.rs",D+"regex_utils.rs",R+"helpers_std.rs"],[("hirs_with_start_end, push_str, to_regex_string",D+"regex_utils.rs"),("ParserBuilder::push_format, build_parse_code",D+"parser_builder.rs"),("Parser::new",R+"helpers_std.rs")],
  ["Result of str::parse::<T>()"])
p("C06","Each field is parsed from its own capture; parse never panics",
  "When the input matches, every field named in the format gets the value its type's FromStr returns for exactly the text at that field's own placeholder, and the result is Ok if and only if all these conversions succeed. Otherwise the result is Err, with the failing field named for a failed conversion in a struct; parsing never panics and never returns a value built from another field's text.",
  ["programs","inputs"],"all derivable types, all assignments of text to placeholders, all outcomes of each field's own FromStr",
  "tests check a few types and inputs; which capture feeds which field, for arbitrary field counts and orders, repeated and nested placeholders, and each combination of conversion failures, is not enumerated",
  [D+"parser_builder.rs"],[("FieldEntry::set_capture, capture_index, build_expr, build_setters, build_field_init_expr",D+"parser_builder.rs"),("ParserBuilder::build_construct_code, build_parse_code",D+"parser_builder.rs")],
  ["Result of str::parse::<T>()","ParseError message"],
  [("capture_next","next capture number, starting from 1",D+"parser_builder.rs")])
p("C07","Display then FromStr gives the value back",
  "For a type deriving both Display and FromStr from one format whose placeholders are separated unambiguously (each field's text never contains the literal that follows it, and each field round-trips by itself), parsing the displayed text returns an equal value, for every value. The same holds for enums whose variants have pairwise non-overlapping formats and for opt fields whose Some text is non-empty.",
  ["programs","inputs"],"all separable formats, all values of their types",
  "tests round-trip fixed values; agreement of two independently generated impls must hold for every value and every separable format",
  [D+"lib.rs",D+"parser_builder.rs"],[("DisplayFormat shared by derive_display_* and ParserBuilder::push_format",D+"lib.rs")],
  ["x.to_string().parse() == Ok(x)"])
p("C08","Enum parsing picks the right variant",
  "A derived enum FromStr first accepts strings that equal the fixed text of a variant (earliest declared first), then tries the remaining variants in declaration order and returns the first whose pattern matches and whose conversions (and constructor) succeed, failing over to the next otherwise. A variant marked ignore is never produced, and if no variant accepts, the result is Err.",
  ["programs","inputs"],"all enums, all variant orders and overlaps, all input strings, all outcomes of the fields' conversions",
  "tests have a couple of small enums with disjoint variants; order, overlap, ignored variants and fall-through after a failed conversion are quantified over programs and inputs",
  [D+"lib.rs",D+"parser_builder.rs"],[("derive_from_str_for_enum",D+"lib.rs"),("ParserBuilder::build_parse_variant_code",D+"parser_builder.rs")],
  ["Result of str::parse::<E>()"])
p("C09","Variant-name styles convert every identifier as documented",
  "For each of the 13 documented style names, a variant's shown and parsed name is its identifier split into words at non-alphanumeric characters and before an upper-case letter that follows a non-upper-case one, each letter's case set by the style for first word, word start and rest, joined by the style's separator; `none` leaves the identifier unchanged. The variant's own style overrides the enum's, the default is `none`, any other style name is rejected at compile time, and Display and FromStr always agree on the name.",
  ["inputs","programs"],"all identifiers (including Unicode, digits, acronyms and underscores), all styles",
  "tests try a few identifiers per style; the conversion is a function over all identifiers",
  [D+"lib.rs"],[("DisplayStyle::parse, apply, from_helper_attributes",D+"lib.rs")],
  ["Display of `{}`","strings accepted by FromStr"])
p("C10","opt fields: None is absent text, Some is the inner value",
  "A field marked opt shows nothing at all for None (its own field format's literals included) and for Some(v) exactly what the field's format gives with v in its place. FromStr accepts a string both with and without the field's whole text, giving Some of the inner conversion when the text is present and None when absent (absence is preferred where both readings match the whole string); a failing inner conversion is an error, never None.",
  ["programs","inputs"],"all types with Option<T> fields marked opt, in all positions and attribute mixes, all values and inputs",
  "tests cover one or two opt structs with u32; combinations with formats, with, regex and several opt fields, for all values, are not reached",
  [D+"lib.rs",D+"parser_builder.rs",R+"helpers.rs"],[("VarBase::format_arg_of_field, OptionFormatHelper",D+"lib.rs"),("ParserBuilder::push_field (optional group), build_parse_capture_expr (transpose)",D+"parser_builder.rs")],
  ["Display output","Result of str::parse::<T>()"])
p("C11","with formats are used in both directions, with their regex",
  "A field with a `with` format is shown only through that format's write and parsed only through that format's parse, with FromStr's own `with` taking priority over Display's when parsing. The format's regex pattern, when it is not the match-anything pattern, constrains exactly that field's text as one unit: alternations, flags and groups inside it affect neither the surrounding format nor which text any other field receives.",
  ["programs","inputs"],"all types with `with` fields, all patterns returned, all inputs",
  "tests use a few patterns; isolation of an arbitrary pattern and capture renumbering are quantified over patterns and positions",
  [D+"lib.rs",D+"parser_builder.rs",R+"helpers.rs",R+"helpers_std.rs"],[("format_arg with Formatted",D+"lib.rs"),("ParserBuilder::push_format (With), build_parser_init",D+"parser_builder.rs"),("Parser::new, to_ast, ast_from_str",R+"helpers_std.rs")],
  ["Display output","Result of str::parse::<T>()"])
p("C12","default supplies exactly the fields the input does not",
  "With from_str(default) on a struct, fields not in the format come from the struct's own Default value and fields in the format come from the input; with it on a field, that field comes from its type's Default. For nested placeholders only the named members are overwritten from the input and all other members keep the default.",
  ["programs","inputs"],"all structs and variants with default attributes, all partial formats, all inputs, all Default implementations",
  "tests use a few structs whose defaults are constants; which members come from input and which from which default must hold for all shapes",
  [D+"parser_builder.rs"],[("ParserBuilder::apply_attrs, build_construct_code, FieldEntry::build_expr, build_setters",D+"parser_builder.rs")],
  ["Value returned by str::parse::<T>()"])
p("C13","new = expr receives the parsed fields and decides the result",
  "With from_str(new = expr) the expression is evaluated once per matching attempt, after all field conversions succeeded, with each variable named after its field (`_N` for tuple fields) bound to that field's parsed value. A plain value, Some or Ok becomes the parse result; None or Err makes the parse fail, or in an enum lets the later variants be tried.",
  ["programs","inputs"],"all types and variants with new, all constructor expressions and outcomes",
  "tests use one constructor returning Option; binding of every field and all result kinds and failure continuations are not covered",
  [D+"parser_builder.rs",R+"lib.rs"],[("ParserBuilder::build_construct_code, FieldKey::new_arg_var",D+"parser_builder.rs"),("IntoResult impls",R+"lib.rs")],
  ["Result of str::parse::<T>()"])
p("C14","User regexes bind captures to fields as documented",
  "A regex on a struct, enum or variant replaces its display format for parsing, must match the whole string, and each named group feeds the field (or nested member) of that name, an empty name meaning the variant's styled name taken literally; escaped look-alikes such as `\\(?<x>` are left alone and unnamed groups feed nothing. A field's regex replaces `(?s:.*?)` at that field's placeholder, its empty-named group (when present) alone feeds the field, and a regex takes priority over a with or inferred pattern; invalid regexes and unknown names are compile errors.",
  ["programs","inputs"],"all regex attributes on all positions, all inputs",
  "tests contain about a dozen regex attributes with one or two inputs each",
  [D+"parser_builder.rs",D+"regex_utils.rs"],[("ParserBuilder::push_regex, try_push_attrs",D+"parser_builder.rs"),("to_hir_with_expand, expand_capture, try_replace_all",D+"regex_utils.rs")],
  ["Result of str::parse::<T>()","compile errors"])
p("C15","FromStrRegex of a derived type is the language it parses",
  "For every derived FromStr, the pattern returned by from_str_regex compiles, has no named group, and matches a whole string exactly when the type's own parser would reach its field conversions for that string (for an enum: the union over its non-ignored variants), with literals and variant names escaped. A regex_infer field (directly, or inherited from its struct, variant or enum) is matched by exactly its type's FromStrRegex pattern, embedded as one unit.",
  ["programs","inputs"],"all derived types, also nested in each other through regex_infer, all strings",
  "tests compare a few pattern strings; language equality over all strings and leak-free nesting cannot be sampled",
  [D+"lib.rs",D+"parser_builder.rs",R+"helpers_std.rs"],[("derive_from_str_for_enum (format!/escape_fmt), build_from_str_regex_body, build_regex_fmts_args",D+"lib.rs"),("Parser::new re_str, RegexInfer",R+"helpers_std.rs")],
  ["T::from_str_regex()","Result of str::parse::<T>() with regex_infer"])
p("C16","Built-in FromStrRegex patterns admit every displayed value",
  "For every type with a built-in FromStrRegex (integers, NonZero integers, floats, bool, char, String, OsString, PathBuf), the pattern is a valid regex that, matched against the whole string, accepts every string the type's Display (or text form) can produce, and every string of the type's documented FromStr grammar. Integer, bool, float and char patterns accept nothing with text the type can never parse, such as letters in an integer.",
  ["inputs"],"all values of the types and all strings",
  "tests probe single strings per type; inclusion between the infinite languages is undecided by samples",
  [R+"from_str_regex.rs"],[("impl FromStrRegex for ...",R+"from_str_regex.rs"),("ANY_REGEX",R+"lib.rs")],
  ["T::from_str_regex()"])
p("C17","Generated trait bounds are exactly those needed or requested",
  "Without bound attributes, a derived impl for a generic type holds exactly when every field type that mentions a type parameter and is used directly in the format implements the trait used there (the placeholder's formatting trait; FromStr for parsing; the inner type for opt fields), and fields with `with` or not in the format add nothing. bound(...) replaces these by the listed types and predicates, `..` inside it adds the defaults back, variant and field bounds extend only levels that still extend, and from_str bounds override display bounds for parsing.",
  ["programs"],"all generic types, all bound attributes at all levels",
  "tests compile a few generic types; whether the impl is neither too strong nor too weak for every instantiation is not checked",
  [D+"bound.rs",D+"lib.rs",D+"parser_builder.rs",D+"syn_utils.rs"],[("Bounds::from_data, child, push, build_wheres, Drop for BoundsChild",D+"bound.rs"),("format_arg bounds, ParserBuilder::build_bounds, bound_from_str_resolved",D+"lib.rs"),("GenericParamSet::contains_in_type, impl_trait",D+"syn_utils.rs")],
  ["whether Type<Args>: Display / FromStr / FromStrRegex holds"])
p("C18","delimiter/join formats write and split element-wise",
  "`delimiter(d)` and `join(f, d)` write the collection's elements in order, each through the item format, with d between adjacent elements and nowhere else (nothing for an empty collection), stopping at the first error. Parsing splits the string at every occurrence of d, converts each piece with the item format in order, and collects all of them, failing exactly if one piece fails; fmt, fmt_display and fmt_from_str delegate to Display/FromStr or the given function.",
  ["inputs","fault_sequences"],"all collections, element values, delimiters, strings and failure points",
  "tests use fixed three-element vectors; lengths, empty pieces, multi-character delimiters and failing elements are not covered",
  [W+"formats.rs"],[("Join::write, Join::parse",W+"formats.rs"),("Fmt, fmt_display, fmt_from_str",W+"formats.rs")],
  ["output of DisplayFormat::write","result of FromStrFormat::parse"])
p("C19","Ill-formed derive input is a compile error, never wrong code",
  "Input the documentation does not allow - an invalid format or spec, an unknown style, a missing format, an unknown field, a field that parsing cannot fill, `{}` in a struct, opt on a non-Option, an enum-level default, an invalid bound or regex, a `with` combined with another trait - is reported as a compile error at that type and never yields an impl. Documented input always compiles, for every legal identifier, including raw ones.",
  ["programs"],"all derive inputs",
  "trybuild has 14 rejected programs; the accept/reject border ranges over all programs",
  [D+"lib.rs",D+"parser_builder.rs",D+"syn_utils.rs"],[("bail! sites",D+"lib.rs"),("field_of, build_field_init_expr, build_bounds",D+"parser_builder.rs")],
  ["rustc diagnostics of derived types"])
p("C20","Concurrent first parses agree",
  "When several threads parse values of the same type for the first time at the same moment, every one of them gets the result a single thread would get, and the matcher is built at most once per successful initialisation.",
  ["schedules"],"all interleavings of first-use parsing",
  "tests are single-threaded; the lazily initialised matcher is a process-wide static shared by all callers",
  [D+"parser_builder.rs"],[("static PARSER: OnceLock in generated code",D+"parser_builder.rs")],
  ["results of parse on each thread"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
