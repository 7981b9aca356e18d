#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=hook)))

M = "packages/stylist/src/manager/"
C = "packages/stylist-core/src/"
X = "packages/stylist-macros/src/"

p("C01", "Equal styles share one class, different styles never do",
  "Within one style manager, creating a style while a style of the same kind (scoped/global), prefix and stylesheet is registered yields that very style: same class name/id and same CSS. "
  "Creating one that differs in kind, prefix or stylesheet always yields a different id, of the form `<prefix>-<unique>` (scoped) or `<prefix>-global-<unique>` (global). "
  "No two distinct styles created in a process ever carry the same id.",
  ["histories", "inputs"], "every sequence of create / clone / drop / unregister calls over any set of stylesheets, prefixes, kinds and managers",
  "Unit tests create two styles once; identity has to survive every interleaving of creations, unregistrations and handle drops.",
  [M+"mod.rs", M+"registry.rs", M+"key.rs", "packages/stylist/src/style.rs", "packages/stylist/src/global_style.rs", "packages/stylist/src/utils.rs"],
  [("registry lookup before creation", M+"mod.rs get_or_register_style"), ("key = (is_global, prefix, ast)", M+"key.rs"), ("random 8-character suffix", "packages/stylist/src/utils.rs")],
  [("registry", "live styles of a manager by key", M+"registry.rs")], ["Style::get_class_name", "Style::id", "get_style_str"])

p("C02", "Unregistering forgets a style, existing handles stay valid forever",
  "After a style is unregistered through any of its handles, the next creation of the same style in that manager produces a fresh style with a new id, and unregistering again (or after the manager is gone) is a harmless no-op. "
  "Every handle keeps reporting the id and CSS it was created with, whatever is later created, unregistered or dropped, including its manager. "
  "Without unregistering, dropping all handles does not forget the style while its manager lives.",
  ["histories"], "every history of create, clone, drop handle, unregister, drop manager",
  "Only one unregister call is ever tested, on one style with a live manager.",
  [M+"content.rs", M+"registry.rs", M+"mod.rs"],
  [("weak back reference from content to manager", M+"content.rs"), ("registry removal by key", M+"registry.rs unregister")],
  None, ["Style::unregister", "Style::get_style_str"])

p("C03", "Style managers and threads are isolated from each other",
  "Creating, unregistering or loading styles in one manager never changes which styles another manager returns, even for identical stylesheets and prefixes; clones of a manager are the same manager. "
  "The default manager is one per thread: styles created without naming a manager are shared within a thread and independent between threads. "
  "A manager's configured prefix is used for exactly those styles of it that do not name their own prefix.",
  ["histories", "schedules", "configurations"], "every interleaving of operations on several managers and threads, any prefixes",
  "Tests use a single default manager per test; leakage between managers or threads needs multi-manager histories.",
  [M+"mod.rs", "packages/stylist/src/style.rs", "packages/stylist/src/global_style.rs", "packages/stylist/src/style_src.rs"],
  [("thread_local default manager", M+"mod.rs Default for StyleManager"), ("registry owned by the manager", M+"mod.rs")])

p("C04", "Server-side recording captures each registered style exactly once, in order",
  "Style data read from a static reader lists exactly the styles registered so far through the manager holding the matching writer, one entry per registration, in registration order, each with its id and the CSS its handle reports. "
  "Re-requesting an already registered style adds nothing, and managers without that writer never contribute. "
  "Data already read (or cloned) is a snapshot that later registrations never alter.",
  ["histories"], "every history of registrations, re-requests, unregistrations and reads across several managers and readers",
  "No existing test exercises the SSR writer/reader at all.",
  [M+"ssr.rs", M+"mod.rs"],
  [("copy-on-write log shared by writer and reader", M+"ssr.rs"), ("push on registration", M+"mod.rs get_or_register_style")],
  [("style_data", "recorded entries", M+"ssr.rs")], ["StaticReader::read_style_data", "StyleData::write_static_markup", "Serialize for StyleData"])

p("C05", "Static markup is one well-formed <style> element per recorded style",
  "Static markup consists of exactly one `<style data-style=\"ID\">...</style>` element per recorded style, in recording order (for class prefixes that are valid class names), whose text is the style's CSS. "
  "No CSS content, including interpolated values that contain `</style` in any letter case, can terminate its element early or introduce further markup. "
  "CSS that contains no such sequence is emitted unchanged. "
  "Writing it into a writer that fails gives an error, never a success with part of the markup missing.",
  ["inputs"], "all stylesheets and interpolated values, any number of recorded styles",
  "Static markup has no tests; escape coverage is a statement about every content string.",
  [M+"ssr.rs"], [("html_escape::encode_style on the content", M+"ssr.rs write_static_markup")], None, ["StyleData::write_static_markup"])

p("C06", "Hydrating with server style data reproduces the server's ids and CSS",
  "After loading serialised server style data into a client manager, creating any recorded style (scoped or global) yields the server's id and exactly the server's CSS, and styles not in the data are created fresh. "
  "Loading the same data again changes nothing. "
  "If the client already holds the same style under another id, or the data itself names one style under two ids, loading fails loudly instead of silently choosing one.",
  ["histories", "inputs"], "every server history, serialisation format (JSON, bincode) and client history around the load",
  "There is no test of load_style_data; fidelity quantifies over server histories and stylesheets.",
  [M+"mod.rs", M+"key.rs", C+"ast/sheet.rs", C+"bow.rs"],
  [("load_style_data inserts by key", M+"mod.rs feat_hydration"), ("serde of key and id", M+"key.rs")], None, ["StyleManager::load_style_data"])

p("C07", "Selectors are scoped to the generated class exactly as documented",
  "In a scoped style every rule is confined to the generated class: `&` and `:root` in a selector (outside strings and comments) denote the class, a selector starting with a pseudo-class or pseudo-element attaches directly to it, and any other selector is made its descendant, for each selector of a list separately; declarations outside any block apply to the class itself. "
  "In a global style selectors are left as written except that `&` denotes `:root`, and dangling declarations apply to `:root`. "
  "Keyframe step selectors and at-rule conditions are never altered.",
  ["inputs"], "all selectors, selector lists, nesting contexts and class names",
  "Four hand-picked selectors are tested; scoping is a function of every selector string and position.",
  [C+"ast/selector.rs", C+"ast/block.rs", C+"ast/context.rs"],
  [("substitution and prefixing", C+"ast/selector.rs"), ("default block condition", C+"ast/context.rs with_block_condition")], None, ["Sheet::to_style_str", "Style::get_style_str"])

p("C08", "Rendering emits every declaration once, in order, under its conditions",
  "The CSS rendered for any stylesheet has balanced braces and contains every declaration of the stylesheet exactly once, in source order, nested under exactly the at-rule conditions and selector it has in the stylesheet, with at-rules nested inside blocks hoisted around the block's selector. "
  "Blocks and rules without declarations produce no output, except that `@keyframes` rules always appear. "
  "Rendering is a pure function of stylesheet and class name.",
  ["inputs"], "all stylesheet trees (any nesting of blocks, at-rules, keyframes and declarations)",
  "The block open/close state machine depends on the whole path of siblings and parents; tests check a dozen fixed shapes.",
  [C+"ast/context.rs", C+"ast/block.rs", C+"ast/rule.rs", C+"ast/style_attr.rs"],
  [("StyleContext open/close state machine", C+"ast/context.rs")], [("is_open", "whether a context's braces are open", C+"ast/context.rs")], ["ToStyleStr::to_style_str"])

p("C09", "Every accepted stylesheet renders to CSS that is accepted and equivalent",
  "For every text the runtime parser accepts without interpolation, the rendered CSS is itself accepted by the parser, and rendering it again as a global stylesheet reproduces it. "
  "Hence creating a style, scoped or global, from any accepted stylesheet never panics in debug builds with the debug parser on.",
  ["inputs"], "all accepted stylesheet texts, scoped and global",
  "Tests reparse implicitly only for the fixed sheets they create; closure must hold for every accepted text.",
  [C+"parser.rs", C+"ast/context.rs", M+"mod.rs"],
  [("debug re-parse on registration", M+"mod.rs get_or_register_style")], None, ["Style::new", "GlobalStyle::new"])

p("C10", "Parsing yields exactly the written stylesheet, whatever the layout",
  "Parsing a well-formed stylesheet text yields exactly its declarations, blocks, selector lists, at-rules and keyframes, in order, with nothing dropped, merged or invented. "
  "The result does not depend on the whitespace placed around names, values, selectors, conditions and braces, on comments placed there where a declaration, rule or block may begin, nor on an optional final semicolon inside a block. "
  "Quoted strings and interpolations are kept verbatim, whatever punctuation they contain.",
  ["inputs"], "all well-formed stylesheets and all layouts of each",
  "About twenty fixed texts are tested; the statement ranges over every stylesheet and layout.",
  [C+"parser.rs", C+"ast/sheet.rs"], [("nom grammar", C+"parser.rs")], None, ["Sheet::from_str"])

p("C11", "Malformed stylesheet text is rejected as a whole and never panics",
  "Text that is not a stylesheet in its entirety, such as one with an unclosed block, string or comment, a stray closing brace or semicolon, or a declaration without a name, colon or value, makes parsing return an error; never a stylesheet built from part of the text. "
  "Parsing terminates without panicking on every string (nesting as deep as the stack allows). "
  "A failed parse leaves no trace: later parses of any text give the same results as if it never happened.",
  ["inputs", "histories"], "all strings, including truncations and single-character corruptions of valid sheets",
  "A handful of invalid strings are tested; truncations and corruptions at every position are not.",
  [C+"parser.rs", C+"ast/sheet.rs", C+"error.rs"], [("many0 progress check and outer loop", C+"parser.rs sheet/scope"), ("cache insert only on success", C+"ast/sheet.rs")], None, ["Sheet::from_str"])

p("C12", "Parse results do not depend on parse history or threads",
  "Parsing a text gives the same stylesheet or the same failure every time, no matter which other texts, valid or invalid, were parsed before or are being parsed concurrently on other threads. "
  "Two parses of the same text yield equal stylesheets that share a registry entry; two texts with different content never share a result.",
  ["histories", "schedules"], "every history and interleaving of parse calls over several threads",
  "Tests never parse the same text twice in one process deliberately, nor from several threads.",
  [C+"ast/sheet.rs"], [("global mutex-protected parse cache", C+"ast/sheet.rs CACHED_SHEETS")], [("CACHED_SHEETS", "text -> sheet", C+"ast/sheet.rs")], ["Sheet::from_str"])

p("C13", "Stylesheet values compare, hash and serialise by content alone",
  "Two stylesheets are equal, and hash alike, exactly when their trees have the same content (texts compared as the fragments they consist of), regardless of whether parts are borrowed, owned or boxed. "
  "Serialising and deserialising a stylesheet yields an equal one that renders the same CSS; cloning never changes it.",
  ["inputs"], "all stylesheet trees, all mixes of borrowed and owned parts, JSON and bincode",
  "The only comparisons tested are between parser output and hand-written expected values.",
  [C+"bow.rs", C+"ast/sheet.rs", C+"ast/block.rs", C+"ast/rule.rs", C+"ast/rule_block_content.rs"],
  [("Bow/Cow transparent Eq, Hash, Serde", C+"bow.rs")], None, ["Sheet == Sheet", "Hash for Sheet", "Serialize for Sheet"])

p("C14", "Literal macros equal runtime parsing with arguments substituted",
  "A string-literal macro produces the stylesheet that runtime parsing of the literal gives, with each `${name}` in values, selectors and at-rule conditions replaced by the displayed value of the argument of that name and each `$${` replaced by `${`. "
  "Argument values are inserted verbatim, never re-interpreted as interpolations, and occurrences are replaced independently of argument order.",
  ["programs", "inputs"], "all literals, argument names, orders and values",
  "Existing macro tests cover five literals.",
  [X+"literal/mod.rs", X+"literal/fstring.rs", X+"literal/to_output_with_args.rs", X+"output/"],
  [("fragment parser", X+"literal/fstring.rs"), ("argument substitution", X+"literal/to_output_with_args.rs"), ("code generation", X+"output/")], None, ["sheet!", "css!", "style!"])

p("C15", "Inline macros emit the written CSS under the documented spacing rule",
  "An inline macro yields the stylesheet whose structure is the written one: declarations, blocks with their selector lists, and `@media`/`@supports` rules, in order. "
  "Each value, selector and condition is its tokens in order with a space between two tokens exactly where the documented spacing rule asks for one, identifiers with dashes kept whole, and interpolated expressions replaced by their displayed value with no spacing around them.",
  ["programs", "inputs"], "all token sequences the macro accepts, with any interpolated values",
  "Existing tests cover a few dozen fixed token pairs; the spacing rule is over all pairs in all positions.",
  [X+"inline/", X+"spacing_iterator.rs", X+"output/"],
  [("component value tokenizer", X+"inline/component_value/"), ("fragment_spacing", X+"inline/parse/mod.rs"), ("dangling attribute grouping", X+"inline/parse/scope.rs, root.rs")], None, ["sheet!", "css!", "style!"])

p("C16", "Macros reject misuse at compile time instead of dropping content",
  "A literal macro fails to compile when an argument is unused, missing, duplicated or unnamed, or when its text is malformed. "
  "An inline macro fails to compile for constructs it does not support: other at-rules, blocks nested in blocks, blocks in declaration values, unsupported punctuation in selectors or values and non-string literals in selectors (function arguments excepted), and declarations without a terminating semicolon. "
  "An invocation that compiles never loses part of its input.",
  ["programs"], "all macro invocations in the listed misuse classes, at every nesting position",
  "Seven fixed compile-fail files are tested, each with the misuse at one position.",
  [X+"literal/mod.rs", X+"inline/parse/", X+"inline/component_value/mod.rs"],
  [("argument bookkeeping", X+"literal/mod.rs"), ("token validation and error collection", X+"inline/component_value/mod.rs, inline/parse/mod.rs")], None, ["rustc diagnostics"])

p("C17", "Interpolated values are evaluated anew on every macro execution",
  "Each time an expression position of a macro is executed, every interpolated expression is evaluated exactly once per occurrence and its current value appears in the result, wherever in the stylesheet it stands. "
  "Invocations without interpolation yield the same, equal stylesheet on every execution and from every thread.",
  ["programs", "histories"], "all positions of an interpolation in a stylesheet, repeated executions",
  "Tests run each macro once, so a stylesheet wrongly frozen at first use would pass.",
  [X+"output/context.rs", X+"output/maybe_static.rs", X+"output/sheet.rs", X+"output/rule_block_content.rs", X+"output/cow_str.rs"],
  [("const/static/dynamic classification", X+"output/context.rs")], [("ExpressionKind", "const < static < dynamic", X+"output/context.rs")], ["sheet!", "css!"])

p("C18", "Components style through the nearest enclosing manager provider",
  "While rendering components, every style made by `css!` in a styled component, by `use_style!` or by a global-style component is created in the manager of the nearest enclosing manager provider, or the thread's default manager if there is none. "
  "The element receives the class of that style, and equal styles under the same manager share one class. "
  "In a browser this stays so while components are added, moved, changed and removed and providers are given other managers.",
  ["configurations", "histories"], "every component tree with nested and sibling providers, any assignment of managers, every sequence of updates",
  "No existing test renders any component.",
  ["packages/stylist/src/yew/provider.rs", "packages/stylist/src/yew/global.rs", "packages/stylist/src/yew/hooks/use_style.rs", "packages/stylist/src/yew/mod.rs", "packages/stylist/src/style_src.rs", X+"styled_component_impl.rs"],
  [("context lookup", "yew/global.rs, hooks/use_style.rs, styled_component_impl.rs"), ("StyleSource::with_manager", "packages/stylist/src/style_src.rs")])

p("C19", "Server-rendered providers ship the styles of their whole subtree",
  "In server-side rendering, each manager provider embeds in its output style data containing every style its manager has registered by the time its subtree is rendered, including all those its subtree uses. "
  "Loading that embedded data into a client manager reproduces every class name in the subtree, and providers whose manager does not record embed empty data. "
  "An application that hydrates such a page keeps the rendered classes and style elements, adds no second element for any of them, and later updates behave as if it had never been rendered on the server.",
  ["configurations", "inputs", "histories"], "every component tree, placement of providers and styles, and updates after hydration",
  "No existing test renders components on the server.",
  ["packages/stylist/src/yew/provider.rs", M+"mod.rs", M+"ssr.rs"],
  [("use_transitive_state of the manager's style data", "packages/stylist/src/yew/provider.rs")])

p("C20", "A style element is in the document exactly while its style is in use",
  "In the browser, a style's `<style>` element, holding its id and CSS, is in its manager's container from creation until the style is neither registered nor held by any handle, and is then removed; each style has exactly one element. "
  "Elements are added at the end of the container, or at its start when the manager is configured to prepend, leaving all other nodes in place; the default container is the document head. "
  "A failed insertion is reported and registers nothing.",
  ["histories", "configurations", "fault_sequences"], "every history of create, clone, drop, unregister and manager drop; any pre-existing container content; append or prepend; containers in the document, a shadow root, a frame, a fragment or detached",
  "Browser behaviour has no test in the repository: native builds compile mounting to a no-op.",
  [M+"mod.rs", M+"content.rs", "packages/stylist/src/arch.rs"],
  [("mount on registration", M+"mod.rs mount"), ("unmount on last drop", M+"content.rs Drop")], None, ["DOM tree"])

p("C21", "Counter-based names are unique process-wide without the random feature",
  "With random names disabled, every style created in the process, whatever its manager, kind or thread, gets a class name with a counter value that no other style of the process gets. "
  "Creating a style again while it is registered consumes no new name.",
  ["configurations", "schedules", "histories"], "every interleaving of creations over threads and managers, feature `random` off",
  "The configuration is never built by the test suite (it runs with all features).",
  ["packages/stylist/src/utils.rs", M+"key.rs"], [("atomic counter", "packages/stylist/src/utils.rs get_next_style_id")], [("CTR", "next counter value", "packages/stylist/src/utils.rs")])

p("C22", "Media-query hooks track the browser's current answer",
  "A component using the media-query hooks sees the query's current result after every change event and after the query string changes, and stops listening when unmounted. "
  "The prepared variant yields its fallback during server-side rendering and during hydration, then switches to the real answer.",
  ["histories"], "every sequence of change events, query changes and unmounts",
  "No test uses the hooks.",
  ["packages/stylist/src/yew/hooks/use_media_query.rs"], [("use_effect_with listener", "packages/stylist/src/yew/hooks/use_media_query.rs")])

p("C23", "A Global component's style applies exactly while the component is mounted",
  "In a browser, while a global-style component is mounted, the container of the nearest enclosing provider's manager (or of the default manager) holds a style element with exactly its rendered stylesheet; "
  "when the component is unmounted, or is given another stylesheet or manager, that element is removed unless another mounted component uses the same global style there. "
  "Scoped styles and everything else on the page stay as they are.",
  ["histories", "configurations"], "every sequence of mounts, updates, moves and unmounts of global-style components under any providers",
  "No existing test renders any component, and native builds do not mount styles.",
  ["packages/stylist/src/yew/global.rs", "packages/stylist/src/global_style.rs", M+"registry.rs", M+"content.rs"],
  [("memoised guard that unregisters on drop", "packages/stylist/src/yew/global.rs"), ("unregister only one's own style", M+"registry.rs unregister")], None, ["DOM tree"])

p("C24", "Debug builds notice values that break a stylesheet and leave nothing behind",
  "In builds with debug assertions and the `debug_parser` feature, creating a style whose CSS, with interpolated values put in, is not a well-formed stylesheet panics instead of handing the style out; "
  "nothing is registered or recorded, and the manager keeps working for every other style. "
  "A style whose CSS is well-formed is created as usual, whatever its values, and builds without debug assertions create every style without this check.",
  ["inputs", "histories", "configurations"], "every stylesheet a macro can build, with any values put in any place, anywhere in any history",
  "No test interpolates a value that breaks the stylesheet, and all tests run in debug builds.",
  [M+"mod.rs"], [("re-parse of the rendered CSS before registering", M+"mod.rs get_or_register_style")], None, ["Style::new", "GlobalStyle::new"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
