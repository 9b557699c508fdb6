#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
CORE="packages/stylist-core/src/"; ST="packages/stylist/src/"; MA="packages/stylist-macros/src/"
p("C01","Parsing arbitrary text is total, strict and lossless",
"Parsing any string returns either an error or a stylesheet: it never panics, aborts or hangs. When a string is accepted, the sheet means exactly what the whole text says: every declaration, selector, at-rule and keyframe of the text is represented once, in order and in its place, nothing is invented and no trailing, unbalanced or unclosed text is silently dropped. Text that is not CSS, or whose structure is broken, is rejected with an error instead of being repaired or half used.",
["inputs"],"every string over the CSS token alphabet (structure characters, idents, strings, comments, at-keywords, '$', '&', combinators) up to the stated number of tokens",
"The parser tests cover about thirty hand-picked sheets; none enumerates malformed or borderline strings, and losing text is only visible for particular token orders.",
[CORE+"parser.rs",CORE+"ast/sheet.rs"],[("nom parser Parser::sheet and its many0/alt alternatives",CORE+"parser.rs"),("trailing input makes many0 fail instead of stopping",CORE+"parser.rs")],
observe=["Sheet::from_str","StyleSource::try_from","Sheet::to_style_str"])
p("C02","Supported CSS keeps its meaning under every layout",
"Every stylesheet built from the documented constructs (declarations outside any block, selector blocks, @media, @supports and @container around declarations or blocks or inside blocks, @keyframes) is accepted, and its meaning does not depend on optional whitespace, line breaks, comments between tokens or the optional final semicolon of a block. Selector lists split only at top-level commas, and quoted strings, parentheses and brackets are opaque: their content never changes the structure around them.",
["inputs"],"every derivation of the documented grammar up to the stated size, times every layout variant within the stated number of deviations, times a vocabulary of unusual atoms at every position",
"Tests use one conventional layout per feature; the product of constructs, nesting, separators and atoms is far larger than any hand-written table.",
[CORE+"parser.rs"],[("sp/cmt/trimmed combinators",CORE+"parser.rs"),("string, selector and at_rule_condition parsers",CORE+"parser.rs")],observe=["Sheet::from_str","Sheet::to_style_str"])
p("C03","Selectors are scoped by the documented rules",
"For a scoped style, each selector of a block is rewritten independently: the current selector '&' and ':root' become the generated class, a selector starting with a pseudo-class or pseudo-element attaches directly to the class, and any other selector becomes a descendant of the class; declarations outside any block apply to the class itself. Consequently no rule of a scoped style can match an element that is neither the styled element nor inside it (unless the author placed '&' so), and quoted text inside a selector is never rewritten.",
["inputs"],"every selector list built from the selector alphabet up to the stated length, every position (top level, inside at-rules, first or later in a list), every class name shape",
"Four unit tests each check one selector; mixed lists, several '&' in one selector, strings containing '&' and selectors in nested at-rules are not covered.",
[CORE+"ast/selector.rs",CORE+"ast/block.rs",CORE+"ast/context.rs",ST+"style.rs"],[("Selector::write_style",CORE+"ast/selector.rs"),("StyleContext::with_block_condition",CORE+"ast/context.rs")],observe=["Style::get_style_str"])
p("C04","Rendered CSS preserves structure and order",
"The CSS generated for a sheet contains each declaration exactly once, in source order, with its key and value unchanged, under exactly the chain of at-rules that enclosed it in the source (outermost first) and under exactly its block's selector list. Braces always balance, @keyframes are emitted even when empty, and generating the CSS of the same sheet again gives the same text.",
["inputs"],"every sheet tree up to the stated size: any interleaving of declarations, blocks, nested at-rules and keyframes, also trees only the macros can build (blocks inside at-rules inside at-rules)",
"The renderer reopens and closes contexts lazily depending on what was printed before; tests cover a handful of orders of siblings and nesting.",
[CORE+"ast/context.rs",CORE+"ast/rule.rs",CORE+"ast/block.rs",CORE+"ast/style_attr.rs",CORE+"ast/sheet.rs"],[("StyleContext open/close bookkeeping",CORE+"ast/context.rs"),("always_print for keyframes",CORE+"ast/rule.rs")],
state=[("is_open","whether this context's conditions are currently open in the output",CORE+"ast/context.rs")],observe=["Sheet::to_style_str","Style::get_style_str"])
p("C05","Global styles are emitted unscoped",
"A global style's CSS is what the author wrote: selectors appear unchanged except that '&' stands for ':root', declarations outside any block apply to ':root', at-rules and keyframes keep their structure, and the generated identifier never appears in the CSS. This holds wherever the CSS is produced: on creation, in server-rendered data and after loading server-rendered data.",
["inputs","histories"],"every sheet and selector list within the bounds of C03 and C04 rendered as a global style, on creation, through server-side data and after hydration",
"Only a few global-style examples are asserted, and none after hydration.",
[ST+"global_style.rs",CORE+"ast/selector.rs",CORE+"ast/context.rs",ST+"manager/mod.rs"],[("class_name None branch of Selector and StyleContext",CORE+"ast/selector.rs"),("get_or_register_style, load_style_data",ST+"manager/mod.rs")],observe=["GlobalStyle::get_style_str","StyleData::write_static_markup"])
p("C06","Generated CSS parses back to the same meaning",
"For every sheet that was accepted, the generated CSS (scoped with a class or global) is itself accepted by the parser and parses to the same rules, declarations and at-rule chains, so creating a style in a debug build never panics for an accepted stylesheet. Re-rendering the re-parsed sheet is a fixpoint.",
["inputs"],"every accepted sheet of the spaces of C01 to C05, with each class-name shape and as a global style",
"The debug-mode re-parse runs on whatever a test happens to create; no test looks for an accepted sheet whose output is refused.",
[ST+"manager/mod.rs",CORE+"parser.rs",CORE+"ast/context.rs"],[("debug re-parse in get_or_register_style",ST+"manager/mod.rs")],observe=["Style::new","GlobalStyle::new"])
p("C07","The parse cache is invisible",
"Parsing a string gives the same result (same sheet or same error) whether or not it, or any other string, was parsed before, in any order, on any thread, and after any number of failed parses or parses that were in flight at the same time. Concurrent parsing never deadlocks, never panics and never returns the sheet of another string.",
["histories","schedules"],"every sequence of parses up to the stated length over texts chosen to collide, and every interleaving of 2 and 3 threads parsing them up to the stated preemption bound",
"The cache is a process-wide lock-protected table; tests parse on one thread and never compare a hit with a miss.",
[CORE+"ast/sheet.rs"],[("CACHED_SHEETS",CORE+"ast/sheet.rs")],state=[("CACHED_SHEETS","text to parsed sheet",CORE+"ast/sheet.rs")],observe=["Sheet::from_str"])
p("C08","Sheets are plain values",
"Two sheets are equal, and hash equally, exactly when they were built from the same constructs in the same order with the same text, whether parts are borrowed or owned. Cloning, serializing and deserializing (in text and binary formats) give an equal sheet that renders identically, and a difference in any single construct makes sheets unequal.",
["inputs"],"all pairs of sheets within the stated size (borrowed and owned variants), and every sheet through clone and two serialization formats",
"No test serializes a sheet or compares borrowed with owned ones, yet the style registry and hydration key on exactly this.",
[CORE+"ast/sheet.rs",CORE+"bow.rs",CORE+"ast/mod.rs"],[("Bow and Cow equality, hash and serde",CORE+"bow.rs"),("Sheet serde",CORE+"ast/sheet.rs")],observe=["Sheet ==","Hash","serde"])
p("C09","One class per distinct style until it is unregistered",
"Within one manager, creating a style again with the same prefix, kind (scoped or global) and stylesheet returns the same class name and CSS as the live registration; a difference in any of the three gives a different class. After a registration is unregistered the next creation gives a fresh class, and unregistering affects only the registration that handle belongs to: never another style, another manager, or a newer registration of the same stylesheet. A manager that collects static data keeps its registrations, so there the class stays the same.",
["histories"],"every sequence of create, clone, drop, unregister, switch-manager and drop-manager operations up to the stated length over colliding styles, prefixes, kinds and managers",
"Three registry tests each run one two-step history; stale handles, several managers and repeated unregistration are not covered.",
[ST+"manager/mod.rs",ST+"manager/registry.rs",ST+"manager/key.rs",ST+"manager/content.rs",ST+"style.rs",ST+"global_style.rs"],[("StyleRegistry keyed by StyleKey",ST+"manager/registry.rs"),("get_or_register_style",ST+"manager/mod.rs")],
state=[("styles","StyleKey to StyleContent map",ST+"manager/registry.rs")],observe=["Style::create_with_manager","Style::unregister","get_class_name"])
p("C10","Generated names are unique and well formed",
"Every registration, in any manager, on any thread and in either entropy mode, gets an identifier starting with its own prefix followed by a dash and characters that are valid in a CSS class; no two registrations of a process share one in counter mode, and in random mode the generator's output is used undiminished (different random draws give different names), which separately started programs on one page do not repeat for each other. Global styles' identifiers carry the global marker after the prefix.",
["histories","schedules","configurations"],"every creation sequence up to the stated length and every interleaving of 2 and 3 threads creating styles up to the stated preemption bound, in both entropy modes, with every value of the generator at each drawn position",
"Tests create two styles on one thread with the default generator.",
[ST+"utils.rs",ST+"manager/key.rs"],[("get_entropy, get_next_style_id",ST+"utils.rs"),("StyleId::new_scoped, new_global",ST+"manager/key.rs")],state=[("CTR","process-wide id counter",ST+"utils.rs")],observe=["Style::get_class_name","GlobalStyle::id"])
p("C11","The document holds exactly the live styles",
"In a browser, creating a style inserts exactly one style element, carrying its identifier and its exact CSS, in the manager's container; creating it again inserts nothing. The element stays while the style is registered or any handle is alive and is removed once the style is unregistered and all handles are gone; elements appear in creation order when appending and in reverse creation order when prepending, and elements of other managers or foreign elements are never touched.",
["histories"],"every sequence of create, clone, drop, unregister, drop-manager and foreign-mutation operations up to the stated length, for every manager configuration (append or prepend, head or custom container, with and without existing children)",
"The browser tests create and check single styles; this repository's suite here does not run a browser at all, so mounting code is never executed by it.",
[ST+"manager/mod.rs",ST+"manager/content.rs",ST+"arch.rs"],[("mount, unmount",ST+"manager/mod.rs"),("Drop for StyleContent",ST+"manager/content.rs")],observe=["document content after each operation"])
p("C12","A failed mount leaves no trace and can be retried",
"If any browser operation fails while a style is being created in a manager, the creation returns an error, nothing is registered and no element is left in the document; creating the same style again once the browser works gives a fully mounted style. Failures while removing elements never panic and never affect other styles.",
["fault_sequences","histories"],"every single and double failure point of every browser call made by every operation sequence up to the stated length",
"No test makes a browser call fail.",
[ST+"manager/mod.rs",ST+"arch.rs",ST+"manager/content.rs"],[("error propagation before registration in get_or_register_style",ST+"manager/mod.rs")],observe=["Result of Style::new","document content"])
p("C13","Managers are independent and do not leak",
"Styles created through one manager never appear in, change or depend on another manager, even for equal stylesheets and prefixes. A style handle keeps working after its manager is gone, and once a manager and all handles of its styles are dropped, all of its styles' elements are removed and its memory is released; the default manager of a thread is one and the same manager for all default-constructed styles.",
["histories"],"every sequence of manager creation, style creation, handle drop, unregister and manager drop up to the stated length with two managers plus the default one",
"Tests use the default manager almost exclusively and never drop one.",
[ST+"manager/mod.rs",ST+"manager/content.rs"],[("Weak manager reference in StyleContent",ST+"manager/content.rs"),("thread-local default manager",ST+"manager/mod.rs")],observe=["document content","container node reference count","class names"])
p("C14","Server-side style data is complete, ordered and a snapshot",
"Style data read from a static reader contains exactly the styles registered through managers bound to its writer up to that moment, once each, in registration order, with their final CSS; re-creating a registered style adds nothing and styles of other managers never appear. Data already read is a snapshot: later registrations do not change it, and reading from another thread while styles are being created sees some prefix of the registrations.",
["histories","schedules"],"every sequence of create, re-create, unregister, drop and read operations up to the stated length over one and two writers, and every interleaving of a rendering thread and reading threads up to the stated preemption bound",
"One documentation-level example renders a fixed page; reading concurrently, several managers and repeated registrations are untested.",
[ST+"manager/ssr.rs",ST+"manager/mod.rs"],[("Arc<Mutex<StyleData>> with Arc::make_mut",ST+"manager/ssr.rs"),("push in get_or_register_style",ST+"manager/mod.rs")],state=[("style_data","registered styles of the static writer",ST+"manager/ssr.rs")],observe=["StaticReader::read_style_data","StyleData::write_static_markup"])
p("C15","Static markup is faithful HTML and cannot be escaped from",
"The static markup of style data is one style element per style in order, carrying the style's identifier, and an HTML parser reading it recovers CSS with the same meaning as the style's CSS. No stylesheet content can close the style element early or start another element or comment.",
["inputs"],"every CSS string, selector and at-rule text over an alphabet of markup-significant fragments up to the stated length, one and several styles per page",
"No test writes markup with hostile content; the escaping depends on exact character sequences and letter case.",
[ST+"manager/ssr.rs"],[("write_static_markup with encode_style",ST+"manager/ssr.rs")],observe=["StyleData::write_static_markup"])
p("C16","Hydration restores the server's styles",
"Loading style data, directly or after serialization, makes the client's manager return, for every style the server registered, the server's class name and the same CSS the server produced, without creating anything new; styles the server did not register get fresh classes. Loading the same data again changes nothing, and loading data whose class contradicts an existing style is refused loudly.",
["histories"],"every server history up to the stated length (styles, prefixes, kinds, unregistration) times each serialization, times every client history up to the stated length",
"No test deserializes style data or runs a client after a server.",
[ST+"manager/mod.rs",ST+"manager/ssr.rs",ST+"yew/provider.rs"],[("load_style_data",ST+"manager/mod.rs"),("StyleData serde",ST+"manager/mod.rs")],observe=["Style::get_class_name","get_style_str after StyleManager::load_style_data"])
p("C17","String-literal macros equal the runtime parser",
"A css!, style!, global_style!, sheet! or use_style! call on a string literal gives the stylesheet the runtime parser gives for the same text in which each ${name} has been replaced by the value of the argument of that name, given that each value is a complete component of the place it is put at (values are not checked or escaped, as documented); a dollar sign can be written escaped, and interpolation works in every position that allows it (values, selectors, at-rule conditions), any number of times.",
["programs"],"every macro program generated from the grammar of C02 with interpolations at every position and argument list within the stated bounds, compiled by the real compiler and run",
"Tests cover about a dozen fixed programs.",
[MA+"literal/mod.rs",MA+"literal/fstring.rs",MA+"literal/to_output_with_args.rs",MA+"output/mod.rs"],[("fstring parser",MA+"literal/fstring.rs"),("argument substitution into the parsed sheet",MA+"literal/to_output_with_args.rs")],observe=["sheet produced by the macro at run time"])
p("C18","Inline macros mean the CSS they spell",
"An inline macro call gives a stylesheet with the meaning of the CSS written between the braces, with each interpolated expression replaced by its displayed value: every token is kept in order, spacing that changes CSS meaning follows the documented rule, and selectors, at-rules, keyframes and nested at-rules keep their structure. The generated stylesheet is accepted by the parser.",
["programs"],"every inline macro program generated within the stated bounds (constructs, combinators, functions, units, strings, interpolation positions), compiled by the real compiler and run",
"Tests cover about twenty fixed programs; spacing between component values depends on pairs of neighbouring tokens, which only enumeration covers.",
[MA+"inline/",MA+"spacing_iterator.rs",MA+"output/"],[("component value spacing",MA+"inline/component_value/mod.rs"),("SpacedIterator",MA+"spacing_iterator.rs"),("static/dynamic output contexts",MA+"output/context.rs")],observe=["sheet produced by the macro at run time"])
p("C19","Misused macros fail to compile",
"A macro call that cannot be honoured is rejected by the compiler with an error instead of producing different CSS: a placeholder without an argument, an unused or duplicate argument, unparsable CSS, an unsupported at-rule, nested blocks, a block in a declaration value, illegal attribute names, and an interpolated value that cannot be displayed. Each of these is rejected wherever in the stylesheet it occurs.",
["programs"],"every misuse of the listed kinds at every position of the program skeletons within the stated bounds, each paired with the corrected program, which must compile",
"The compile-fail suite has six fixed files, each with one misuse at the top level.",
[MA+"literal/mod.rs",MA+"literal/to_output_with_args.rs",MA+"inline/parse/"],[("unused/missing argument errors",MA+"literal/mod.rs"),("parse errors of inline items",MA+"inline/parse/mod.rs")],observe=["rustc diagnostics"])
p("C20","Interpolated values are evaluated freshly, once and in order",
"Each time a macro expression is evaluated, every interpolated expression or argument is evaluated exactly once, in source order (the arguments of a string literal in the order they are given, also when one is used several times), and its current value is what the resulting style shows, including in loops, recursion and closures; macro expressions without interpolation give equal sheets on each evaluation. Two evaluations with different values never share CSS, and with equal values they share the class.",
["programs","histories"],"every macro program with up to the stated number of interpolations at every position, evaluated under every sequence of values up to the stated length",
"Static caching of macro output is decided per nested construct; tests evaluate each call once.",
[MA+"output/context.rs",MA+"output/maybe_static.rs",MA+"output/sheet.rs",MA+"literal/to_output_with_args.rs"],[("Const/Static/Dynamic output contexts",MA+"output/context.rs")],observe=["sheets from repeated evaluation"])
p("C21","Components style through the nearest manager, on server and client",
"In a component tree, a style made with css!, use_style or a global style component is registered in the manager of the nearest enclosing provider, or the default manager without one; the class attribute rendered for an element is the class of a style present in that manager's style data with the right CSS. Components rendering the same style share one class, and rendering any component tree never panics.",
["programs","histories"],"every component tree up to the stated size over style consumers, providers and global styles, rendered by the real server renderer, with and without style data",
"No test renders a component tree with more than one provider, or checks the data against the HTML.",
[ST+"yew/mod.rs",ST+"yew/provider.rs",ST+"yew/global.rs",ST+"yew/hooks/use_style.rs",MA+"styled_component.rs",MA+"styled_component_impl.rs"],[("contextual manager",ST+"yew/provider.rs"),("css! injection in styled_component",MA+"styled_component_impl.rs")],observe=["rendered HTML","StyleData"])
p("C22","Media-query hooks always show the current match",
"At every point after rendering settles, the value returned by the media-query hooks is whether the query given in the latest render matches the viewport now: it follows every change of the viewport and every change of the query, also when the two happen together. A component that was not rendered by a server never shows the fallback value. Listeners of earlier queries and of unmounted components have no effect.",
["histories"],"every sequence of viewport changes, query changes, re-renders, unmounts and remounts up to the stated length over two queries",
"Nothing in the suite runs the hooks, which need a browser event loop.",
[ST+"yew/hooks/use_media_query.rs"],[("use_media_query, use_prepared_media_query effects and listeners",ST+"yew/hooks/use_media_query.rs")],observe=["value returned by the hook after each step"])
p("C23","Global style components follow mount, update and unmount",
"While mounted, a global style component keeps exactly one registration of its current CSS in its manager; when its CSS or manager changes the old one is removed and the new one takes effect, and unmounting removes it. Several such components do not disturb each other, and on the server a component's style stays in the collected style data.",
["histories"],"every sequence of mount, re-render with the same or different CSS, manager change and unmount over one and two components up to the stated length",
"Nothing in the suite mounts, updates and unmounts a component.",
[ST+"yew/global.rs",ST+"yew/hooks/use_style.rs",ST+"global_style.rs"],[("guard in Global that unregisters on drop",ST+"yew/global.rs")],observe=["document content after each step","StyleData"])
p("C24","Managers are what their builders were told",
"A manager has exactly the prefix, container, insertion order and static writer that were set last on its builder, in whatever order and however often settings are given, and the documented defaults for what was not set (prefix 'stylist', the document head, appending, no writer). It reports the prefix and container itself, and identifiers, style elements and collected data of its styles follow them. Clones of a manager and managers converted from a reference are the same manager, equal to it and sharing its styles, and keep it alive; managers built separately are different, even with equal settings; the default manager of a thread equals itself and no other.",
["inputs","histories"],"every sequence of builder calls up to the stated length, and style histories on the manager built, on a twin built alike and on copies",
"Tests set at most one option, once, and never compare managers.",
[ST+"manager/mod.rs",ST+"manager/ssr.rs"],[("StyleManagerBuilder",ST+"manager/mod.rs"),("PartialEq for StyleManager",ST+"manager/mod.rs"),("StyleManagerBuilder::writer",ST+"manager/ssr.rs")],observe=["StyleManager::prefix","StyleManager::container","document content","StyleData","StyleManager equality"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
