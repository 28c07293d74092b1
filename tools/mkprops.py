#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
E="laby_common/src/internal/escape.rs"; B="laby_common/src/internal/buffer.rs"; R="laby_common/src/render.rs"
H="laby/src/helpers.rs"; D="laby/src/doctype.rs"; MB="laby_macros/src/build.rs"; MN="laby_macros/src/node.rs"; MM="laby_macros/src/matching.rs"; MC="laby_macros/src/component.rs"; ML="laby_macros/src/lib.rs"; L="laby/src/lib.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Escaping replaces exactly the five special characters",
 "Escaping a string into a buffer appends that string with every \" & ' < > replaced by &quot; &amp; &#39; &lt; &gt; and every other byte unchanged and in order, after the buffer's previous contents, which stay intact. The result is the same whichever instruction-set variant (scalar, SSE2, AVX2) the CPU selects, wherever the string lies in memory and whatever spare capacity the buffer had; the string-returning form gives the same text.",
 ["inputs","configurations"],"Every string (up to the bound on its length), every placement of special characters, every alignment, every prior buffer content length and capacity, every CPU feature set.",
 "laby/tests/escape.rs runs a handful of random strings on the one variant the test machine has; SSE2 and scalar code never run, and block boundaries, alignments and capacities are not controlled.",
 [E,B],[("variant dispatch",E+": escape_impl/detect"),("AVX2 block scan and tail mask",E+": mod avx2"),("SSE2 block scan and tail mask",E+": mod sse2"),("8-byte word scan",E+": mod fallback"),("byte loop and entity write",E+": mod naive"),("lookup tables",E+": ESCAPE_LUT, ESCAPED")],
 ["Buffer contents after escape()","escape_str() result"])
p("C02","Escaping and rendering never touch memory they do not own",
 "While text is escaped or a value rendered, every read stays inside the input, every write stays inside the buffer's current allocation, nothing is used after it was freed or moved, and no uninitialised byte reaches the output. This holds on every CPU variant, for every length, alignment and remaining capacity.",
 ["inputs","configurations"],"Every input length in the bound, every byte content, every alignment of the input, every amount of spare capacity, every CPU variant, and a reallocation that moves the buffer every time.",
 "An out-of-bounds read inside a vector block or a write just past the capacity is silent in an ordinary test run; tests use generous capacities and one CPU variant, and never run under a memory checker.",
 [E,B,R],[("capacity reservation before raw writes",B+": reserve_small/reserve_internal"),("6x reservation for short strings",E+": escape_impl"),("unaligned block loads",E+": avx2/sse2/fallback"),("raw number writes",R+": impl_int/impl_float")])
p("C03","Only code the CPU supports is ever executed, in any order of first calls",
 "Whatever features the processor and operating system report, escaping only ever executes instructions they support, and produces the same text. Threads racing on the first calls cannot make a call run a wrong or unsupported implementation.",
 ["configurations","schedules"],"Every CPUID and XCR0 answer, and every interleaving of the loads and stores of concurrent first calls.",
 "Tests run on one machine with AVX2; no test can present a CPU without SSE2, with AVX but not AVX2, or with AVX state disabled by the OS, nor control the race on the first call.",
 [E],[("one-time feature detection",E+": detect"),("cached implementation pointer",E+": static FN")])
p("C04","Buffer appends keep the contents exactly",
 "After any sequence of buffer operations (append string or char, +, +=, formatted writes, reserve, clear, clone) the buffer's text is exactly the concatenation of what was appended since it was created or last cleared, in order, and its length is that text's length. Growing the buffer never changes its text.",
 ["histories","inputs"],"Every sequence of operations up to the bound, with arbitrary string contents and lengths, chars, and starting capacities.",
 "Unit tests only append a few fixed strings; the interplay of growth, clear and reuse over arbitrary histories is not sampled.",
 [B],[("append",B+": push_str/push"),("growth",B+": reserve_internal/safe_realloc"),("operators",B+": Add/AddAssign/fmt::Write")])
p("C05","Reserving capacity either provides it or panics",
 "After a successful reserve of n bytes the buffer takes n more bytes of text (pushed, added, or written in one or several pieces) without reallocating, capacity never shrinks and never goes below the length, and the buffer always asks the allocator to grow or free exactly the block it holds. A request that cannot be satisfied (beyond the maximum allocation size) panics, in every build profile, and never yields a buffer that claims room it does not have.",
 ["inputs","histories"],"Every length, capacity and requested size, including sizes near the top of the integer range, in dev and release profiles.",
 "No test calls reserve with large sizes or looks at capacity, and overflow behaves differently in the dev profile tests run under and in release.",
 [B],[("reserve and growth arithmetic",B+": reserve/reserve_small/reserve_internal"),("allocation size checks",B+": safe_alloc/safe_realloc"),("layout at release",B+": Drop")])
p("C06","Buffer conversions preserve text and ownership",
 "Turning a String or &str into a buffer, a buffer into a String, cloning a buffer and clearing it preserve the text exactly, give independent copies where a copy is promised, and leave each block of memory with exactly one owner who can go on using it.",
 ["inputs","histories"],"Every string content and length in the bound, every String capacity, buffers built in every way and used further after the conversion.",
 "Tests only exercise into_string on freshly rendered buffers; conversions from Strings with spare capacity, clones and later use are not tested.",
 [B],[("from String/&str",B+": From impls"),("into_string",B+": into_string"),("clone",B+": Clone"),("drop",B+": Drop")])
p("C07","Every char renders as itself, escaped",
 "Rendering a char appends its UTF-8 encoding, except that \" & ' < > become their entities; the result equals rendering the one-character string.",
 ["inputs"],"All 1,112,064 Unicode scalar values and every buffer state.",
 "Tests render a few chars; the char and string paths are separate code.",
 [R,B],[("char rendering",R+": impl Render for char"),("encoding into spare capacity",B+": push")])
p("C08","Integers render as their exact decimal text",
 "Rendering any integer, of any width and signedness including 128-bit and non-zero types, appends its shortest decimal representation, with a leading minus sign exactly for negative values, and nothing else.",
 ["inputs"],"Every value of every integer type (as far as the solver bound reaches per width), with every spare capacity.",
 "A few numbers out of 2^8 to 2^128 are tested.",
 [R],[("integer writer and reservation",R+": impl_int"),("non-zero forwarding",R+": impl_nonzero_int")])
p("C09","Floats render completely and within the reserved space",
 "Rendering a finite float appends exactly what the shortest-representation formatter produces for it, with enough room for its longest output; NaN renders NaN and the infinities render inf and -inf, with any previous contents kept.",
 ["inputs"],"All 2^32 and 2^64 bit patterns, every spare capacity, under the formatter's documented contract.",
 "Tests render one or two floats; the longest outputs and the special values are not covered.",
 [R],[("float rendering",R+": impl_float")])
p("C10","Wrapper and trivial values render exactly their contents",
 "Option renders its value or nothing, Cow renders like the borrowed or owned value it holds, unit renders nothing, and booleans render true or false. String and &str render identically.",
 ["inputs"],"Every variant, nested to the bound, around arbitrary inner values.",
 "Each variant is tested with single literals, if at all.",
 [R],[("wrappers",R+": impl for Option/Cow/()/bool")])
p("C11","Formatted values are escaped whatever pieces they are written in",
 "Rendering format arguments or a Display value appends the escaped form of the complete formatted text: the result does not depend on how the formatting code splits it into strings and chars. Text that needs escaping can come from the template literal, the arguments or padding alike.",
 ["inputs","programs"],"Every way of splitting a text into write_str and write_char calls up to the bound, with arbitrary contents, and format strings with arbitrary argument values.",
 "disp.rs formats one or two fixed values; a writer that leaves one entry point unescaped passes them.",
 [R,H],[("escaping writer",R+": EscapingBufferWriter"),("display wrapper",H+": RenderDisplay")])
p("C12","Iterators render every item once, in order, delimiters only between",
 "An iterator template renders each item the iterator yields before its first end, in order, each exactly once, with the raw delimiter between consecutive items and nowhere else; empty and single-item iterators get no delimiter. The iterator is not advanced again after it reports its end.",
 ["inputs","histories"],"Every iterator behaviour up to the bound on calls, including iterators that would yield again after returning None, with arbitrary items and delimiters.",
 "iter.rs uses a few fixed arrays; empty, single and non-fused iterators are not systematically covered.",
 [H],[("plain iteration",H+": RenderIterator"),("delimited iteration",H+": RenderIteratorDelimited"),("macros",H+": iter!/iter_lines!")])
p("C13","Raw text is passed through verbatim",
 "A raw value is appended byte for byte, without escaping, at exactly its place, for every string-like type and wherever it is used; text next to it is still escaped.",
 ["inputs"],"Every string in the bound, every position (child, attribute value, iterator item, component argument).",
 "A few fixed strings are tested.",
 [H],[("raw wrapper",H+": RenderRaw")])
p("C14","Normal elements render start tag, children and end tag",
 "Each of the 101 normal element macros renders <name attributes>children</name> with its own name in both tags, children in source order with nothing added between or around them, for any mix of children kinds and any values.",
 ["inputs","programs"],"All 101 elements; child lists up to the bound mixing literals, strings, numbers, nested elements, fragments and expressions with arbitrary values.",
 "elements.rs and complex.rs cover few tags and fixed values.",
 [ML,MB,MN],[("tag tables",ML+": declare_tags"),("element building",MB+": build_inner"),("code generation",MN)])
p("C15","Void elements render a single tag",
 "Each of the 14 void element macros renders <name attributes> and nothing else: no end tag, no content.",
 ["inputs","programs"],"All 14 elements, alone and nested, attribute lists up to the bound with arbitrary values.",
 "Only one or two void tags appear in tests.",
 [ML,MB],[("tag tables",ML+": declare_tags"),("void handling",MB+": build_inner")])
p("C16","Attributes render in order, quoted, with escaped values",
 "Each attribute renders as one space, its name, =\" , the rendered value and \" inside the start tag, in source order, wherever it stands among the children; names may be identifiers (raw identifiers without their r# prefix), literals or expressions, and values any renderable. A value from data can never end the quoted string.",
 ["inputs","programs"],"Attribute lists up to the bound over all name forms and value kinds, arbitrary values.",
 "attributes.rs checks few fixed combinations.",
 [MB],[("attribute rendering",MB+": set_attr"),("name forms",MB+": try_unwrap_ident/try_unwrap_literal")])
p("C17","Boolean attributes appear exactly when true",
 "A boolean attribute renders as one space and its name if its condition is true, and as nothing at all if it is false, whether the condition and the name are literals or runtime expressions, without affecting neighbouring attributes.",
 ["inputs","programs"],"All truth assignments of the boolean attributes of an element, all name forms, mixed with ordinary attributes.",
 "boolean.rs checks single fixed cases.",
 [MB],[("boolean attributes",MB+": set_boolean_attr")])
p("C18","Nesting inline or through a variable renders the same",
 "Writing an element macro directly inside another renders exactly the same as building the inner element first and passing it as a value, at any depth, for elements, void elements and fragments, inside attributes' owners, fragments and separators alike.",
 ["inputs","programs"],"Every nesting shape in the bound, each written inline and with every inner node hoisted, arbitrary values.",
 "flatten.rs compares one shape.",
 [MB,MN],[("flattening",MB+": build_inner"),("field numbering",MN+": store_generic/store_concrete")])
p("C19","Fragments add nothing; class lists are space separated",
 "A fragment renders its children one after another with nothing added. A class list renders its values in order with exactly one space between consecutive values and none at the ends, also when nested in other nodes.",
 ["inputs","programs"],"Child lists up to the bound, nested and empty, arbitrary values.",
 "frag.rs and classes.rs check a few fixed lists.",
 [MB,ML],[("separator handling",MB+": build_inner"),("fragment kinds",ML+": frag/classes")])
p("C20","A conditional fragment renders exactly the branch taken",
 "A conditional fragment over if/else-if/else or match renders exactly the expression of the branch ordinary Rust would take, once, and renders nothing when no branch is taken; branches that are not taken are not evaluated. A branch may leave the surrounding function or loop (return, ?, break, continue) as in an ordinary if or match.",
 ["inputs","programs"],"All values of the conditions or scrutinee, for if chains and matches (guards, bindings, or-patterns, blocks) up to the bound.",
 "frag_match.rs checks some fixed inputs.",
 [MM],[("if chains",MM+": generate_from_if"),("match arms",MM+": generate_from_match")])
p("C21","Component arguments reach the parameters they name",
 "Calling a component passes each named argument to the parameter of that name in whatever order they are written, uses the declared default (or Default::default()) exactly for omitted optional parameters, and wraps the remaining positional arguments, in order, for the rest parameter (with frag!, or with the function or macro that the rest attribute names, also when there are none). The result renders exactly what calling the function directly would (an argument may be any expression the direct call takes, also one that borrows from a temporary or leaves the surrounding function), from wherever in the crate the function is visible. (Calling the component macro by a path is outside: its documentation restricts that.)",
 ["inputs","programs"],"Every order and subset of named arguments for components up to the bound, with defaults and rest parameters in every position, arbitrary values.",
 "component.rs exercises a few calls in mostly declaration order.",
 [MC],[("argument mapping",MC+": generate_component_macro_call"),("attributes",MC+": pop_default_attr/pop_rest_attr")])
p("C22","A literal renders the same as the equal runtime value",
 "A literal written in a template (string, char, byte, bool, integer, float, suffixed, parenthesised or in a block; as child, attribute value or attribute name) renders exactly like the same value held in a variable.",
 ["inputs","programs"],"A corpus of literals of every kind and form, including boundary values, against the same value made opaque at run time.",
 "literal.rs checks a few simple literals; suffixes and boundaries are not covered.",
 [MB],[("compile-time rendering",MB+": try_unwrap_literal/try_render_literal")])
p("C23","Template expressions are evaluated once, eagerly, in source order",
 "Each expression in a template is evaluated exactly once, when the template is constructed and not when it is rendered, attributes before children and otherwise in source order (an attribute's name before its value, except that the condition of a boolean attribute comes before its name, and iter! evaluates its iterator before its delimiter, as its documentation shows); a component's arguments are evaluated once each in the order of its parameters. An expression that leaves the surrounding function or loop (return, ?, break) does so at its place in that order and nothing behind it is evaluated. Constructing a template without rendering it produces no output. Rendering invokes each value's rendering exactly once, in output order.",
 ["inputs","programs","histories"],"Templates mixing attributes, boolean attributes, children, nesting, class lists and components up to the bound with side-effecting expressions.",
 "No test observes evaluation count or order.",
 [MN,MB],[("construction",MN+": NodeCtor"),("rendering",MN+": NodeRender")])
p("C24","Rendering appends and composes",
 "Rendering any template into a buffer appends to whatever the buffer held and gives the same text as rendering it alone; rendering several in turn gives the concatenation of their texts. render! returns exactly that text, for one or many arguments and outputs larger than its initial capacity, and the doctype renders <!DOCTYPE html>.",
 ["inputs","histories"],"Every prior buffer content and capacity in the bound, every sequence of renderables up to the bound.",
 "Tests render each template once into a fresh large buffer.",
 [H,D,MN],[("render!",H+": render!"),("doctype",D)])
p("C25","Untrusted text can never become markup",
 "In the output of any template, every byte that came from a non-raw string, char, format argument, Display value, iterator item or component argument is free of raw \" ' < >, each & in it starts one of the five entities, and decoding those entities gives back the original text exactly.",
 ["inputs","programs"],"All untrusted values in the bound in every position of the template corpus, every CPU variant.",
 "Injection needs a particular byte at a particular place; tests use fixed values.",
 [E,R,MB,H],[("escaping",E),("escaping of every text type",R),("attribute quoting",MB+": set_attr")])
p("C26","Rendering does not panic, overflow or misbehave in any build profile",
 "Constructing and rendering templates from values whose own rendering does not panic never panics, in dev (overflow checks and debug assertions) and release builds alike, and both give the same text.",
 ["inputs","configurations"],"All inputs of the escape, buffer, value and template harnesses, built in both profiles.",
 "Tests run in one profile with fixed inputs; an arithmetic overflow or failing debug assertion at a boundary is not reached.",
 [E,B,R,MN],[("debug assertions and arithmetic",E+", "+B)])
p("C27","No leaks or double frees, even when rendering panics",
 "Every block of memory taken while building and rendering templates and buffers is released exactly once with the size it was taken with, also when a user-supplied value panics in the middle of rendering; a buffer that survives such a panic holds valid text ending at the last completed write.",
 ["inputs","fault_sequences","crash_points"],"Every point at which a user value's rendering may panic, for the template and buffer harnesses, including growth at any append.",
 "No test panics during rendering or counts allocations.",
 [B,MN,H],[("ownership in Buffer",B+": Drop/into_string/Clone"),("moved fields in generated code",MN+": NodeRender")])
p("C28","Templates allocate nothing but the output buffer",
 "Constructing and rendering a template made of borrowed text, numbers, chars, nested elements, iterators and components performs no heap allocation other than those of the output buffer, and none at all when the buffer already has room. A buffer made empty and without a requested capacity allocates nothing until something is written.",
 ["inputs","programs"],"All values of the template corpus, buffers with and without room.",
 "No test looks at the allocator.",
 [R,MN,B],[("by-value generated structs",MN+": NodeDecl"),("direct writes",R)])
p("C29","Names in user code never clash with generated code",
 "A template means the same whatever the local variables, functions, types, variants and modules around it are called, including names from the prelude (Option, Some, None, String, Render, bool) and the names the expansion uses itself for its parameter, fields and locals (buffer, t1, t2, item, buf). Left aside are names that start with an underscore, and constants or statics spelled like a generated field.",
 ["programs","inputs"],"A corpus of templates whose variables and functions carry every name that appears in the expansion, arbitrary values.",
 "No test uses clashing names.",
 [MN,MM,ML],[("span hygiene of generated identifiers",MN+", "+MM)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
