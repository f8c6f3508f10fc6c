#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
L = "Sources/"
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    w = WHERE[id]; assert len(w) == len(mech), id
    for f in files:
        assert os.path.exists("/repo/" + L + f), f
    a = {"files": [L + f for f in files], "mechanism": [{"name": m, "where": ", ".join(L + files[i] for i in ix)} for m, ix in zip(mech, w)]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": L + files[0]} for n, m in state]
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
WHERE = {'C01': [[0], [0, 1, 2], [0], [0]], 'C02': [[0, 1], [0, 2]], 'C03': [[0], [3]], 'C04': [[0, 1, 2]], 'C05': [[0], [1, 2]], 'C06': [[0, 1], [0, 2]], 'C07': [[0], [1]], 'C08': [[0, 2], [0, 1]], 'C09': [[0, 1], [0, 2]], 'C10': [[0, 1], [0], [2]], 'C11': [[0], [3, 2], [0, 1], [4]], 'C12': [[0], [0], [1, 2]], 'C13': [[0], [1], [3]], 'C14': [[0], [1], [2]], 'C15': [[0, 1], [1]], 'C16': [[0, 1], [0, 1]], 'C17': [[0], [0], [0]], 'C18': [[0, 1], [0, 1]], 'C19': [[0], [0], [0]], 'C20': [[0], [0], [0]], 'C21': [[0], [1], [0, 1]], 'C22': [[0]], 'C23': [[0, 1]], 'C24': [[0, 1], [2]], 'C25': [[2, 5], [0, 2]], 'C26': [[0, 4], [0, 1]], 'C27': [[0], [0]]}
props = [
P("C01", "Tokenization does not depend on how source text is delivered",
  "The sequence of tokens produced for a source text, with each token's text and kind, depends only on the text: feeding it whole, character by character, or in any split (including splits inside a multi-byte character) gives the same tokens, the same end-of-input behaviour and the same diagnostics. Every character of the text that is not skippable white space or a comment ends up in exactly one token or in an unrecognised-text diagnostic, in order, and each token is the longest one the language allows at its position.",
  ["inputs", "histories"], "Every source text over the language's character set and every way to cut it into consecutive chunks.",
  "Tests feed whole fixed files; none varies the split points or quantifies over texts.",
  ["Core/Processing/Lexer.cpp", "Core/Processing/InputBuffer.cpp", "Core/Processing/LexerState.cpp", "Core/Processing/Handlers/IdentifierTokenizingHandler.cpp", "Core/Processing/Handlers/StringLiteralTokenizingHandler.cpp", "Core/Data/Grammar/StandardFactory.cpp"],
  ["UTF-8 reassembly across calls", "parallel lexer states over an input buffer with groups", "longest-match selection and replay of unread characters", "unrecognised-text buffering"]),
P("C02", "Every token and diagnostic carries its exact line and column",
  "The line and column attached to each token, and hence to each diagnostic, are those of the token's first character in the source, counting every newline and every character before it exactly once. This holds whatever precedes the token: multi-line comments, strings, unrecognised text, tabs, and multi-byte characters.",
  ["inputs"], "Every source text: all mixes of newlines, white space, comments, literals, unrecognised characters and multi-byte characters.",
  "Tests check the position of a few diagnostics in fixed files.",
  ["Core/Processing/InputBuffer.cpp", "Core/Processing/InputBuffer.h", "Core/Processing/Lexer.cpp", "Core/Data/source_location.cpp"],
  ["per-group start positions in the input buffer", "position bookkeeping when characters are pushed, removed and replayed"]),
P("C03", "String and character literals denote exactly the characters written",
  "A string or character literal evaluates to precisely the characters between its quotes after replacing each documented escape sequence by the character it names, with nothing dropped, added or reordered. The stored text is zero terminated and its length in storage matches, for every mix of plain and escaped characters including hexadecimal escapes and escapes at either end of the literal.",
  ["inputs"], "Every literal content, all escape sequences, all positions of escapes.",
  "Tests use a handful of fixed literals.",
  ["Core/Processing/Handlers/StringLiteralTokenizingHandler.cpp", "Core/Processing/Handlers/StringLiteralTokenizingHandler.h", "Core/Data/Grammar/StandardFactory.cpp", "Spp/CodeGen/ExpressionGenerator.cpp"],
  ["escape processing on the token text", "literal constant generation"]),
P("C04", "Numeric literals denote their mathematical value",
  "An integer literal in any supported base denotes the value of its digits, with the type its suffix asks for, and a floating literal denotes the nearest representable value. No in-range literal is truncated, sign-flipped or read in the wrong base.",
  ["inputs"], "Every literal spelling whose value fits its type.",
  "Tests contain a few literal values; boundaries between types and bases are not covered.",
  ["Spp/CodeGen/ExpressionGenerator.cpp", "Core/Data/Ast/ast.cpp", "Spp/Ast/Helper.cpp", "Core/Data/Grammar/StandardFactory.cpp"],
  ["literal text parsing and type selection by suffix and magnitude"]),
P("C05", "Operator precedence and associativity are as documented",
  "An expression built from several operators evaluates as if fully parenthesised by the documented priority table: from lowest to highest assignment, logical, comparison, additive, multiplicative, bitwise/shift and unary; operators of equal priority group from the left, assignments from the right. Explicit parentheses always override that grouping.",
  ["programs", "inputs"], "Every combination of operators, and all operand values.",
  "Tests evaluate a few fixed expressions on fixed values, most of them with one operator.",
  ["Core/Data/Grammar/StandardFactory.cpp", "Core/Processing/Parser.cpp", "Core/Processing/Handlers/GenericParsingHandler.cpp", "Spp/CodeGen/ExpressionGenerator.cpp"],
  ["expression grammar levels", "list-expression folding into operator nodes"]),
P("C06", "Integer arithmetic and bit operations are exact at every width",
  "Every integer operator (addition, subtraction, multiplication, division, remainder, bitwise and, or, xor, complement, shifts, negation, increment, decrement and the compound assignments) yields the mathematically exact result reduced modulo the width of the operation's type (the wider operand's, and at least 32 bits for arithmetic), honouring its signedness. Pre and post forms of increment and decrement yield the new and the old value respectively, and a compound assignment updates exactly its target.",
  ["inputs", "programs"], "All operand values of all integer widths and signednesses.",
  "Tests print results for a few small operands.",
  ["Spp/CodeGen/ExpressionGenerator.cpp", "Spp/LlvmCodeGen/TargetGenerator.cpp", "Spp/CodeGen/TypeGenerator.cpp"],
  ["operator lowering chosen by operand type and signedness", "implicit promotion to a common type"]),
P("C07", "Comparisons follow value order and logical operators short-circuit",
  "Comparison operators order integers by their signed or unsigned value, floats by IEEE rules and pointers by address, for every width. Logical operators evaluate their right operand only when the left one does not decide the result, evaluate each operand at most once, and yield a proper Boolean.",
  ["inputs", "programs"], "All operand values and types; all truth assignments; any side effects in operands.",
  "Tests compare a few constants and do not observe evaluation of skipped operands over all values.",
  ["Spp/CodeGen/ExpressionGenerator.cpp", "Spp/LlvmCodeGen/TargetGenerator.cpp"],
  ["predicate selection by signedness", "branching lowering of logical operators"]),
P("C08", "Numeric conversions preserve or reduce values as specified",
  "A conversion between numeric types, implicit or explicit, keeps the value whenever the destination can represent it; otherwise integer narrowing keeps the low bits, widening extends by the signedness of the source, and float to integer truncates toward zero. A Boolean widens to 0 or 1, and pointer/integer casts round-trip.",
  ["inputs", "programs"], "All source values for every pair of numeric types.",
  "Tests cast a few small constants.",
  ["Spp/CodeGen/TypeGenerator.cpp", "Spp/LlvmCodeGen/TargetGenerator.cpp", "Spp/Ast/Helper.cpp"],
  ["cast selection by type pair", "sign and width dispatch in the target generator"]),
P("C09", "Floating-point operators give IEEE results in the operand precision",
  "Arithmetic, negation, comparison and compound assignment on floating-point operands give the correctly rounded IEEE result in the wider of the two operand types, with no operand swapped, dropped or rounded to a narrower type, also when one operand is an integer.",
  ["inputs", "programs"], "All float and double operand values, including infinities, zeros of either sign and subnormals.",
  "Tests print a few decimal results.",
  ["Spp/CodeGen/ExpressionGenerator.cpp", "Spp/LlvmCodeGen/TargetGenerator.cpp", "Spp/CodeGen/TypeGenerator.cpp"],
  ["float operator lowering", "promotion of mixed operands"]),
P("C10", "Control flow executes exactly the statements the program says",
  "Conditionals, while and for loops, break and continue (including multi-level forms) and early returns execute each statement exactly as many times and in the order the source prescribes, for every value that steers them. Loop conditions and step expressions are evaluated exactly once per iteration at the documented point, also when a continue skips the rest of a body.",
  ["inputs", "programs"], "All values of the steering variables and all nestings within the checked programs.",
  "Tests run each construct for one or two fixed values.",
  ["Spp/CodeGen/CommandGenerator.cpp", "Spp/LlvmCodeGen/TargetGenerator.cpp", "Spp/CodeGen/Generator.cpp"],
  ["block layout of if, while and for", "jump level resolution for break and continue", "terminal statement tracking"]),
P("C11", "Calls deliver every argument and result intact",
  "A call passes each argument to the matching parameter with the value the caller supplied (values copied, references and pointers aliasing the original), runs the callee selected by overload rules, and hands its result back unchanged. This holds for mixed widths, structures by value, variadic arguments, recursion, function pointers and method calls, and a callee's changes to by-value parameters never reach the caller.",
  ["inputs", "programs"], "All argument values for each signature shape within the checked programs.",
  "Tests call functions with a few fixed values.",
  ["Spp/CodeGen/ExpressionGenerator.cpp", "Spp/CodeGen/Generator.cpp", "Spp/Ast/FunctionType.cpp", "Spp/Ast/CalleeTracer.cpp", "Spp/LlvmCodeGen/TargetGenerator.cpp"],
  ["argument preparation and implicit casting", "overload matching", "by-value object copies at call boundaries", "variadic argument retrieval"]),
P("C12", "Structures, arrays and pointers address distinct, intact storage",
  "Writing one member, element or pointee changes that location and no other; reading it back yields what was written; assigning or copying an object copies every member, and later changes to either copy do not affect the other. Size queries and pointer arithmetic agree with the layout actually used.",
  ["inputs", "programs"], "All values and all in-range indices for the checked layouts (mixed widths, nested objects, arrays of objects, embedded members).",
  "Tests read back a few members with fixed indices.",
  ["Spp/LlvmCodeGen/TargetGenerator.cpp", "Spp/CodeGen/TypeGenerator.cpp", "Spp/CodeGen/ExpressionGenerator.cpp"],
  ["member index assignment", "array element addressing", "copy construction of aggregates"]),
P("C13", "Every constructed object is destroyed exactly once on every path",
  "Each object with a constructor and destructor (local variable, temporary, by-value parameter, returned value, member, element of an Srl array) is constructed before use and destroyed exactly once, when its scope ends by any route: falling through, break, continue, early return or short-circuited evaluation. No object is destroyed that was not constructed, and none is used after destruction.",
  ["inputs", "programs"], "All steering values, hence all exit paths, of the checked programs.",
  "Tests log a single path per construct; most exit paths are never taken.",
  ["Spp/CodeGen/Generator.cpp", "Spp/CodeGen/ExpressionGenerator.cpp", "Spp/CodeGen/CommandGenerator.cpp", "Spp/CodeGen/TypeGenerator.cpp"],
  ["destruction scope stack", "temporary registration", "auto generated constructors and destructors"]),
P("C14", "Generic types and functions behave like hand-specialised code",
  "Instantiating a template with given types or constants behaves exactly as the same code written for those arguments; instantiations with different arguments never share or mix code, storage or layout, and equal arguments denote the same type. Closures capture variables as declared: by-value captures keep the value at creation, by-reference captures observe later changes.",
  ["inputs", "programs"], "All values flowing through the checked instantiations and closures.",
  "Tests instantiate few arguments and use fixed values.",
  ["Spp/Ast/Template.cpp", "Spp/CodeGen/AstProcessor.cpp", "Srt/closure.alusus", "Spp/CodeGen/Generator.cpp"],
  ["template instance lookup by arguments", "macro and pre-processing substitution", "closure payload construction"]),
P("C15", "Names resolve to the innermost visible declaration",
  "A name used in code refers to the declaration in the nearest enclosing scope that is visible at that point; shadowing in an inner scope never changes the outer entity, members are found through their object, and imported or used modules are consulted only after enclosing scopes. The entity found does not depend on declaration order at module level or on unrelated declarations with other names.",
  ["inputs", "programs"], "All values of the variables involved, all names and scope shapes within the checked bounds.",
  "Tests exercise a few fixed scope shapes.",
  ["Core/Data/Seeker.cpp", "Spp/SeekerExtension.cpp", "Core/Data/Ast/Scope.cpp", "Spp/Ast/CalleeTracer.cpp"],
  ["owner-chain search with skip flags", "use-in-scope handling"]),
P("C16", "Strings are independent values",
  "Copying a string and then changing either copy by any operation never changes the other, even though copies share storage. Assigning a string to itself, or appending or assigning a string from its own contents, gives the result the operation would give on an independent copy; storage is released exactly once.",
  ["histories", "inputs"], "All sequences of string operations over several variables within the checked length, and all contents.",
  "Tests check two or three fixed sequences.",
  ["Srt/Srl/String.alusus", "Srt/Srl/WString.alusus", "Srt/Srl/strs.h"],
  ["shared reference-counted buffer", "copy before modification"], [("refCount", "number of string values sharing a buffer"), ("buf", "zero-terminated contents")]),
P("C17", "String searching, slicing, trimming, splitting and replacing are exact",
  "Each query or transformation of a string (find first and last, from a position, compare, slice, trim, split, merge, replace, ASCII case change, character access, resizing) returns what the sequence of characters mathematically determines, with not-found and empty results where documented. It terminates for every argument and never reads or writes outside the string's storage.",
  ["inputs"], "All zero-free contents, patterns (an empty pattern matches nothing in split and replace), positions and counts up to the stated lengths.",
  "Tests use a few fixed strings; empty patterns, overlaps and boundary positions are not covered.",
  ["Srt/Srl/String.alusus", "Srt/Srl/WString.alusus"],
  ["pointer-difference positions", "search loops", "slice and trim bounds"]),
P("C18", "Numbers convert to text and back without loss",
  "Appending an integer to a string or string builder produces its exact decimal representation for every value, including the most negative one, and a float produces its value rounded to six decimal places. Parsing decimal integer text yields exactly the number it spells, and parsing decimal fractions yields it up to floating-point rounding.",
  ["inputs"], "All 64-bit integers and floats of moderate magnitude (below 2^40); all digit strings up to the stated length.",
  "Tests convert a few small numbers.",
  ["Srt/Srl/String.alusus", "Srt/Srl/StringBuilder.alusus"],
  ["digit generation in a fixed buffer", "fraction rounding"]),
P("C19", "A string builder yields exactly the concatenation of what was appended",
  "After any sequence of appends, clears and growths the builder's contents and length are exactly the concatenation, in order, of the appended texts since the last clear; format placeholders expand to the textual form of the matching argument. Growth of the internal buffer never loses, duplicates or corrupts text.",
  ["histories", "inputs"], "All sequences of builder operations within the checked length and all contents.",
  "Tests build a few fixed strings that rarely cross a growth boundary.",
  ["Srt/Srl/StringBuilder.alusus"],
  ["chunked buffer growth", "length bookkeeping", "format parsing"]),
P("C20", "Arrays behave as independent sequences",
  "An array's contents after any sequence of adds, inserts, removals, assignments, slices, concatenations, searches and clears equal those of a mathematical sequence under the same operations. Copies are independent values under these operations although they share storage (writing through a reference to an element is outside this), elements are constructed, copied and destroyed consistently, and no operation touches storage outside the array.",
  ["histories", "inputs"], "All operation sequences within the checked length, all element values and all valid indices.",
  "Tests check fixed short sequences.",
  ["Srt/Srl/Array.alusus", "Srt/Srl/ArrayIndex.alusus", "Srt/Srl/Array.h"],
  ["shared reference-counted buffer", "capacity growth", "element shifting"], [("_buf", "shared element storage"), ("_size", "number of elements")]),
P("C21", "Maps behave as finite maps",
  "After any sequence of sets, removals and clears, looking up a key yields the value last set for that key and reports absence otherwise; each key appears once, length counts distinct keys, and positions enumerate every pair exactly once. The keyed index stays consistent with the stored order whichever access mode is in use, and copies are independent under these operations.",
  ["histories", "inputs"], "All operation sequences within the checked length, all keys and values.",
  "Tests use a few fixed keys in fixed orders.",
  ["Srt/Srl/Map.alusus", "Srt/Srl/ArrayIndex.alusus", "Srt/Srl/Map.h"],
  ["parallel key and value arrays", "sorted index with binary search", "index repair on insertion and removal"]),
P("C22", "Smart references own objects exactly as documented",
  "An object held by shared references lives exactly until its last shared owner goes or is reassigned and is then destroyed once; a weak reference never keeps an object alive nor destroys it, and a shared reference taken from it while the object lives joins the owners; a unique reference owns alone. Reassignment, self-assignment, copying and moving in any order keep the counts right and never release storage twice or leak it.",
  ["histories"], "All sequences of construct, copy, assign, reset, own and release operations over several references within the checked length.",
  "Tests run a few fixed sequences.",
  ["Srt/Srl/refs_base.alusus", "Srt/Srl/refs.alusus", "Srt/Srl/refs.h"],
  ["reference counter block with shared and weak counts"]),
P("C23", "Optional and result values report presence truthfully",
  "A nullable or possible value reports presence exactly when a value (or success) was last stored in it, hands back that value unchanged, and hands back the stored error otherwise; copies report the same presence, value and error, are independent, and the held value is constructed and destroyed exactly once.",
  ["histories", "inputs"], "All sequences of assignments and queries within the checked length and all values.",
  "Tests check one or two values.",
  ["Srt/Srl/Nullable.alusus", "Srt/Srl/Possible.alusus", "Srt/Srl/errors.alusus"],
  ["presence flag and payload assignment"]),
P("C24", "Core shared and weak pointers never dangle, leak or double free",
  "Objects managed by the compiler core's shared pointers are destroyed exactly once, when the last shared pointer to them is released or reassigned, regardless of the order of copies, casts, resets, links between objects and self-assignments. Weak pointers neither keep an object alive nor destroy it, and a shared pointer obtained from a live object or weak pointer shares ownership with the existing ones.",
  ["histories"], "All operation sequences over several pointers within the checked length.",
  "No test targets the pointers directly; the compiler's runs exercise a few patterns.",
  ["Core/Basic/SharedPtr.h", "Core/Basic/WeakPtr.h", "Core/Basic/TiObject.h"],
  ["reference counter with shared and weak counts", "this-pointer based shared pointer recovery"]),
P("C25", "Core containers behave as ordered sequences and keyed maps",
  "The compiler core's lists and maps (owning and non-owning, with optional key index and optional inheritance from a base container) give, after any sequence of insertions, replacements, removals, clears and base attachments, exactly the elements, order, keys and lookup results of the mathematical model. The key index always agrees with the stored order, and change notifications match what happened.",
  ["histories", "inputs"], "All operation sequences within the checked length and all keys and positions.",
  "No test targets the containers directly.",
  ["Core/Basic/SharedListBase.h", "Core/Basic/PlainListBase.h", "Core/Basic/SharedMapBase.h", "Core/Basic/PlainMapBase.h", "Core/Basic/SharedList.h", "Core/Basic/SharedMap.h", "Core/Basic/PlainList.h", "Core/Basic/PlainMap.h", "Core/Basic/SubsetIndex.h"],
  ["index shifting on insert and remove", "inherited element tracking"]),
P("C26", "Library and compiled code exchange the same values across languages",
  "A string, array, map or shared reference created on one side of the boundary between native and compiled code can be read, copied, modified and released on the other side with the same meaning: same contents and lengths, the same sharing discipline, and storage released exactly once whichever side drops the last owner.",
  ["histories", "inputs"], "All short sequences of operations alternating between the two sides, all contents.",
  "Tests cross the boundary in a few fixed calls.",
  ["Srt/Srl/strs.h", "Srt/Srl/Array.h", "Srt/Srl/Map.h", "Srt/Srl/refs.h", "Srt/Srl/String.alusus", "Srt/Srl/Array.alusus", "Srt/Srl/Map.alusus", "Srt/Srl/refs_base.alusus"],
  ["identical object layout on both sides", "shared reference counts"]),
P("C27", "A signal reaches exactly the slots connected to it",
  "Emitting a signal of the compiler core calls every connected slot exactly once, in order of connection and with the emitted values, and no other slot; emissions that collect answers count them right or stop at the first positive one. Connections made directly or through a relay end when either side is disconnected or destroyed. Slots may connect, disconnect, destroy one another or emit again while being called: a slot that was disconnected or destroyed is never called afterwards and its storage never touched.",
  ["histories", "inputs"], "All sequences of connections, disconnections, destructions and emissions within the checked length, including those made by slots during an emission.",
  "No test targets signals; the compiler's runs only connect once and emit.",
  ["Core/Basic/signals.h", "Core/Basic/Finally.h"],
  ["entries disabled while firing and removed afterwards", "two-way bookkeeping between slots and signals"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
