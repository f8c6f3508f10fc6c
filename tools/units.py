from vx import Unit
import gen_ops
COMMON_ASSUMPTIONS = ["the symbolic executor (symex/) interprets LLVM IR as the IR reference defines it; explored paths are replayed on the native build in every run to test that", "allocation never fails", "clang 18 and gcc compile the harness and reference code correctly", "Z3 answers are correct"]
PROPS = {
 "C06": dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("ints", "alusus", gen=gen_ops.ints)]),
 "C07": dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("comparisons", "alusus", gen=gen_ops.comparisons),Unit("logic", "alusus", gen=gen_ops.logic)]),
 "C08": dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("conversions", "alusus", gen=gen_ops.conversions)]),
 "C09": dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("floats", "alusus", gen=gen_ops.floats)]),
}
NOT_APPLICABLE = {}
PROPS["C16"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("string", "alusus", src="string_values.alusus", ref=["strmodel.c"])])
PROPS["C20"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("array", "alusus", src="array_values.alusus", ref=["arrmodel.c"])])
PROPS["C21"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("map", "alusus", src="map_values.alusus", ref=["arrmodel.c"])])
PROPS["C22"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("refs", "alusus", src="refs_values.alusus", ref=["refmodel.c"])])
PROPS["C23"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("optional", "alusus", src="optional_values.alusus", ref=["refmodel.c"])])
PROPS["C17"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("text", "alusus", src="text_ops.alusus", ref=["textmodel.c"])])
PROPS["C18"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("numbers", "alusus", src="numbers.alusus", ref=["nummodel.c"])])
PROPS["C19"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("builder", "alusus", src="builder.alusus", ref=["strmodel.c"])])
PROPS["C05"] = dict(level="translation_validation", assumptions=[], bounds="", units=[Unit(_n, "alusus", gen=lambda tier, _n=_n: gen_ops.precedence(tier, _n)) for _n in gen_ops.PREC_PARTS])
import gen_flow
PROPS["C10"] = dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("flow", "alusus", gen=gen_flow.flow)])
PROPS["C13"] = dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("life", "alusus", gen=gen_flow.life)])
import gen_calls
PROPS["C11"] = dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("calls", "alusus", gen=gen_calls.calls)])
import gen_store
PROPS["C12"] = dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("store", "alusus", gen=gen_store.store)])
import gen_generic
PROPS["C14"] = dict(level="translation_validation", assumptions=[], bounds="", units=[Unit("templates", "alusus", gen=gen_generic.templates), Unit("closures", "alusus", gen=gen_generic.closures)])
PROPS["C24"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("pointers", "cpp", src="pointers.cpp", libs=("basic",))])
PROPS["C25"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("containers", "cpp", src="containers.cpp", libs=("basic",)), Unit("subset", "cpp", src="subset.cpp", libs=("basic",))])
PROPS["C27"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("signals", "cpp", src="signals.cpp", libs=("basic",))])
_nofold = ["-mllvm", "-phi-node-folding-threshold=0", "-mllvm", "-two-entry-phi-node-folding-threshold=0", "-mllvm", "-bonus-inst-threshold=0"] # keep conditions over different characters apart
_lx = dict(src="lexer.cpp", libs=("core",), opts=["-max-steps", 2000000000])
PROPS["C01"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("tokens", "cpp", defs=["-DSET=1"]+_nofold, **_lx)])
PROPS["C02"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("positions", "cpp", defs=["-DSET=2", "-DPOSITIONS"]+_nofold, **_lx)])
PROPS["C03"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("literals", "cpp", defs=["-DSET=3"]+_nofold, **_lx)])
PROPS["C04"] = dict(level="model_checking", assumptions=[], bounds="", units=[Unit("numlit", "cpp", src="numlit.cpp", libs=("front",), opts=["-max-steps", 2000000000]), Unit("uses", "alusus", gen=gen_ops.literals)])
BOUNDS = {
 "C01": "20 (C02: 11, C03: 12) text frames around every kind of token, each with two (thorough: up to three) free characters: any printable ASCII character or white space, any Arabic letter, or any character of a two, three or four-byte range; texts up to 20 characters, buffers never full. The frames decide which contexts are covered, the solver decides all characters in them.",
 "C02": "11 text frames with line breaks, comments, literals, unrecognised text and text put back for another token, each with two (thorough: three) free characters, multi-byte ones included; texts up to 20 characters.",
 "C03": "12 frames for string and character literals, joined parts and each escape sequence, with two (thorough: three) free characters in the contents, at both ends and as hexadecimal digits; contents after a NUL character are outside (a text ends there).",
 "C04": "integer literals of every base, prefix and suffix spelling with up to 6 (thorough: 8; hexadecimal 15, octal 10, binary 37) free digits, and around every change of size (up to 63 bits) with the last 3 to 5 digits free; 64-bit sizes for all values; float literals up to 5 free digits, exponents up to 4 (thorough 6); 60 (thorough 130) constants where the language uses them. Decimal to float conversion itself is the C library's and trusted; unsuffixed values of 2^63 and more are outside.",
 "C05": "every pair of binary operators (with and without parentheses), one triple of operators per triple of priority levels (thorough: six), unary operators and casts in front of every operator, every compound assignment in front of every operator, pairs of chained assignments; all 32-bit and Boolean operand values for which no operand of a division or shift is out of range.",
 "C06": "all operand values of signed and unsigned operands of 8 to 64 bits, one operator per program (each operator, each pair of types the language accepts); division by zero excluded; shift amounts below the width.",
 "C07": "all operand values of 8 to 64-bit integers, both float types and pointers, one operator per program; logical expressions of up to three operands with side effects.",
 "C08": "all source values for every pair of the 8 to 64-bit integer and float types; float to integer only where the value fits.",
 "C09": "all operand values of both float types and mixed integer operands, one operator per program.",
 "C10": "120 (thorough 600) generated functions with up to four nested loops and conditions, up to 6 (thorough 9) freely chosen condition outcomes, the rest fixed so that loops end.",
 "C13": "150 (thorough 500) generated functions with objects, up to 5 (thorough 8) freely chosen condition outcomes.",
 "C14": "25 (thorough 120) families of templates with four instances each, arguments of type, integer, function and string kind; 25 (thorough 100) programs with closures; all values of the data involved (for float arguments, whole values from -4 to 5).",
 "C16": "three string variables, two (thorough: three) consecutive operations out of fifteen, contents up to two free characters per text.",
 "C17": "texts up to 4 free characters (thorough: 6; wide: 3 and 5), patterns and replacements up to 2, positions and counts from one below to two above the valid range.",
 "C18": "integers: all 64-bit values; digit strings up to 18 digits; floats: chosen exponents between -1 and 13 (thorough: -16 to 28), 5 (thorough: 8) free leading significand bits, the rest all zeros or all ones; decimal fractions up to two (thorough: three) free digits.",
 "C19": "two (thorough: three) consecutive operations out of twelve on a builder and a string, initial size 0 to 2, growth 1 to 2, texts up to 3 free characters; formats with one placeholder of each kind between free texts and one with all kinds.",
 "C20": "three arrays with up to three initial elements, one or two (thorough: two) operations out of the documented ones, all element values, all valid positions.",
 "C21": "two maps with up to three (larger: four; thorough five) initial entries, two operations, keys from a range of five including repeats, all values.",
 "C22": "up to two (thorough: three) operations over shared and weak references to nested objects, with the last operation fully free.",
 "C24": "two (thorough: three) operations out of fifteen (new objects of two classes, copies, resets, links between objects, casts down, up and to an interface, recovery from a raw or interface pointer, weak pointers, swaps) over three shared variables and a weak one, from four start states, up to six objects with free contents. Taking ownership of a raw object that already has another kind of owner is outside.",
 "C25": "three containers of each of four kinds (owning or not, list or map, with and without key index), based on one another, eight start states; one (thorough: two) operations with any 32-bit position and any one-byte key; then destruction in order. Subset index: any state of up to five (thorough: seven) elements and one operation, up to two (thorough: four) elements and two (up to three).",
 "C27": "three signals, four slots, one relay, four start states; one (thorough: two) operations between emissions, or any of ten actions by any slot on any slot during an emission; emitted values and answers free.",
 "C23": "up to three (thorough: four) assignments over two optional or result values, all contents.",
}
for _k, _v in BOUNDS.items():
    if _k in PROPS: PROPS[_k]["bounds"] = _v
HOW = {
 "C01": "The real lexer with the standard grammar (built by the core's own code inside the executor) reads texts with free characters; a direct tokenizer written from the grammar's formulas reads the same text afterwards. Tokens, kinds, texts, keyword flags and diagnostics must be equal on every path. Some texts are then fed again to the same lexer, byte by byte.",
 "C02": "The same lexer and reference; the line and column of every token and diagnostic must be those counted in the text.",
 "C03": "The same lexer and reference, on string and character literals; the token's text must equal the characters the literal denotes, escape by escape.",
 "C04": "The real code generator for literals (the Spp front end compiled without LLVM, target calls recorded by the harness) is given literals with free digits; the type it asks for and the constant it emits must be the reference's. Programs with literals of all bases as operands, array sizes, bit counts and loop jumps run against C references.",
 "C10": "A generator writes random programs of while, for (with one and with several initialisers and steps), if, else if, else, break n, continue n, return and logical conditions, each next to a C program with the same meaning where jumps are gotos. Both record the sequence of executed statements, evaluated conditions and steps. The compiler's LLVM code for the Alusus function and clang's for the C one are executed together with one free steering bit per condition, so every exit path within the bound is explored; the sequences and returned values must be equal on all of them.",
 "C11": "A generator writes functions with random signatures, called directly, through variables and members holding function pointers, as methods, as methods reached through an injected base and as replaceable methods, with arguments that are variables, members, elements, references, pointees and results of other calls. Caller and callee report the bytes of every value that crosses the call to C functions, which must see the same bytes on both sides; the callee then changes all its parameters, and the caller's variables must be unchanged (by value) or hold exactly the change (by reference, same address). Overload sets report which function ran; recursive functions are compared with a C translation; variadic arguments are taken with next_arg in Alusus and va_arg in C. All argument bytes are symbolic in one execution per program.",
 "C12": "A generator writes structure types, variables in every storage class and operations: assignment of scalars, members, elements and whole objects, initialised definitions, writes through pointers, pointers to pointers, references, reference and pointer parameters, pointer arithmetic inside arrays, swaps, increments and statement packs. The C model knows every scalar part only by a number, so it is independent of layout; after the operations (and sometimes between them) every part of every variable must hold the model's bytes. The parts' addresses must not overlap and must lie inside the object as given by ~size; heap objects are allocated with exactly ~size bytes, so an access beyond it is a memory error in the executor.",
 "C13": "The same generator, with statements that create objects: declared with a constructor, from a function's result, as members, in an Srl array, copied, assigned, passed by value, returned through one or two functions, as temporaries of conditions, and in short-circuited operands. Each named object is marked after its declaration; constructions and destructions of marked objects join the sequence of executed statements, and the C program says where each must be destroyed. Every object owns one heap block, so a missed destructor is a leak (checked through the count of live blocks), a repeated one a double free and a late use a use after free, all checked by the executor's memory model on every path. Runs of destructions with nothing between are compared as sets, since their mutual order is not specified. Fixed built-in arrays are raw storage in Alusus (their elements are neither constructed nor destroyed whatever the type), so they are not used with objects.",
 "C14": "A generator writes class templates (nested in one another, with static members, arrays sized by a parameter and default arguments) and recursive function templates over type, integer, function and string parameters, instantiates each with four argument lists that differ in little, and writes every instance again as plain classes and functions with the arguments put in place by hand. Both are driven in one program with the same symbolic data and report every result, member, size and static counter; the two records must be equal, so mixed-up instances or wrong substitution show. Equal arguments under other spellings (default left out, alias, named constant) must be assignable to one another and share statics. Closures capture variables by value, by reference and by default, are created in place or returned by functions, stored in variables and members, copied and passed on; a program with the body written in place of each call over explicit copies of the captured values must report the same.",
 "C24": "A C++ harness is compiled with the core's own headers and sources to LLVM IR; histories of operations run against a model of which variable and member owns what. After every operation each object must be destroyed exactly if the model says nobody owns it, pointers must reach the right object with its contents, and the executor's memory model rejects any touch of a dead one; in the end no storage may be left.",
 "C25": "Histories of operations on containers that inherit from one another, against a model of sequences with own and inherited elements. Every container also has a listener that rebuilds the contents only from the change notifications; it must agree with the container, and refused operations must be exactly the invalid ones, for every 32-bit position and every key.",
 "C27": "Histories over signals, slots and a relay against a model of connections; each slot records its calls, and one slot may change the connections, delete slots or emit again while being called. The executor's memory model rejects any touch of a destroyed slot; counted and early-ending emissions are compared for all answers.",
 "C05": "Programs with two and three operators of every priority pair over symbolic operands; the generated code must equal the fully parenthesised C reference.",
 "C06": "One generated program per operator, type and type pair; all operand values symbolic; oracle: C reference on exact integers. Tests can only sample operands; the solver covers every pair, where sign and width mistakes hide.",
 "C07": "Programs per comparison, type and type pair against a C reference; logical operators over operands with side effects, with the evaluation trace compared.",
 "C08": "One program per conversion (implicit, explicit, argument, assignment) and type pair against a C reference.",
 "C09": "One program per float operator and operand type pair; IEEE results compared bit by bit (NaNs as a class).",
 "C16": "Histories of operations on three string variables, including aliasing ones, against a model of plain character arrays; live-block count must return to its start.",
 "C17": "Each query and transformation on symbolic texts, patterns and positions, for String and WString, against a direct definition; memory checks and an instruction budget decide safety and termination.",
 "C18": "The digits produced for a symbolic integer must spell it (a linear identity, decided in the integer view); for floats the six-decimal text must be the nearest one; parsing is compared with the spelled value.",
 "C19": "Histories of builder operations with tiny buffers so that growth happens at every position, and format strings with symbolic texts around each placeholder, against a text model.",
 "C20": "Histories of array operations with object elements (constructions and destructions counted) and integers against a model sequence; aliases and shared buffers included.",
 "C21": "Histories of map operations in plain and indexed mode and on copies of both kinds, with symbolic keys, against a model map.",
 "C22": "Histories over references to nested objects against a model of owners; objects record their destruction.",
 "C23": "Histories of assignments, copies and queries against a model of presence and value.",
}
import json as _json, os as _os
CAUGHT = _json.load(open(_os.path.dirname(_os.path.abspath(__file__)) + "/caught.json"))
