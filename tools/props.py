#!/usr/bin/env python3
"""Writes properties.jsonl: one record per property."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def p(id, title, statement, quant, over, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant), why_tests_cant=why,
                  anchors=dict(files=files.split(), state=[], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


# ---- reading source text
p("F01", "Tokenising loses no character and never fails to make progress",
  "For every source text the token stream ends, the tokens' locations follow one another without overlap in the order of the text, and each token is what the lexical grammar says begins there, as long as it says: white space, a comment to the end of its line, a string or character with its escapes, a punctuation mark, or a longest run of symbol characters, which is a number or the symbol of that name. Lines and columns reported are those of the character in the text.",
  "every source text", "inputs", "the lexer's unit tests list a few dozen literals; no text outside that list is looked at", "llrl0/src/lexer.rs llrl0/src/source_loc.rs",
  [("Lexer::next", "llrl0/src/lexer.rs"), ("LocatedChars", "llrl0/src/source_loc.rs")], ["llrl0::lexer::Lexer::run"])
p("F02", "What is printed as a literal reads back as the same value",
  "Strings and characters written with the printer's escapes are read back as exactly the same strings and characters, and an integer token always has the value its digits denote, with its sign; a decimal numeral that fits 64 bits is such a token. No input makes the reader crash.",
  "every string, character and numeral", "inputs", "tests read a handful of hand-written escapes and numerals", "llrl0/src/string.rs llrl0/src/lexer.rs llrl0/src/token.rs",
  [("escape/unescape", "llrl0/src/string.rs"), ("parse_num_str / lexing of numbers", "llrl0/src/lexer.rs")], ["llrl0::string", "llrl0::lexer"])
p("F03", "Parsing text gives the tree of its brackets, or an error",
  "For every sequence of tokens the parser either reports an error or returns the S-expressions whose brackets, reader prefixes and dots are those of the text, each with the location of its text, and a text whose brackets do not match is always rejected. It never crashes and never skips a token. A printed S-expression (without annotate, try? and try! forms) reads back as itself.",
  "every source text", "inputs", "parser tests are a fixed list of well-formed programs", "llrl0/src/parser.rs llrl0/src/sexp.rs", [("Parser", "llrl0/src/parser.rs")], ["llrl0::parser::parse"])
p("F04", "A module path reads back from its text and stays inside its package",
  "A textual module path is either rejected or accepted with a package and parts whose text form reads back to the same path; resolving it relative to a package never leaves that package. No accepted path contains an empty, `.` or `..` part.",
  "every text and every base path", "inputs", "tests check nine paths", "llrl0/src/path.rs", [("Path::from_str / resolve", "llrl0/src/path.rs")], ["llrl0::path::Path"])
p("F05", "Conditional compilation keeps exactly the forms whose condition holds",
  "Preprocessing a module replaces each preprocessor directive by what its definition says for the given feature symbols and leaves every other form as it was, whatever the nesting.",
  "every module text and set of features", "programs configurations", "tests cover one example per directive", "llrl0/src/preprocess.rs llrl0/src/preprocess", [("Preprocessor", "llrl0/src/preprocess.rs")], ["llrl0::preprocess"])
# ---- analysing programs
p("S01", "Ordering by dependencies is sound, complete and finds every cycle",
  "For every finite dependency relation the computed order lists each node exactly once, lists every node after the nodes it depends on unless both are on a common cycle, and groups together exactly the nodes that depend on one another.",
  "every dependency graph", "inputs", "one unit test with a fixed graph", "llrl0/src/topological_sort.rs", [("topological_sort", "llrl0/src/topological_sort.rs")], ["llrl0::topological_sort"])
p("S02", "Parallel compilation gives the same modules under every schedule",
  "However the worker threads interleave, exactly the modules that are asked for or imported are loaded, each once; each module is built exactly once, after all modules it imports were built and handed to the backend, unless one of them failed, which is what it then reports; macros answer their own requests; the initialization statements of what the entry points import reach the backend once each, in dependency order. No schedule deadlocks, and a cycle of imports is reported.",
  "every schedule of the workers and every import graph", "schedules programs", "tests run whatever schedule happens", "llrl0/src/module/parallel.rs llrl0/src/source/collector.rs llrl0/src/source/set.rs llrl0/src/lowering.rs", [("parallel build", "llrl0/src/module/parallel.rs"), ("source collector", "llrl0/src/source/collector.rs"), ("lowering thread", "llrl0/src/lowering.rs")], ["llrl0::module::parallel_build", "llrl0::source::collect", "llrl0::lowering::Lowerizer"])
p("S03", "A module sees exactly what it imports and others export",
  "A name of a module stands for exactly what is defined there, or imported under it from a module that exports it; ports with patterns move exactly the names with that pattern, renamed as they say; and importing or exporting what is not there, or giving a name two meanings, is refused. Inside a function a name stands for its innermost binding in scope, a name bound nowhere is refused, and so is one bound twice in one place.",
  "every set of modules", "programs", "tests sample a few import forms", "llrl0/src/module llrl0/src/module.rs", [("imports", "llrl0/src/module/sema/importer.rs"), ("exports", "llrl0/src/module/sema/exporter.rs"), ("names", "llrl0/src/module/sema/resolver.rs"), ("Scope", "llrl0/src/module/scope.rs")], ["llrl0"])
p("S04", "Unification yields a most general unifier or refuses",
  "Unifying two types either makes them equal, constraining nothing that equality does not require, or reports failure because no substitution makes them equal, an infinite type included; the result does not depend on the order of the two types.",
  "every pair of types", "inputs", "unit tests unify a few pairs", "llrl0/src/unification.rs llrl0/src/unification", [("Unifier / unify", "llrl0/src/unification.rs")], ["llrl0::unification"])
p("S05", "Inference accepts exactly what has a type, and gives the most general one",
  "A function is accepted exactly when the rules of polymorphic type inference (local and top-level functions generalise, variables and parameters do not, declared types are kept to) give it a type; then it, its parameters, its local functions and variables and every use of a name in it have their most general type, and each use has the type of the definition at the type arguments recorded for it, so that no value is used at a type other than its own.",
  "every function", "programs", "tests infer types of hand-written programs", "llrl0/src/module/sema/type_inference.rs llrl0/src/module/sema/type_inference/unification.rs llrl0/src/unification/types.rs", [("inference of functions, lets, matches and annotations", "llrl0/src/module/sema/type_inference.rs"), ("generalisation and levels", "llrl0/src/module/sema/type_inference.rs (finalize_scope)")], ["Module::build", "Module::inferred_types"])
p("S06", "A class constraint is satisfied by the one instance that fits, or refused",
  "A use of a class method is accepted exactly when the constraint follows from what the function around it assumes, from the superclasses of that, or from the instances; the assumption or instance recorded for it, and for its conditions in turn, is the one that fits its type; a function without a signature assumes exactly what it needs of its parameter; an instance whose superclass does not hold and instances that share a type are refused, and no others.",
  "every set of instances and every use", "programs", "tests declare a few instances", "llrl0/src/module/sema/type_inference.rs llrl0/src/module/sema/type_inference/unification.rs", [("build_satisfaction", "llrl0/src/module/sema/type_inference.rs"), ("ensure_overlap_checked", "llrl0/src/module/sema/type_inference.rs")], ["Module::build", "Module::inferred_types"])
p("S07", "Exhaustiveness and usefulness of patterns are decided exactly",
  "A match is accepted as exhaustive exactly when every value of the matched type matches some clause, and a clause is reported as useless exactly when every value it matches is matched by an earlier clause. What is reported as missing is matched by no clause.",
  "every list of patterns over every data type", "inputs programs", "unit tests check a few pattern matrices", "llrl0/src/pattern_matching.rs llrl0/src/pattern_matching", [("Space algebra", "llrl0/src/pattern_matching.rs")], ["llrl0::pattern_matching"])
# ---- compiled programs
p("B01", "Built-in operations compute what their machine operations define",
  "Every built-in arithmetic, bitwise, comparison, conversion and pointer operation of a program compiled with the default (LLVM) backend gives, for every operand on which it is defined, the result its definition gives at that width and signedness, and loads and stores reach exactly the bytes they are given.",
  "every operand of every operation and type", "inputs programs", "tests evaluate each operation on a couple of operands", "std/arithmetic.llrl std/bits.llrl std/integer.llrl llrl0/src/backend/llvm llrl0/src/backend/builtin.rs", [("builtin operators", "llrl0/src/backend"), ("instances", "std/integer.llrl")], ["compiled programs"])
p("B02", "Compiled control flow and data mean what the source says",
  "Evaluating a program compiled with the default (LLVM) backend gives the result the source prescribes for every value flowing through it: matches take the first matching clause and bind its parts, data keep the fields they were built with, closures see the variables they captured, and loops, early returns and logical operators evaluate what they should, once and in order.",
  "every value flowing through the program", "inputs programs", "tests fix the values", "llrl0/src/lowering.rs llrl0/src/lowering llrl0/src/backend", [("lowering", "llrl0/src/lowering"), ("code generation", "llrl0/src/backend/llvm")], ["compiled programs"])
p("B03", "Calls to and from C pass every value unchanged",
  "A call from a compiled program to a C function, or the other way round, hands over arguments and results of every supported type unchanged, following the platform's calling convention.",
  "every argument value and supported type", "inputs programs", "tests call a few C functions", "llrl0/src/backend/native/calling.rs llrl0/src/backend", [("calling convention classification", "llrl0/src/backend/native/calling.rs")], ["c-function"])
p("B04", "Layouts agree with the C ABI and never overlap",
  "The layout computed for every data type gives each field its own bytes at the offset the platform's C ABI prescribes, a size that covers all fields and is a multiple of the alignment, and an alignment that every field's alignment divides.",
  "every data type", "inputs", "a few layouts are compared", "llrl0/src/backend/native/mem_layout.rs", [("Layout", "llrl0/src/backend/native/mem_layout.rs")], ["llrl0::backend::native::mem_layout"])
p("B05", "Syntax handed to macros and back is unchanged",
  "An S-expression handed from the compiler to a compiled macro and back has the same structure, symbols, numbers, strings and characters.",
  "every S-expression", "inputs", "a few macros are run", "llrl0/src/backend/native/data.rs", [("Native S-expressions", "llrl0/src/backend/native/data.rs")], ["macros"])
# ---- machine code
p("X01", "The assembler emits the encoding of the instruction it was given",
  "For every supported instruction and all operands, the bytes emitted by the assembler are an x86-64 encoding of that instruction with exactly those registers, addresses and immediates.",
  "every instruction and operand", "inputs", "each instruction form is compared on a few fixed operands", "xten0/src/asm xtencg", [("instruction encoder", "xten0/src/asm"), ("templates", "xtencg/templates")], ["xten0::asm::Assembler"])
p("X02", "Labels and relocations denote their targets",
  "Every reference to a label is patched to the distance or address of exactly that label, whatever the order of definitions, uses and data, and a label that is not defined or out of reach is reported.",
  "every sequence of definitions and uses", "inputs histories", "a few sequences are assembled", "xten0/src/asm", [("Assembler::finish / relocations", "xten0/src/asm")], ["xten0::asm"])
p("X03", "Linked code refers to the symbols of its objects",
  "After linking in memory, every reference holds the address of or the distance to the definition of its symbol, the object's own local one first; undefined and duplicate symbols and distances out of range are reported; regions of different objects do not overlap and are protected as their sections are.",
  "every set of objects", "inputs histories", "a few objects are linked", "xten0/src/jit", [("Engine", "xten0/src/jit")], ["xten0::jit"])
p("X04", "Object files written denote the object they were made from",
  "An object file that was written holds, as the ELF and x86-64 specifications read it, exactly the sections, symbols and relocations of the object.",
  "every object", "inputs", "fixed files are compared", "xten0/src/elf", [("Elf reader and writer", "xten0/src/elf")], ["xten0::elf"])
# ---- runtime
p("R01", "Numbers print and parse exactly, without touching other memory",
  "Printing any 64-bit integer in any supported radix and parsing the text gives the same integer; parsing accepts exactly the texts that denote an integer of the type and yields that integer. Neither touches memory outside the buffers it is given or allocates.",
  "every integer, radix and text", "inputs", "tests print and parse a few numbers in base 10", "rt/rt.c std/integer.llrl", [("llrt_i64_to_string, llrt_string_to_i64, ...", "rt/rt.c")], ["integer->string, string->integer"])
p("R02", "String comparison and concatenation are those of byte sequences",
  "Equality and ordering of strings are equality and lexicographic ordering of their bytes, shorter first when one is a prefix of the other, and concatenation yields the bytes of both in order in fresh memory.",
  "every pair of strings", "inputs", "tests compare a few strings", "rt/rt.c", [("llrt_string_eq, llrt_string_cmp, llrt_string_concat", "rt/rt.c")], ["std/string"])
p("R03", "Starting a process reports failure exactly when it did not start",
  "Whatever the system calls return, starting a process yields success only when the program runs, with the name and arguments given, an error with the failing call's error code otherwise, and in every case leaves no descriptor open that it opened and does not return, and no child behind that did not start. Waiting for a process yields its exit code.",
  "every sequence of system call results", "fault_sequences", "tests start a program that exists", "rt/rt.c", [("llrt_spawn_process, llrt_execute_process, llrt_wait_process", "rt/rt.c")], ["std/system"])
p("R04", "Generated symbols never repeat",
  "No two generated symbols of a run are equal, for every number of them, and none exceeds the memory set aside for it.",
  "every number of symbols generated", "histories", "tests generate two", "rt/rt.c", [("llrt_genid", "rt/rt.c")], ["gensym"])
# ---- the standard library
p("L01", "Vectors and arrays behave as lists, and refuse indices outside them",
  "Every history of operations on a vector or array gives the contents, results and length that the same operations give on a list, copies and persistent variants leave their source unchanged, and an index outside the collection ends the program instead of reading or writing other memory.",
  "every history of operations, every index and element", "histories inputs", "tests run fixed short histories with valid indices", "std/internal/array-vector.llrl std/array.llrl std/vector.llrl", [("vector and array operations", "std/internal/array-vector.llrl")], ["std/vector", "std/array"])
p("L02", "Ordered maps and sets behave as sorted association lists",
  "After every history of insertions, removals, copies and clears, an ordered map holds exactly the keys and latest values of the history, iterates in key order, answers lookups, minimum, maximum, length and equality accordingly, and a copy is independent of its original.",
  "every history, key and value", "histories inputs", "tests insert and remove a fixed set of keys", "std/ord-map.llrl std/ord-set.llrl", [("B-tree insertion, removal, rebalancing", "std/ord-map.llrl")], ["std/ord-map", "std/ord-set"])
p("L03", "Hash maps and sets behave as association lists, collisions included",
  "After every history of insertions, removals, copies, resizes and clears, a hash map holds exactly the keys and latest values of the history, whatever their hashes and whatever capacity was asked for, and a copy is independent of its original.",
  "every history, key, hash and capacity", "histories inputs", "tests use a few integer keys, whose hashes hardly collide", "std/hash-map.llrl std/hash-set.llrl", [("Robin hood insertion, backshift removal", "std/hash-map.llrl")], ["std/hash-map", "std/hash-set"])
p("L04", "Persistent ordered maps: right contents, old versions unchanged",
  "Every operation on a persistent ordered map returns the map the same operation gives on a sorted association list, iterates in key order, and leaves every earlier version as it was.",
  "every history and key", "histories inputs", "tests run a fixed history", "std/persistent/ord-map.llrl", [("red-black insertion and removal", "std/persistent/ord-map.llrl")], ["std/persistent/ord-map"])
p("L05", "Persistent hash maps: right contents, old versions unchanged",
  "Every operation on a persistent hash map returns the map the same operation gives on an association list, whatever the hashes of the keys, full collisions included, and leaves every earlier version as it was.",
  "every history, key and hash", "histories inputs", "tests use integer keys, which never collide", "std/persistent/hash-map.llrl", [("hash array mapped trie with collision nodes", "std/persistent/hash-map.llrl")], ["std/persistent/hash-map"])
p("L06", "UTF-8 text is decoded and encoded exactly",
  "A byte sequence is accepted as text exactly when it is well-formed UTF-8, encoding a character and decoding the result gives the character, and indexing, length and iteration over text agree with its sequence of characters.",
  "every byte sequence and character", "inputs", "tests decode a few strings", "std/internal/utf-8.llrl std/internal/string-text.llrl std/char.llrl", [("UTF-8 decoder and encoder", "std/internal/utf-8.llrl")], ["std/string", "std/text", "std/char"])
p("L07", "Equality, ordering and hashing of data obey their laws",
  "For all values of every standard and derived instance, floating-point NaN aside, equality is an equivalence, comparison is a total order consistent with it, the relational operators and min and max agree with comparison, and equal values hash alike.",
  "every tuple of values", "inputs", "tests compare a few pairs", "std/eq.llrl std/ord.llrl std/ordering.llrl std/hash.llrl std/derive.llrl", [("instances and derivations", "std/ord.llrl")], ["std/eq", "std/ord", "std/hash"])
p("L08", "Arithmetic and conversions of the library are exact",
  "Arithmetic, comparison, rounding, square root, bit operations and conversions of the library's numeric types give, for every operand on which they are defined (overflow of signed integers, division by zero, shifts by the width or more and floating-point values out of range of an integer type aside), the integer result modulo the width or the IEEE 754 result, and reading a numeral gives a value exactly when it is one of the type.",
  "every operand", "inputs", "tests evaluate a few operands", "std/integer.llrl std/conv.llrl std/math.llrl std/bits.llrl std/arithmetic.llrl", [("integer instances", "std/integer.llrl")], ["std/integer", "std/conv", "std/bits"])
p("L09", "The hasher computes xxHash64 of the bytes it was fed, however split",
  "Feeding bytes to the hasher in any split yields the hash of their concatenation, and that hash is xxHash64 of the bytes with the hasher's seed.",
  "every byte sequence and split", "inputs histories", "one fixed vector", "std/xxhash.llrl", [("XxHasher", "std/xxhash.llrl")], ["std/xxhash"])
p("L10", "String operations are those of sequences of characters",
  "Searching, splitting, slicing, trimming, replacing and joining strings, string builders, readers and writers give the results these operations have on the sequence of bytes or characters, and refuse positions outside the string.",
  "every string and position", "inputs", "tests use a few strings", "std/internal/string-text.llrl std/string-reader.llrl std/string-writer.llrl std/rw.llrl", [("string operations", "std/internal/string-text.llrl")], ["std/string", "std/text", "std/rw"])
p("L11", "Iterator combinators yield the elements their definitions say",
  "Every iterator combinator yields exactly the elements its definition gives for the sequence it is applied to, in order, and calls its functions once per element it needs.",
  "every sequence", "inputs", "tests use fixed sequences", "std/it.llrl std/iterator.llrl", [("iterator combinators", "std/it.llrl")], ["std/it"])
p("L12", "File paths join, split and normalise as documented",
  "The directory, base name, extension and components of a path, replacing an extension, joining paths and canonicalizing them give what the text of the path means (a path is a sequence of components separated by slashes, absolute when it starts with one; `.` and `..` have no extension) for every text, and never crash.",
  "every text", "inputs", "tests use a few paths", "std/io/path.llrl", [("path functions", "std/io/path.llrl")], ["std/io/path"])
p("L13", "Files, directories and processes: nothing is lost, failures are reported",
  "What is read from files and processes, and written to them, is every byte in order, however many bytes each system call transfers; a call that fails gives an error and closes what it opened; listing a directory gives its entries; removing a tree removes what is in it and nothing outside it.",
  "every content, size of transfer and failing call", "inputs fault_sequences", "tests read and write a few small files", "std/io.llrl std/io/file.llrl std/system.llrl rt/rt.c", [("Reader, writer, file, directory, process", "std/io")], ["std/io"])
# ---- the self-hosted compiler
p("C01", "Both compilers read the same programs",
  "The compiler written in llrl splits every text into the tokens, at the places, the one written in Rust does; it accepts exactly the texts that one accepts and reads them as the same S-expressions.",
  "every text", "inputs programs", "the two run the same fixed test files", "llrl1/sexp llrl1/sexp.llrl llrl0/src/lexer.rs llrl0/src/parser.rs", [("lexer and parser", "llrl1/sexp")], ["llrl1"])
p("C02", "Both compilers decide patterns alike, and rightly",
  "The compiler written in llrl refuses a list of patterns exactly when some value matches none of them or some pattern matches no value that those before it leave, and what it reports as missing is matched by none.",
  "every list of patterns", "inputs programs", "a few matrices are checked", "llrl1/pattern-checker.llrl", [("pattern checker", "llrl1/pattern-checker.llrl")], ["llrl1"])
p("C03", "The self-hosted assembler emits the instruction it was given",
  "For every supported instruction and all operands, the bytes emitted by the assembler written in llrl are an x86-64 encoding of that instruction with exactly those registers, addresses and immediates, as those of the assembler written in Rust are.",
  "every instruction and operand", "inputs", "fixed operands are compared", "xten1/asm xten0/src/asm", [("instruction encoder", "xten1/asm")], ["xten1"])
p("C04", "Unification in the self-hosted compiler yields most general unifiers",
  "Unification in the compiler written in llrl makes types (and kinds) equal exactly when some substitution does, and constrains the variables in them no more than needed; matching binds the variables of one side only, and substitution replaces a parameter everywhere.",
  "every pair of types", "inputs", "the compiler's tests infer a few programs", "llrl1/unification", [("unifier", "llrl1/unification")], ["llrl1"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in R:
        f.write(json.dumps(r) + "\n")
print(len(R))
