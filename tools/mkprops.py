#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["return values of Pack, Unpack, SizeOf, BitSize", "the value passed in, after the call"],
            hook_needed=None)))

D, E, S, F, PK, T, TS = "decoder.go", "encoder.go", "structstack.go", "field.go", "packing.go", "tag.go", "typestr.go"
EV, EL, EP, ET, EE, EN = "expr/value.go", "expr/lex.go", "expr/parse.go", "expr/type.go", "expr/eval.go", "expr/env.go"
rw = [("read", D), ("write", E), ("fieldbits", S)]

p("C01", "Pack then Unpack gives the value back",
  "Whenever a value whose contents its declared layout can represent packs without error, unpacking the produced bytes with the same byte order into a fresh value of the same type succeeds and yields an equal value: every encoded field has the value it had when packed, counters hold the lengths of what they count, and fields without an encoding are zero.",
  ["inputs", "programs"], "all struct types built from the supported kinds and tags, all representable values, both byte orders",
  "The tests round-trip a dozen fixed structs with one value each; the claim ranges over every combination of types, nesting, tags and values.",
  [D, E, S, F], rw)
p("C02", "Unpack then Pack reproduces the bytes",
  "Whenever a byte string unpacks without error, packing the result with the same byte order succeeds and reproduces exactly the bytes that were consumed, provided every consumed bit belongs to some field's value in canonical form (padding zero, booleans 0 or the defined true encoding, fixed strings NUL padded, counters wide enough for what they count).",
  ["inputs", "programs"], "all struct types without lossy options, all canonical byte strings, both byte orders",
  "The tests re-pack a few hand-written buffers; the claim is about every accepted byte string.",
  [D, E, S], rw)
p("C03", "SizeOf, BitSize, Pack and Unpack agree on the size",
  "For every value, SizeOf is BitSize divided by eight rounded up, a successful Pack returns exactly SizeOf bytes, and Unpack of those bytes consumes all of them: it succeeds on them, ignores any that follow, and fails on every shorter prefix that cuts into an encoded bit or padding.",
  ["inputs", "programs"], "all supported types and values, every prefix and extension of the encoding",
  "Tests compare SizeOf with hand-counted numbers for fixed structs; agreement of three separately written traversals over all types and values is what can break.",
  [S, D, E, PK, F], [("fieldbits", S), ("trivial element shortcut", S + ", " + F)] + rw[:2])
p("C04", "Fields are laid out flat, in order, at their declared widths",
  "The encoding of a struct is the concatenation, in declaration order and without alignment or metadata, of the encodings of its fields; integers are two's complement of the declared width (a plain int or uint takes 32 bits), floats are IEEE 754, a complex number is its real then its imaginary part, and arrays, slices, strings, pointers and nested structs are their contents one after the other. When a tag declares a different numeric type, the value is converted between the declared and the Go type as Go converts numbers.",
  ["inputs", "programs"], "all nestings of all supported kinds, all declared-type overrides, all values",
  "Tests pin a handful of layouts; flat concatenation is a statement about every composition.",
  [D, E, S, F, TS], rw + [("typeOfExpr", TS)])
p("C05", "Byte order is what was asked for, scoped to the tagged field",
  "Each multi-byte value uses the byte order passed to the call unless the field, or the innermost enclosing field that carries an order tag, declares big (msb, network) or little (lsb) endian; the override covers everything nested inside that field, including elements and custom codecs, and nothing after it.",
  ["inputs", "programs"], "all placements of order tags in all nestings, both call orders, both directions",
  "Tests use order tags on one or two fields; scoping is about all trees of overrides.",
  [D, E, T], [("order save and restore in read", D), ("order save and restore in write", E), ("order tags", T)])
p("C06", "Bit fields occupy exactly their bits and nothing else",
  "Fields with a bit width, literal or computed by a bits expression, are packed contiguously from the most significant bit of each byte, straddling byte boundaries where needed: in big endian order the value's most significant bit comes first, in little endian order its least significant byte comes first and the remaining high bits form the last, shorter group. Reading recovers the same low bits, sign-extended for signed fields and zero-extended for unsigned ones, and no neighbouring field's bits change.",
  ["inputs", "programs"], "all sequences of widths 1..63 in all container types at all bit offsets, all values, both orders",
  "Tests cover a few widths at a few offsets; the bit-by-bit and byte-aligned code paths meet in every combination of offset, width, container and order.",
  [D, E, T, S], [("readBits, extend", D), ("writeBits", E), ("bit width in type tag", T), ("evalBits", S)])
p("C07", "Counter fields and what they count always agree",
  "With sizeof or sizefrom, Unpack reads exactly as many elements as the counter field says, and Pack writes the current length of the counted slice or string into the counter and into the value, whatever the counter held before; packing fields that share a counter but differ in length is an error. A length the counter cannot represent and a negative or unreadable count are errors, never a truncated count.",
  ["inputs", "programs"], "all counter types, widths and positions (also after ignored, unexported or blank fields), all lengths around the counter's limits",
  "Tests use one or two counters with small lengths; overflow, signed counts and index bookkeeping need the boundary lengths and field layouts.",
  [D, E, F], [("sizeof/sizefrom index resolution", F), ("counter read", D), ("counter update", E)],
  state=[dict(name="counter", meaning="number of elements of the counted field", where="the struct's counter field")])
p("C08", "A shortened input is an error; extra bytes are ignored",
  "Unpack of any input that ends before the last encoded bit of the value it describes returns an error and does not report success with missing data, wherever the cut falls (inside scalars, bit fields, strings, padding, custom codecs or nested values). Bytes after the encoded value never influence the result.",
  ["inputs", "programs"], "every prefix of every encoding, every extension",
  "The tests truncate one buffer; the cut can fall into every kind of field.",
  [D, PK], [("slice bounds as end-of-input detection", D), ("recover", PK)])
p("C09", "No input makes Unpack panic, hang or write to the input",
  "For every byte string, Unpack into a pointer to any supported struct type returns, either with success or with an error; it never panics, never loops for ever, and never modifies the input slice. The same holds for Pack, SizeOf and BitSize on every value of such a type, including nil pointers, short or nil slices and over-long strings, provided that the value is not cyclic, a pointer to a struct's own type is conditional, and counted or repeated elements take space.",
  ["inputs", "programs"], "arbitrary and mutated byte strings, arbitrary values",
  "A fixed set of inputs says nothing about hostile ones.",
  [PK, D, E, S], [("recover in Pack/Unpack/SizeOf/BitSize", PK)])
p("C10", "Booleans use exactly the documented encodings",
  "A boolean is encoded in its declared width as 0 for false and 1 for true; variantbool makes true all ones, invertedbool swaps the two encodings, and both combine. On reading, every non-zero bit pattern counts as the encoding of true (of false when inverted).",
  ["inputs", "programs"], "all flag combinations, declared integer types, widths (also bit fields), both orders, every bit pattern on input",
  "Tests cover 8-bit and a few wider cases with two inputs each.",
  [D, E, T], [("setUint, setInt", D), ("uintFromField, intFromField", E)])
p("C11", "Fixed-size strings and arrays are padded, cut at NUL, never overrun",
  "A string or slice declared as a fixed-size array always occupies exactly that many elements: shorter contents are padded with zeros, a string is read back up to its first NUL, a slice is read back at the full length, and contents longer than the array make Pack fail. This holds at any bit offset and with skip, element conversions and neighbouring fields present.",
  ["inputs", "programs"], "all element types and lengths, contents from empty to over-long, all offsets",
  "Tests use one string and one array; padding, cut-off and overrun are boundary questions.",
  [D, E, S], [("array case in read", D), ("array case in write", E), ("array case in fieldbits", S)])
p("C12", "Ignored fields are untouched; padding is skipped and written as zero",
  "Unexported fields and fields tagged - take no space and are neither read nor changed by any operation. Blank fields and skip=N (before a field of any kind) take exactly their declared size or N bytes: Pack writes zeros there, Unpack accepts any bytes there, and their presence does not disturb which value, counter or bit position any other field gets.",
  ["inputs", "programs"], "all placements of ignored, unexported, blank and skipped space among all other features",
  "Tests have two padded structs; the claim is about placement relative to every other feature.",
  [D, E, S, F], [("skipBits", D + ", " + E), ("field selection", F), ("skip sizes", S)])
p("C13", "An if condition decides presence identically everywhere",
  "A field with an if expression is encoded if and only if the expression is true for the values of the enclosing struct: when false it takes no space in SizeOf, BitSize, Pack and Unpack and Unpack leaves it alone, when true it behaves as if it had no condition; a condition that is not a boolean or fails is an error.",
  ["inputs", "programs"], "all boolean conditions over preceding fields, on fields of all kinds and with other options",
  "Tests try one condition on one field.",
  [D, E, S], [("evalIf", S)] + rw)
p("C14", "size and bits expressions set exactly that length or width",
  "A slice or string with a size expression is read with exactly the number of elements the expression evaluates to in the enclosing struct, and Pack fails unless the actual length equals it; a bits expression sets the field's bit width for reading, writing and sizing alike. A negative size is an error.",
  ["inputs", "programs"], "expressions over preceding fields, all results from negative to larger than the input",
  "Tests evaluate one size and one bits expression.",
  [D, E, S], [("evalSize, evalBits", S)])
p("C15", "A switch encodes exactly the first matching case, else the default",
  "For a switch struct, Pack, Unpack, SizeOf and BitSize all use the first case in declaration order whose value equals the switch value, or the default case if none does, or nothing if there is no default; Unpack resets the cases that were not selected to their zero values. Two defaults or a field that is no case, met before the first match, and a switch on a non-struct are errors.",
  ["inputs", "programs"], "all case lists (order, duplicates, default in any position), all switch values, cases of all kinds",
  "The only test of switches is one PNG file.",
  [D, E, S], [("switc", D + ", " + E), ("switcbits", S)])
p("C16", "A while slice holds exactly the elements read while the condition held",
  "Unpack of a slice with a while expression evaluates it before each element and appends decoded elements exactly as long as it is true (with _eof: until the input is exhausted); the result contains only decoded elements, whatever the slice held before. Pack writes all elements, and an element that fails to decode is an error.",
  ["inputs", "programs"], "all input lengths and termination conditions, elements of all kinds, any previous contents of the slice",
  "One PNG file exercises it, into an empty value.",
  [D, E, S], [("while loop in read", D), ("_eof", S)])
p("C17", "in and out expressions transform exactly the one field, both ways",
  "After a field with an in expression is decoded, it holds the value of the expression evaluated with all fields decoded so far including itself; when a field has an out expression, Pack encodes the expression's value in the declared layout and leaves the field itself unchanged. A result of the wrong type is an error.",
  ["inputs", "programs"], "expressions over the field and its predecessors, all field types",
  "One test uses one pair of expressions.",
  [D, E], [("InExpr", D), ("OutExpr", E)])
p("C18", "root and parent fields refer to the right enclosing struct and take no space",
  "During every operation a root field is set to the outermost struct and a parent field to the nearest enclosing struct of its type, before any later field or expression can use it, at every nesting depth and in every element; they occupy no bytes, and a reference whose type no enclosing struct has is left as it was.",
  ["inputs", "programs"], "nestings through structs, slices, arrays, pointers and switches, types matching several or no levels, all four operations",
  "The PNG test reads one nesting.",
  [D, E, S], [("setancestor, ancestor, root", S)])
p("C19", "Custom codecs are called once, in order, at the right position",
  "A value whose type (or pointer to it) implements Packer, Unpacker, Sizer or BitSizer is encoded and decoded by exactly one call of that method and sized by what it reports: it gets the buffer starting at the value's position with everything up to the end, the byte order in effect, its returned remainder is where the next field continues, and its error is the operation's error, recognisable as such (errors.Is).",
  ["inputs", "programs"], "value and pointer receivers, top level, fields, elements and pointees, both orders, success and failure",
  "Tests define two custom types used in one place each.",
  [D, E, F, S], [("unpacker", D), ("packer", E), ("bitSizeUsingInterface", F)])
p("C20", "Concurrent use gives the sequential results and no data races",
  "Any number of goroutines may pack, unpack, size and evaluate expressions at the same time on distinct values, with types that are new or already used, and with shared read-only inputs; every call returns what it returns when run alone, and no call corrupts the shared caches or races on them.",
  ["schedules", "histories"], "all interleavings of first and later uses of types by several goroutines",
  "The tests are sequential; a first-use race needs a particular interleaving inside cache population.",
  [F, ET], [("fieldCache, cacheMutex", F), ("typemap, typemutex", ET)],
  state=[dict(name="field cache", meaning="per struct type, its parsed fields", where=F), dict(name="expression type cache", meaning="per Go type, its expression type", where=ET)],
  observe=["results of concurrent calls", "race detector reports"])
p("C21", "Results do not depend on earlier calls",
  "What an operation returns depends only on its arguments: earlier successful or failed operations on the same or other types, in any order, change neither its result nor its error status.",
  ["histories"], "all sequences of operations (including ones that fail part-way) before the call",
  "Each test runs its own type; state kept across calls (caches, restored settings after an error) shows only in sequences.",
  [F, ET, D, E], [("fieldCache", F), ("typemap", ET), ("per-call state", PK)])
p("C22", "What Unpack decodes does not depend on what the destination held",
  "Unpacking the same bytes into destinations of the same type with different previous contents gives the same result in every field that has an encoding in that input; fields without one (ignored, unexported, blank, condition false) keep their previous contents. Slices and pointers reachable from the old contents are replaced, not written through, unless they are fixed-size parts of the destination itself.",
  ["inputs", "histories"], "all previous contents: stale slices, strings, pointers, switch cases, counters",
  "Tests almost always decode into a zero value.",
  [D], [("allocation in read", D), ("switch reset", D)])
p("C23", "Pack and SizeOf do not disturb the value or alias their output",
  "Pack, SizeOf and BitSize leave the value unchanged except for counter fields (set to the length they count) and root and parent references; packing twice gives the same bytes. The returned buffer is freshly allocated: neither a later call nor changing the value, or the buffer, affects the other, and data decoded by Unpack stays correct as long as the input is not modified.",
  ["inputs", "histories"], "all values, repeated and alternating calls, mutation between calls",
  "Tests do not look at the value after Pack.",
  [E, PK, S], [("counter update", E), ("buffer allocation", PK)])
p("C24", "Values and pointers are interchangeable for reading",
  "Pack, SizeOf and BitSize give the same result for a value and for a pointer to it, including counters, custom codecs with pointer receivers, and nested references. Unpack into a value that is not a pointer is an error, since nothing could be stored, unless its type decodes itself by value.",
  ["inputs", "programs"], "all supported types passed both ways",
  "Only two tests pass by value, with types that hide the difference.",
  [PK, D, E], [("fieldFromIntf", PK), ("CanSet", D + ", " + E)])
p("C25", "Struct tags mean the same in any order and spelling; bad tags are errors",
  "A field's options have the same effect in every order, in every synonymous spelling (big, msb, network; little, lsb; an expression inside the struct tag or in its own struct-if, struct-size, ... tag) and in every permitted number base; expressions may contain commas inside brackets and quotes. A malformed or unknown option, a size, sizeof, sizefrom or bits option on a field whose type it cannot apply to, and a sizeof or sizefrom that names no later or earlier field, make every operation on the type return an error: ErrInvalidSize, ErrInvalidSizeOf, ErrInvalidSizeFrom or ErrInvalidBits if such an option on an unsuitable type is all that is wrong.",
  ["inputs", "programs"], "all option sets, orders and spellings, and all malformed tags",
  "Tests list about twenty tags.",
  [T, TS, F], [("parseTag", T), ("typeOfExpr", TS), ("option validation", F)])
p("C26", "Expressions parse with Go's precedence and associativity",
  "An expression evaluates as Go would group it: unary operators bind tightest after selectors, calls and indexing, then * / % << >> & &^, then + - | ^, then comparisons, then &&, then ||, all left-associative, with the right-associative ternary ?: lowest; parentheses override, and spaces or tabs between tokens (or their absence where tokens stay distinct) never matter.",
  ["programs", "inputs"], "all expressions over the grammar",
  "The parser tests have about ten strings.",
  [EP, EL], [("parseexpr", EP), ("scan", EL)], observe=["expr.Eval", "expr.ParseString with expr.EvalProgram"])
p("C27", "Integer operations are exact two's-complement operations of the operand type",
  "For each of the sized and unsized integer types, + - * / % & | ^ &^ << >> and unary - + ^ give what Go gives for operands of that type: the result has the operand type and wraps at its width, division truncates, right shift of signed values keeps the sign, shifts by the width or more give 0 or -1; division or remainder by zero and mixing different types are errors.",
  ["inputs", "programs"], "all integer types, all operand values including the extremes, all operators",
  "Value tests compute with one pair of small numbers per operator.",
  [EV], [("arithmetic per type", EV)], observe=["expr.Eval result and its Go type"])
p("C28", "Comparison and logic match Go",
  "== != < <= > >= compare integers and floats (NaN included) and, for == and != only, strings and booleans, as Go does, giving a boolean; && || ! compute on booleans, and ?: returns exactly the selected branch without evaluating the other. Values of named types behave like values of their underlying type, nil compares equal exactly to nil pointers, and comparing different types is an error.",
  ["inputs", "programs"], "all operand types and values",
  "Tests compare a few constants.",
  [EV, EE, ET], [("comparison per type", EV), ("evalternary", EE)], observe=["expr.Eval result"])
p("C29", "Untyped constants take the type of the other operand",
  "An integer constant that is representable in the other operand's type behaves, on either side of any operator, as a value of that type (floats included), two integer constants compute as int, a float constant adapts to float variables only, and function arguments, indexes and map keys convert the same way; everything else is an error.",
  ["inputs", "programs"], "all constants against all operand types, on both sides",
  "One test covers int constants on the right.",
  [EV, ET], [("coerce, promote, assignable", EV + ", " + ET)], observe=["expr.Eval result and its Go type"])
p("C30", "A bad expression yields an error, never a panic, hang or silent value",
  "Evaluating any string returns a value or an error: a syntax error (unfinished, unbalanced or trailing tokens, bad literals), an unresolved name, an operator applied to unsupported types, an index out of range, a wrong call or a nil dereference is reported as an error, and no input makes expr.Eval or the evaluation of a parsed program panic or fail to terminate, unless it nests too deeply for the memory available.",
  ["inputs", "programs"], "arbitrary strings, token sequences and well-formed expressions over ill-typed or out-of-range operands",
  "The error test has one string.",
  [EP, EL, EE, EV], [("recover in EvalProgram", EE), ("error tokens", EL), ("expect", EP)], observe=["expr.Eval, expr.ParseString"])
p("C31", "Names, members, indexes, dereferences and calls reach exactly the named thing",
  "A name resolves to the first resolver (or, in a tag, the standard library, then the innermost enclosing struct) that defines it; x.f, x[i], *p, &v and f(a, b) denote the field, element (array, slice, string byte or map entry), target, address and call result that Go's corresponding expression denotes (fields promoted from embedded structs included), with the value current at the moment of evaluation.",
  ["inputs", "programs"], "all resolver layerings and nested values",
  "Tests resolve a few names.",
  [EN, EV, EE, S], [("MetaResolver, MapResolver, StructResolver", EN), ("Dot, Index, Deref, Ref, Call", EV), ("Resolve", S)], observe=["expr.Eval result", "Resolver and TypeResolver results"])
p("C32", "The bits package functions compute what Go's math/bits computes",
  "Each function bits.F offered to tag expressions (LeadingZeros, TrailingZeros, OnesCount, Len, Reverse, ReverseBytes and RotateLeft in their plain, 8, 16, 32 and 64 bit variants) returns for every argument of its parameter type the mathematically defined result of that width.",
  ["inputs"], "all functions, all arguments",
  "No test calls any of them.",
  ["expr_19.go", S], [("exprStdLib", "expr_19.go")], observe=["fields decoded with in expressions that call them"])
p("C33", "Literals denote exactly the value Go gives them",
  "Decimal, hexadecimal (0x), octal (leading 0) and negative integers over the whole 64-bit range, decimal floating-point (with signed exponents), boolean, nil, rune and string literals (double-quoted, and $'...' for strings with single quotes, with all escapes and arbitrary Unicode text) denote the value Go's literal syntax denotes; malformed and out-of-range literals are errors.",
  ["inputs", "programs"], "all literals",
  "The scanner test lists a few literals.",
  [EL, "expr/ast.go", EE], [("scannumber, scanstring, scanrune, scanescape", EL)], observe=["expr.Eval result"])
p("C34", "The PNG format description reads and writes any chunk sequence",
  "For every well-formed sequence of PNG chunks (IHDR, IDAT, IEND and unknown types with any length that fits) the png package's File unpacks the header and exactly the chunks present, each with its length, type, body and checksum in the matching variant, and packing the result reproduces the file byte for byte; a file cut inside a chunk is an error.",
  ["inputs"], "all chunk sequences, bodies and truncations",
  "One image is tested.",
  ["formats/png/png.go", D, E, S], [("File, Chunk", "formats/png/png.go")])
p("C35", "Tag expressions are errors until enabled, and nothing else depends on it",
  "Until EnableExprBeta has been called, every Pack, Unpack, SizeOf or BitSize that needs the value of a tag expression (if, size, bits, in, out, while, switch) returns an error, and every call that needs none gives exactly the result it gives afterwards; from that call on expressions work for all types, including those used before.",
  ["inputs", "histories"], "all types with and without expressions, values and inputs, and every point of a history at which expressions are enabled",
  "The tests enable expressions once, before everything.",
  ["expr.go", S, D, E, PK], [("evalExpr", S), ("EnableExprBeta", "expr.go")], observe=["Pack, Unpack, SizeOf and BitSize results before and after EnableExprBeta"])

p("C36", "Type descriptions mirror Go's types, and type resolvers mirror values",
  "expr.TypeOf describes exactly the structure of a value's Go type, recursive types included (kind, element, key and value, array length, struct fields in order and by name, parameters, results and variadicity; names of types and tags are left out; types that expressions cannot use are opaque); two descriptions, however made (TypeOf, ValueOf or the constructors), are TypeEqual exactly when they describe the same structure. A chain of type resolvers (structs by their declared fields, maps, packages, adapted value resolvers) gives for each name the type from the first that has it, or nil.",
  ["inputs", "schedules"], "all Go types, pairs of types and rows of resolvers, asked from any number of goroutines",
  "Tests describe a handful of types and resolve two names.",
  ["expr/type.go", EN, "expr/package.go"], [("TypeOf, fromreflecttype, TypeEqual, constructors", "expr/type.go"), ("StructTypeResolver, MapTypeResolver, MetaTypeResolver, TypeResolverAdapter", EN), ("NewPackage, Type, Symbol", "expr/package.go")], observe=["the methods of the Type values that TypeOf, ValueOf and the constructors return", "TypeEqual", "TypeResolve"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
