#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that entries stay uniform)."""
import json, os
P = []
B = 'protospec-build/src/'
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=B + w) for n, w in mech])))

p('C01', 'Encoder and decoder agree on width, signedness and byte order of every value',
  'For every scalar, float, boolean, enum, bitfield and array-element type, the generated encoder writes exactly as many bytes as the generated decoder reads for it, and both interpret them in the same byte order with the same numeric type. The byte order is big-endian unless the type is declared little-endian, and the width is the declared width.',
  ['programs', 'inputs'], 'every protocol description (any type at any nesting) and every value',
  'The tests compile a few dozen descriptions; the type x byte-order x position (plain, array element, array length, enum or bitfield representation) product is not sampled.',
  ['compiler/decoder.rs', 'compiler/encoder.rs', 'coder/decode/field.rs', 'coder/encode/field.rs', 'coder/decode/array.rs', 'coder/encode/array.rs'],
  [('decoder templates', 'compiler/decoder.rs'), ('encoder templates', 'compiler/encoder.rs')])
p('C02', 'Every I/O failure inside generated coders is returned to the caller',
  'Whenever a read, write, flush, or nested encode/decode performed by a generated encoder or decoder fails or hits end of input, that failure becomes the result of the generated call. No generated path ignores such a result, replaces it by success, or turns it into a panic.',
  ['programs', 'fault_sequences'], 'every description and every position at which the stream may fail',
  'Tests run generated code on in-memory buffers that never fail.',
  ['compiler/decoder.rs', 'compiler/encoder.rs', 'prelude/utf8.rs', 'prelude/utf16.rs', 'prelude/var.rs'],
  [('`?` on every emitted stream operation', 'compiler/encoder.rs')])
p('C03', 'Asynchronous and synchronous coders implement the same wire format',
  'For every description, the generated asynchronous encoder and decoder perform the same sequence of reads and writes, with the same widths, byte orders, lengths, conditions and error checks, as the synchronous ones. Every asynchronous stream operation is awaited.',
  ['programs', 'inputs'], 'every description, every value and every input stream',
  'Most tests exercise only the synchronous side; the pairwise equality over all constructs is never checked.',
  ['compiler/decoder.rs', 'compiler/encoder.rs', 'compiler/mod.rs', 'prelude/utf8.rs', 'prelude/utf16.rs', 'prelude/var.rs'],
  [('is_async parameter of the emitters', 'compiler/decoder.rs')])
p('C04', 'Every container field is coded exactly once, in declaration order, on both sides',
  'For every container, decoding and encoding both visit each declared field exactly once and in the order of declaration, including nested containers and padding. Padding reads and writes the same declared number of bytes, and each decoded value is stored in the member of the field it was read for.',
  ['programs'], 'every container with any number and mix of fields, nested containers, padding and computed fields',
  'Field count and mix are unbounded; tests cover a few fixed shapes.',
  ['coder/decode/container.rs', 'coder/encode/container.rs', 'coder/decode/field.rs', 'coder/encode/field.rs', 'compiler/decoder.rs'],
  [('field loop', 'coder/decode/container.rs'), ('field loop', 'coder/encode/container.rs')])
p('C05', 'Transforms are undone in reverse order and every transform stream is finished',
  'If a field is encoded through a chain of transforms, decoding applies the inverse transforms in the opposite nesting, under the same per-transform conditions. Every stream opened for encoding through a transform is flushed and closed before bytes of later fields are written, and errors while finishing it are reported.',
  ['programs', 'inputs'], 'every chain of transforms with any conditions on any field',
  'Tests use at most one transform per field, so ordering and the mixed conditional cases are never exercised.',
  ['coder/decode/field.rs', 'coder/encode/field.rs', 'coder/encode/container.rs', 'compiler/encoder.rs', 'compiler/decoder.rs'],
  [('transform loop', 'coder/decode/field.rs'), ('transform loop', 'coder/encode/field.rs')])
p('C06', 'Optional fields are present on the wire exactly when their condition holds',
  'A conditional field contributes bytes if and only if its condition is true, for both encoder and decoder, and the decoder yields an absent value otherwise. Encoding a value whose required optional part is missing is an error, never silently skipped or a panic.',
  ['programs', 'inputs'], 'every conditional field of every type, at top level or inside containers, and every value of the condition',
  'Tests sample a few boolean conditions on scalar fields.',
  ['coder/decode/field.rs', 'coder/encode/field.rs', 'coder/encode/container.rs', 'compiler/decoder.rs', 'compiler/encoder.rs'],
  [('conditional emission', 'coder/decode/field.rs'), ('null check', 'coder/encode/field.rs')])
p('C07', 'Array lengths, terminators and byte lengths mean the same on both sides',
  'For an array with a length expression both directions transfer exactly that many elements; for a terminated array the encoder writes the same terminator the decoder stops at, once and after the last element; for an unbounded array both run to the end of the enclosing data. A container with a declared byte length confines its decoder to that many bytes.',
  ['programs', 'inputs'], 'every array and container form, every element type and every length value',
  'Tests cover few element types per length form.',
  ['coder/decode/array.rs', 'coder/encode/array.rs', 'coder/decode/container.rs', 'coder/encode/container.rs', 'compiler/decoder.rs', 'compiler/encoder.rs'],
  [('length handling', 'coder/decode/array.rs'), ('length handling', 'coder/encode/array.rs')])
p('C08', 'Generated code contains no unsafe operation',
  'The code generated for any description consists of safe Rust only, so that no input stream and no value passed to a generated coder can expose uninitialised or out-of-bounds memory.',
  ['programs', 'inputs'], 'every description and every stream',
  'Reading uninitialised memory is not visible in a test that compares decoded values of well-formed streams.',
  ['compiler/decoder.rs', 'compiler/encoder.rs', 'prelude/utf8.rs', 'prelude/utf16.rs', 'prelude/var.rs', 'prelude/base64.rs', 'prelude/gzip.rs'],
  [('emitted templates', 'compiler/decoder.rs')])
p('C09', 'Decoding arbitrary bytes ends in a value or an error',
  'A generated decoder given any byte sequence terminates with either a value or an error: no construct it emits can panic on stream contents, and no emitted loop can run without consuming input or making progress.',
  ['programs', 'inputs'], 'every description and every byte sequence, including truncated ones',
  'Tests decode what was just encoded.',
  ['compiler/decoder.rs', 'prelude/utf8.rs', 'prelude/utf16.rs', 'prelude/var.rs'],
  [('emitted decoder templates', 'compiler/decoder.rs')])
p('C10', 'Encoding a value that contradicts the description is an error, not a panic',
  'A generated encoder reports a missing part, or an array whose length differs from its declared length, through its error result. No construct it emits can panic because of the value being encoded.',
  ['programs', 'inputs'], 'every description and every value of the generated types',
  'Tests encode only consistent values.',
  ['compiler/encoder.rs', 'coder/encode/array.rs', 'coder/encode/container.rs'],
  [('emitted encoder templates', 'compiler/encoder.rs')])
p('C11', 'Computed fields are written once, in wire order, from the bytes they describe',
  'When a field is computed from the encoded size of another field, its bytes appear at its declared position, exactly once, and are computed from the bytes that are later emitted for that other field. Bytes buffered while computing are all emitted, in declaration order, to the enclosing stream.',
  ['programs', 'inputs'], 'every placement of computed fields relative to the fields they measure, at any nesting',
  'Tests have one computed field directly before its target.',
  ['coder/encode/container.rs', 'coder/encode/field.rs', 'asg/expression/mod.rs', 'prelude/blen.rs'],
  [('automatic field planning', 'coder/encode/container.rs')])
p('C12', 'Generated expressions compute what the description says',
  'Every operator, cast, index, conditional, member access, reference and call of a description expression is emitted as the target-language construct with the same meaning, on the operands in the written order. The emitted text regroups nothing: each subexpression stays one operand whatever its form.',
  ['programs'], 'every expression tree over all operators and operand forms',
  'Tests contain single-operator expressions; operator x operand-form pairs are not sampled.',
  ['compiler/expr.rs', 'compiler/mod.rs'],
  [('expression emission', 'compiler/expr.rs')])
p('C13', 'Constant evaluation agrees with the operators of the language',
  'Evaluating a constant expression uses, for every operator, operand type and width, the operation that the operator denotes, on the operands in the written order, and yields a value of the same integer type. Mixed operand types are rejected rather than silently evaluated in another type.',
  ['programs', 'inputs'], 'every constant expression over every operator and integer type',
  'Ten integer types times twenty operators; tests evaluate a handful.',
  ['compiler/expr.rs', 'asg/expression/const_int.rs'],
  [('constant evaluator', 'compiler/expr.rs'), ('typed constant arithmetic', 'asg/expression/const_int.rs')])
p('C14', 'Every keyword and operator spelling denotes exactly one token',
  'Each keyword and operator of the language is recognised as its own token, printing a token and reading it back yields the same token, and where one spelling is a prefix of another the longest one wins. A keyword is recognised only as a whole word. A string literal denotes the bytes it spells, with its escapes replaced, and an identifier or number is the longest run of its characters.',
  ['inputs'], 'every token kind and every following character',
  'Prefix pairs and following characters are not enumerated by tests.',
  ['tokenizer.rs'], [('token recognition', 'tokenizer.rs'), ('token printing', 'tokenizer.rs')])
p('C15', 'Reading a description never panics',
  'Tokenizing and parsing any text terminates with a syntax tree or an error carrying a message; no text causes an arithmetic overflow, out-of-range slice or failed unwrap in them, and no nesting of types or expressions exhausts the stack while they run.',
  ['inputs'], 'every input text',
  'Tests contain well-formed descriptions and few error cases.',
  ['tokenizer.rs', 'parser/token_iter.rs', 'parser/mod.rs'], [('bounds guards', 'tokenizer.rs')])
p('C16', 'Built-in scalar tables are consistent with the type names',
  'For each of the ten integer types, in both byte orders, the keyword that is read, the name that is printed, the size in bytes, the signedness, the parsed literal range and the type used in generated code are those its name states.',
  ['inputs', 'programs'], 'all integer types and both byte orders',
  'Tests sample some of the types in some of the tables.',
  ['ast/types/scalar.rs', 'parser/types/scalar.rs', 'asg/expression/const_int.rs', 'compiler/mod.rs', 'tokenizer.rs'],
  [('scalar tables', 'ast/types/scalar.rs')])
p('C17', 'Implicit conversions never lose information',
  'Without an explicit cast a value is converted only to a type that represents every value of its own type: an integer to an integer of the same signedness and at least the width (enums and bitfields count as their representation, variable-length integers as the integer they encode), f32 to f64. Such conversions are accepted in every position; every other mismatch of types is rejected unless the description writes a cast, and every implicit conversion is also allowed as a cast. Two types are the same when they are equal up to aliases, byte order and the lengths of arrays.',
  ['programs'], 'every ordered pair of types',
  'The pair table has over a hundred cells per category; tests touch a few.',
  ['ast/types/scalar.rs', 'asg/types/mod.rs', 'semantics/partial_type.rs', 'semantics/convert/expression/mod.rs'],
  [('conversion predicates', 'asg/types/mod.rs'), ('coercion point', 'semantics/convert/expression/mod.rs')])
p('C18', 'The parser accepts the documented grammar with its precedence and associativity',
  'Every construct of the documented grammar is accepted and produces the tree that the grammar prescribes: operators bind in the documented precedence order and associate to the left, each operator token becomes its own operator, and every parsed component ends up in its own place of the tree.',
  ['inputs', 'programs'], 'every sentence of the grammar',
  'Tests parse single constructs; precedence pairs are not enumerated.',
  ['parser/mod.rs', 'parser/expression/mod.rs', 'parser/token_iter.rs'],
  [('precedence chain', 'parser/expression/mod.rs')])
p('C19', 'Names resolve to the declared entity or are rejected',
  'Every reference to a type, constant, field, enum variant, transform, function or argument resolves to the entity of that name that is in scope, innermost scope first, or the description is rejected with an error naming it. Redeclaring a name in one scope, and passing arguments of the wrong number or type, are errors.',
  ['programs'], 'every description',
  'Each reference kind times each failure is a separate path; tests cover a few.',
  ['semantics/convert/mod.rs', 'semantics/resolve.rs', 'semantics/convert/program/mod.rs', 'semantics/convert/ffi_arguments.rs'],
  [('resolution', 'semantics/convert/program/resolve.rs')])
p('C20', 'Compiling a description always terminates',
  'Compilation terminates for every description, including ones whose imports, type aliases or array element types refer to each other in a cycle; such a cycle is reported as an error, and descriptions without one are not. Types that contain themselves through the fields of a container are no such cycle.',
  ['programs'], 'every set of description files',
  'No test has an import or alias cycle.',
  ['semantics/convert/program/mod.rs', 'semantics/convert/program/import.rs', 'asg/types/mod.rs'],
  [('import cache', 'semantics/convert/program/import.rs'), ('alias resolution', 'asg/types/mod.rs')])
p('C21', 'No compilation error is dropped on the way to the caller',
  'If reading, resolving, formatting or writing fails at any step of compiling a description, the caller receives an error; success is reported only after the complete output was produced and written.',
  ['fault_sequences', 'programs'], 'every failing step of the pipeline and every description',
  'Tests do not inject failures of the formatter, the file system or the resolver.',
  ['lib.rs', 'semantics/convert/program/mod.rs', 'prelude/resolver.rs'],
  [('pipeline', 'lib.rs')])
p('C22', 'Diagnostics point at the offending source location',
  'Every token and syntax-tree node carries the line and column at which its text starts and ends, for any text including comments and line breaks, and a node spanning several tokens covers from the first to the last of them (parentheses around an expression aside).',
  ['inputs'], 'every text and every node',
  'Tests do not check the spans.',
  ['tokenizer.rs', 'parser/mod.rs', 'parser/expression/mod.rs'],
  [('line bookkeeping', 'tokenizer.rs'), ('span joining', 'tokenizer.rs')])
p('C23', 'Generated enums and bitfields map representation values consistently',
  'The generated conversions of an enum from and to its representation are inverse to each other for every member; a representation value that no member has is an error, or, when the description has a default member, becomes that member holding the value and is re-encoded unchanged. Each bitfield flag sets exactly the bits the description assigns to it and reads as set when one of them is; bits that no flag has are an error. A member without a written value follows its predecessor: by one for an enum, by one shift for a bitfield.',
  ['programs', 'inputs'], 'every enum and bitfield declaration and every representation value',
  'Tests decode a few variants and flags.',
  ['compiler/mod.rs', 'semantics/convert/type_/enum_.rs', 'semantics/convert/type_/bitfield.rs'],
  [('enum generation', 'compiler/mod.rs'), ('bitfield generation', 'compiler/mod.rs')])
p('C24', 'Every built-in name denotes its documented type, transform or function',
  'Each name offered by the standard prelude resolves to the built-in it names (width and signedness of variable-length integers, text encodings, compression, functions), the set of offered names resolves completely, and any other name is rejected. A built-in that can decode can encode, for both synchronous and asynchronous code.',
  ['programs'], 'every prelude name',
  'Tests use a few of the names.',
  ['prelude/resolver.rs', 'prelude/var.rs', 'prelude/utf8.rs', 'prelude/utf16.rs', 'prelude/mod.rs'],
  [('prelude table', 'prelude/resolver.rs')])
p('C25', 'Variable-length integers round-trip over their whole range',
  'A variable-length integer of any supported width is encoded as little-endian groups of seven bits with a continuation bit, and the decoder accepts every encoding that the encoder can produce for that width and rejects longer ones.',
  ['inputs'], 'every value of every width',
  'Tests use small values.',
  ['prelude/var.rs'], [('group limit', 'prelude/var.rs')])
p('C26', 'Expression analyses look at every subexpression',
  'Whenever the compiler searches or rewrites an expression (for size-of references, computed lengths, or referenced fields), it covers all of its subexpressions, so that no use is missed because of where it stands.',
  ['programs'], 'every expression tree',
  'Tests have the searched call at the root of the expression.',
  ['asg/expression/mod.rs'], [('traversals', 'asg/expression/mod.rs')])
p('C27', 'Self-containing types are detected exactly and their async coders boxed',
  'Exactly the types that can contain themselves, directly or through aliases, array elements, fields, nested containers and other types (types of equal name from different files being different types), are recognised as such, and exactly their async coders are emitted as boxed recursive functions.',
  ['programs'], 'every type graph',
  'Tests contain a single direct cycle.',
  ['semantics/convert/program/mod.rs', 'asg/types/mod.rs', 'asg/program.rs', 'compiler/mod.rs'],
  [('cycle scan', 'asg/program.rs')])
p('C28', 'Decoding what was encoded yields the original value',
  'For every description and every value that satisfies it, decoding the encoded bytes yields an equal value and consumes all of them.',
  ['programs', 'inputs'], 'every description and every consistent value',
  'Both quantifiers are unbounded.',
  ['compiler/decoder.rs', 'compiler/encoder.rs'], [('generated coders', 'compiler/mod.rs')])
p('C29', 'Generated code for every accepted description compiles',
  'Whenever a description is accepted, the produced source is accepted by the Rust compiler.',
  ['programs'], 'every accepted description',
  'Tests compile the output for a fixed corpus only.',
  ['compiler/mod.rs'], [('code generation', 'compiler/mod.rs')])
p('C30', 'A rejected description is rejected at the construct that is at fault',
  'The error for a text that is not a description names the first token with which no description continues, or the end of the text when it only lacks more. The error for a description that is not accepted carries the place of the offending construct, an error about two declarations the place of the later and then of the earlier one, and the text of an error shows every place and name it carries, each where the text announces it.',
  ['inputs'], 'every text that is refused',
  'Tests check that descriptions are refused, not where.',
  ['parser/token_iter.rs', 'parser/error.rs', 'semantics/error.rs', 'semantics/convert/program/mod.rs', 'semantics/convert/expression/mod.rs', 'semantics/convert/type_/mod.rs'],
  [('error construction', 'semantics/convert'), ('error text', 'semantics/error.rs')])
p('C31', 'Compile options change exactly what they name',
  'Requested derives appear on every generated struct (struct_derives) and enum (enum_derives), once each, Default of an enum as an impl; beyond the request only Clone and Copy, and Default of structs, may be derived. include_async adds encode_async and decode_async to each type that has the sync coders and changes nothing else; without it nothing asynchronous is named. use_anyhow replaces only the Result type and the error constructors. debug_mode only adds statements that print. Code that Rust accepts without an option it accepts with it. compile_spec hands every option on under its own name.',
  ['inputs', 'configurations'], 'every description and every combination of options',
  'Tests compile a few descriptions with one fixed set of options.',
  ['lib.rs', 'compiler/mod.rs', 'compiler/decoder.rs', 'compiler/encoder.rs'],
  [('options', 'compiler/mod.rs'), ('option passing', 'lib.rs')])
p('C32', 'The output depends on description, imports and options alone',
  'Compiling the same description with the same imports and options gives the same generated source, or the same error, every time: nothing depends on the order of hashed collections, on addresses, time, environment, files or earlier runs. (Texts printed in debug mode are excepted; compile_spec asks for OUT_DIR and the formatter, and nothing else.)',
  ['inputs', 'histories'], 'every description, every run',
  'A test sees one run, with one order of hashed collections at a time.',
  ['semantics/convert/program/mod.rs', 'semantics/convert/program/ffi.rs', 'asg/program.rs', 'coder/encode/container.rs', 'compiler/mod.rs'],
  [('hashed collections', 'prelude/resolver.rs'), ('conversion', 'semantics/convert/program/ffi.rs')])
p('C33', 'Generated types mirror the description',
  'Each declared type yields one public Rust type of its name and nothing else is declared. A container becomes a struct with one public member per field that carries data (padding has none), in order, fields of inline containers spread into it, with the type of the field: numbers their Rust number, arrays Vec, utf8 and utf16 String, references the named type, Option when the field or an inline container around it is conditional. A tagged container becomes an enum with one variant per field, an enum one with its values in order, any other type a struct around its value. Each type has a public decoder and encoder that take the declared parameters in order, Option where there is a default.',
  ['inputs'], 'every accepted description',
  'Tests name the members of a few generated types.',
  ['compiler/mod.rs', 'asg/types/container.rs', 'prelude'],
  [('type emission', 'compiler/mod.rs'), ('member emission', 'compiler/mod.rs')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for e in P:
        if len(e["title"])>80: print(e["id"],len(e["title"]))
        f.write(json.dumps(e) + '\n')
