S = '; the coder builders are interpreted on symbolic field shapes and the resulting instruction sequences are evaluated to wire trees and compared with the description'
T = 'abstract interpretation of the code emitter over MIR; the emitted token templates are parsed and evaluated to effect trees; '
CLAIMS.update({
    'C01': (T + 'comparison with the reference effects of each instruction' + S, 'every coder instruction that moves a value x every primitive type x both byte orders x both modes ; enumerated field shapes (quick: depth 2; thorough: longer chains)'),
    'C02': (T + 'dataflow of fallible results', 'every stream operation, conversion and nested call of every emitted template'),
    'C03': (T + 'comparison of the two modes', 'every shape of every coder instruction in both modes'),
    'C04': (T + 'comparison with the reference effects of each instruction' + S, 'instructions that place, nest, skip and assemble values ; enumerated field shapes (quick: depth 2; thorough: longer chains)'),
    'C05': (T + 'comparison with the reference effects of each instruction' + S, 'instructions that open, finish and drop streams ; enumerated field shapes (quick: depth 2; thorough: longer chains)'),
    'C06': (T + 'comparison with the reference effects of each instruction' + S, 'instructions for optional parts ; enumerated field shapes (quick: depth 2; thorough: longer chains)'),
    'C07': (T + 'comparison with the reference effects of each instruction' + S, 'instructions that count, limit, pad and terminate ; enumerated field shapes (quick: depth 2; thorough: longer chains)'),
    'C08': ('scan of every constant of the code-emitting functions in MIR and of the effects of every emitted template', 'every string constant and every template'),
    'C09': (T + 'search for panicking, allocating and non-progressing constructs', 'every decoding template and every expression form'),
    'C10': (T + 'search for panicking constructs', 'every encoding template and every expression form'),
    'C11': (T + 'comparison with the reference effects of each instruction' + S, 'instructions for buffers and computed values ; enumerated field shapes (quick: depth 2; thorough: longer chains)'),
})

B = 'abstract evaluation of the emitted fragments of the built-ins in a bit-provenance domain (every bit of a result is a known function of input bits); '
CLAIMS.update({
    'C24': (B + 'comparison with the reference meaning', 'every name the prelude resolver knows; native types x both byte orders x both modes; strings up to the enumerated lengths'),
    'C25': (B + 'coder composed with decoder, case by case of the encoded length', 'every variable-length integer type; every value, grouped by the number of encoded bytes; both modes'),
})

CLAIMS['C23'] = ('interpretation of the item generators over MIR on given members; the emitted items are parsed and evaluated bit by bit over all of the representation domain (split into cubes)',
                 'ten representations x enumerated member shapes (with and without default member; single-bit, multi-bit and overlapping flags); every representation value')

L = 'abstract interpretation of the tokenizer over MIR on inputs whose bytes are symbolic: the cases it distinguishes partition the inputs; '
CLAIMS['C14'] = (L + 'every case compared with the reference lexer', 'all inputs up to three (thorough: four) bytes, and every continuation of the prefixes of literals, comments, words and operators')
CLAIMS['C22'] = (L + 'spans of tokens compared with a count of lines and columns; interpretation of the parser on token sequences with marked positions, spans of every node compared with the tokens of the construct',
                 'texts with up to two unknown characters in the enumerated shapes; about fifty descriptions with one unknown token each')
CLAIMS['C18'] = ('abstract interpretation of the parser over MIR on token sequences with an unknown token: the cases it distinguishes partition the sequences; each is compared with the documented grammar',
                 'every description that differs in one token from one of about fifty descriptions covering every production, every prefix of them, and every pair of operators')
CLAIMS['C15'] = (L + 'search for reachable panics; call-graph cycles of the parser have to pass a bound on the depth',
                 'texts up to three bytes and continuations of the prefixes of literals, comments and operators; every token sequence of C18; every recursive function of the parser')

M = 'interpretation of the parser and the semantic analysis over MIR on enumerated descriptions, giving the analysed program or the error; '
CLAIMS['C17'] = (M + 'acceptance of every pair of types in every position compared with the value ranges of the types',
                 'about thirty types (scalars, variable-length, enums, bitfields, aliases, arrays, strings) x about thirty types x the positions that convert implicitly')
CLAIMS['C19'] = (M + 'binding of each name compared with the scoping rules',
                 'thirteen places a value is named in x every subset of the scopes declaring it; six places a type is named in x every pair of declarations; members, flags, transforms, functions, imports with and without alias; every number of arguments against every signature up to two required and two optional ones; redeclarations of every kind')
CLAIMS['C20'] = ('interpretation of parser, semantic analysis and code emission over MIR on descriptions that refer to each other in every small graph; recursion or iteration of the interpretation beyond any bound of the description is the violation',
                 'import graphs of three files; type graphs of one and two types with eight kinds of edges and of three types with four; cyclic arguments, values, fields and error messages; nesting and chains up to fourteen')
CLAIMS['C27'] = ('interpretation of the semantic analysis and of the code emission over MIR on every small graph of types; marks and emitted attributes compared with reachability',
                 'type graphs of one and two types with eight kinds of edges and of three types with four; imported types of the same name')

CLAIMS['C21'] = ('interpretation of the driver functions over MIR with every call into the operating system and every stage of unknown outcome: on each path that reports success every fallible step must have been examined and found successful, and the complete text written; interpretation of the resolution of descriptions whose k-th use of the import resolver fails',
                 'every path of rustfmt and compile_spec; every use of every method of the resolver in ten descriptions; eight kinds of unusable text at six places of the import tree')

CLAIMS['C26'] = ('interpretation of the coder builders over MIR on a computed field whose calculation has a size-of call at every position of every kind of expression (kinds and positions enumerated from the definition of the type, operators and all other parts symbolic); the evaluated instructions must replace every call by the size of the bytes of the part it names',
                 'every kind of expression, one and two calls, nesting depth two (thorough: three)')

CLAIMS['C29'] = ('interpretation of parser, semantic analysis and code emission over MIR on enumerated descriptions; the emitted token stream, fully known, is type checked by rustc (resolution, types, borrows); nothing is executed',
                 'about forty kinds of types x nineteen places they can stand in, plus about 130 descriptions of single constructs (types, constants, operators, casts, functions, arguments, recursion, names), synchronous and asynchronous code')
NA.pop('C29', None)

NA.pop('C28', None)
CLAIMS['C28'] = ('interpretation of front end and code emission over MIR on enumerated descriptions; the emitted items are parsed and evaluated in a bit-provenance domain (each bit of a result is a known function of input bits): decoder, encoder and decoder composed',
                 'about 40 kinds of field x 15 places and about 90 single descriptions, each with enumerated control bytes and free data bytes, both modes; input arriving whole and byte by byte; transforms as opaque units read only by their inverse')

CLAIMS['C30'] = ('interpretation of parser and semantic analysis over MIR on descriptions with one marked fault: the token range carried by the resulting error is compared with the mark; reference grammar for the first token that cannot stand; interpretation of the error texts with symbolic fields',
                 'about 300 marked faults (every kind of wrong expression x nine places, and one per remaining kind of error), every single-token replacement and every prefix of about 40 templates, every kind of error')
CLAIMS['C31'] = ('interpretation of the generator over MIR for the same description under different options: item-by-item comparison of the emitted token streams; rustc type check of the streams; interpretation of compile_spec with unknown options for the flow of each option',
                 'about 25 descriptions covering each kind of generated item, eight pairs of derive lists, anyhow and debug mode with and without asynchronous coders')
CLAIMS['C32'] = ('interpretation of front end and generator over MIR under two opposite orders of hashed collections, with comparison of the outcomes; effect analysis of everything reachable from the entry points',
                 'about 110 descriptions, 14 of them with several faults; all functions reachable from tokenizer, parser, analysis and generator')
CLAIMS['C33'] = ('interpretation of front end and generator over MIR; the items of the emitted token stream are compared with the types the analysed description declares, by a reference mapping from declared types to Rust types',
                 'about 450 descriptions: every kind of type x nineteen places, every kind of item, parameters of each type')
