"""property -> [(module, function)] deciding it"""
REGISTRY = {
    'C01': [('gen', 'values'), ('seq', 'types')],
    'C02': [('gen', 'io_errors'), ('prelude', 'io_errors')],
    'C03': [('gen', 'modes'), ('prelude', 'modes')],
    'C04': [('gen', 'structure'), ('seq', 'order')],
    'C05': [('gen', 'streams'), ('seq', 'transforms'), ('prelude', 'codecs')],
    'C06': [('gen', 'optional'), ('seq', 'optional')],
    'C07': [('gen', 'lengths'), ('seq', 'lengths')],
    'C08': [('gen', 'unsafety')],
    'C09': [('gen', 'decode_total'), ('exprs', 'expr_panics'), ('prelude', 'decode_total')],
    'C10': [('gen', 'encode_total'), ('exprs', 'expr_panics'), ('prelude', 'encode_total')],
    'C11': [('gen', 'computed'), ('seq', 'computed')],
    'C12': [('exprs', 'emission')],
    'C13': [('exprs', 'consteval')],
    'C23': [('enums', 'members'), ('enums', 'described')],
    'C24': [('prelude', 'builtins')],
    'C25': [('prelude', 'varints')],
    'C14': [('lexer', 'tokens')],
    'C15': [('parser', 'panics')],
    'C18': [('parser', 'grammar')],
    'C22': [('lexer', 'positions'), ('parser', 'tree_spans')],
    'C17': [('front', 'conversions')],
    'C19': [('scope', 'resolution')],
    'C20': [('term', 'termination')],
    'C21': [('pipeline', 'pipeline'), ('pipeline', 'resolver')],
    'C26': [('seq', 'positions')],
    'C27': [('term', 'self_containing')],
    'C28': [('roundtrip', 'composed')],
    'C30': [('blame', 'blame'), ('blame', 'messages'), ('parser', 'error_places')],
    'C31': [('options', 'options')],
    'C33': [('mirror', 'mirror')],
    'C32': [('determinism', 'effects'), ('determinism', 'order')],
    'C29': [('compiles', 'emitted')],
    'C16': [('tables', 'scalars')],
}
