"""Which rules decide which property."""
from functools import partial
from . import rules_rt as RT
from . import rules_lexer as LX
from . import rules_text as TX
from . import rules_state as ST
from . import rules_files as FI
from . import rules_ids as ID
from . import rules_create as CR
from . import rules_layout as LY
from . import rules_read as RD
from . import rules_write as WR
from . import rules_time as TM


def rt(p):
    return lambda ctx, res: RT.roundtrip(p, ctx, res)


_RT = ('Every from_sexpr and to_sexpr method is summarised by abstract interpretation of its syntax tree (no execution): '
       'the writer becomes a token tree with path conditions, the reader a function of the expression; the two are composed symbolically '
       'and the result is compared with the item for every attribute under every satisfiable combination of conditions.')
_ASM = ['attributes hold values of their annotated types and, for keyword attributes, words of the documented vocabulary (kst/spec.py)',
        'free text does not end in a backslash (recorded as a known finding under C04/C13)']

PROPERTIES = {
    'C01': dict(rules=[rt('C01'), WR.accesses, WR.refusals, WR.available], explain=_RT, assumptions=_ASM, minimum={'reader/writer pairs': 95}),
    'C02': dict(rules=[rt('C02'), TX.as_text, WR.accesses, WR.refusals, WR.available, CR.fresh], explain=_RT, assumptions=_ASM, minimum={'reader/writer pairs': 95}),
    'C03': dict(rules=[TX.balanced],
                explain='Every to_sexpr method is summarised by abstract interpretation into a token tree with path conditions; '
                        'balance and separation are decided on that tree with first/follow sets.',
                technique='static analysis: abstract interpretation of the writers to token trees, first/follow sets',
                assumptions=_ASM, minimum={'writers': 95, 'atoms': 900}),
    'C04': dict(rules=[TX.quoting, lambda c, r: LX.escaping(c, r, 'C04')],
                explain='Taint-style tracking of every text attribute into the token tree of its writer: inside quotes and through the escaping helper once; '
                        'the escaping helper and the un-escaping of the parser are compared as string transducers.',
                technique='static analysis: taint tracking of text attributes through the writers, transducer comparison of escape and un-escape',
                assumptions=_ASM, minimum={'writers': 95, 'text holes': 180}),
    'C05': dict(rules=[rt('C05'), WR.nulls, WR.accesses, CR.fresh],
                explain=_RT + ' In addition every value put into the text is checked, under its path condition, for being possibly None, a container or an object, '
                              'and every access on the way for a possibly missing base.',
                assumptions=_ASM, minimum={'reader/writer pairs': 95, 'values written': 500}),
    'C06': dict(rules=[rt('C06'), RD.tolerance],
                explain=_RT + ' The readers are also applied to the abstract text of their writers with unknown children added everywhere, with children reordered, '
                              'and with every child removed in turn; the result must be the item itself, with declared defaults for what was removed.',
                assumptions=_ASM + ['lists of one kind of element (points, layers, members, symbols of a library) hold no foreign elements; tokens the format demands are present (spec.MANDATORY)'],
                minimum={'reader/writer pairs': 95, 'altered expressions': 500}),
    'C07': dict(rules=[rt('C07'), RD.ownership, RD.extras, WR.available],
                explain=_RT + ' The conditions under which each reader raises are evaluated for non-lists and for lists with every leading token of the library, '
                              'every word the reader itself mentions and an unknown one, with arbitrary rest; and for its own expressions with additional or missing children.',
                assumptions=_ASM, minimum={'reader/writer pairs': 95, 'readers': 95, 'foreign tokens': 5000}),
    'C08': dict(rules=[rt('C08')], explain=_RT, assumptions=_ASM, minimum={'reader/writer pairs': 95}),
    'C09': dict(rules=[ST.independence],
                explain='Every function, method and constructor is abstractly interpreted with object identities kept (allocation sites, loops); '
                        'everything reachable from the resulting item is checked for objects that outlive the call or occur twice, and all writes for shared targets.',
                technique='static analysis: escape / sharing analysis over allocation sites, effect analysis',
                minimum={'functions': 200, 'constructors': 95}),
    'C10': dict(rules=[ST.purity],
                explain='Effect analysis of every loader and saver and of the helpers: writes to self or shared state, and values or conditions that come from '
                        'time, randomness, environment, object identity or set order.',
                technique='static analysis: effect analysis and taint of nondeterministic sources',
                minimum={'savers': 100, 'loaders': 100}),
    'C11': dict(rules=[FI.loading, FI.saving],
                explain='Abstract interpretation of every from_file and to_file: what is opened with which path and mode, in which order relative to producing the text, '
                        'what is written, and what is returned with which recorded path, under every combination of given/recorded/missing path.',
                technique='static analysis: abstract interpretation of file operations with ordered effect events',
                minimum={'load operations': 7, 'save operations': 7}),
    'C12': dict(rules=[ID.identifiers],
                explain='The getter and setter of every libId property are abstractly interpreted; the getter is evaluated for every combination of set and unset parts, '
                        'and composed with the setter on every path; regular expressions are decomposed into groups and compared as regular languages.',
                technique='static analysis: abstract interpretation of the property accessors, symbolic composition, regular-language inclusion',
                minimum={'identifier properties': 3}),
    'C13': dict(rules=[LX.tokens, LX.parser_loop, lambda c, r: LX.escaping(c, r, 'C13')],
                explain='The token expression is parsed (not run) and its alternatives are compared as regular languages with the lexical grammar '
                        'of the format; the body of the parser loop is abstractly interpreted once per kind of token over an arbitrary nesting state.',
                technique='static analysis: regular-language inclusion on the token expression, transfer functions of the parser loop',
                minimum={'token kinds': 0}),
    'C14': dict(rules=[LY.layout],
                explain='The token tree of every writer (white space removed) is searched for any dependence of tokens, values, nested items or errors on a layout '
                        'parameter; the end of the text is determined on every path with newline=False.',
                technique='static analysis: dependence of the abstract token tree on layout parameters, last-character sets',
                minimum={'writers with layout options': 95}),
    'C15': dict(rules=[CR.creation],
                explain='Every create function is abstractly interpreted with symbolic arguments; the created item is inspected attribute by attribute against declared types, '
                        'vocabulary, library constants and the place of each argument; its writer is interpreted on it, and the reader on the resulting expression.',
                technique='static analysis: abstract interpretation of create functions, writers and readers on the abstract item',
                minimum={'create functions': 7, 'texts loaded back': 8}),
    'C16': dict(rules=[FI.encodings],
                explain='Data flow of the encoding argument of every load and save operation into every open call reached from it.',
                technique='static analysis: data flow of the encoding argument to the open calls',
                minimum={'file operations': 14}),
    'C17': dict(rules=[rt('C17')], explain=_RT, assumptions=_ASM, minimum={'reader/writer pairs': 95}),
    'C18': dict(rules=[rt('C18')], explain=_RT, assumptions=_ASM, minimum={'reader/writer pairs': 95}),
    'C19': dict(rules=[rt('C19'), RD.dispatch, RD.whole],
                explain=_RT + ' Every call of a reader by another one is compared, under its path condition, with the leading tokens the called reader accepts and its class writes.',
                assumptions=_ASM, minimum={'reader/writer pairs': 95, 'dispatched tokens': 150, 'children loaded whole': 130}),
    'C21': dict(rules=[LX.number_text],
                explain='The textual forms numbers take are compared, as regular languages, with the number alternative of the token expression, '
                        'and the value computed for a number token is extracted by abstract interpretation of the parser loop.',
                technique='static analysis: regular-language inclusion on the token expression, transfer function of the number token',
                minimum={}),
    'C22': dict(rules=[TM.expression, TM.work],
                explain='The token expression is parsed into an automaton with path counts and searched for loops that can consume the same text in several ways, '
                        'for scans repeated from later starting points and for white space scanned from every position; the parser and all loaders are walked with '
                        'the loop depth at which the extent of every value is fixed, and operations linear in a value are reported inside deeper loops.',
                technique='static analysis: ambiguity analysis of the token automaton, loop-nesting cost analysis of parser and loaders',
                assumptions=['the regular expression engine is a backtracking matcher; appending to and popping from the end of a list, indexing and dictionary access take constant time'],
                minimum={'functions': 90, 'operations': 300}),
}

NOT_APPLICABLE = {
    'C20': 'needs the KiCad application as the oracle; no static argument over this source can decide acceptance by another program',
}
for _p in ():
    if _p not in PROPERTIES:
        NOT_APPLICABLE[_p] = 'check not built yet'
