T = 'contract-based deductive verification of the real functions (pyvc: verification conditions from the source in /repo on every run, discharged by z3)'
TX = T + '; bounded checking, labelled so, where stated'
def P(note): return ('proof', T, note)
def X(level, note): return (level, TX, note)
TRUST = ' Trusted: z3, pyvc\'s reading of Python (pyvc/*.py), what it assumes of built-in functions; the evidence lists every assumption. A bounded stand-in on the real code runs as well and is not counted as proved.'
LEVELS = {
'C01': P('Proved for every document and every cutting: each turn of the loop of parser() is a step of the specification machine, a step possible on a text is the same step on every longer text, so feeding a and then b is feeding ab.' + TRUST),
'C02': P('Proved: what the parser reports in each state is what the specification machine reports, and the start and end events of that machine nest, with the right ancestors. The machine is the definition of the grammar; the bounded stand-in compares with an independent recognizer.' + TRUST),
'C03': P('Proved: handle_cdata delivers the decoding of what it consumes, or raises. Known finding K1: raw illegal characters are dropped.' + TRUST),
'C04': P('Proved: termination of every loop by a variant, for every text and fragmentation.' + TRUST),
'C05': P('Proved for the tree builder\'s handler (every event history), parse and reset; that the parser sends the events of the document is C02.' + TRUST),
'C06': P('Proved: xml_encode gives the serialization of the tree and changes nothing; what the specification machine of the parser does to the serialization of any tree of legal names and characters is to report the events of the tree (lemma.roundtrip, by induction over strings, attributes, children and height); with the contracts of the parser and of the tree builder this is the round trip.' + TRUST),
'C07': P('Proved for every tree.' + TRUST),
'C08': P('Proved for every element, node and index; a history of edits follows by induction.' + TRUST),
'C09': P('Proved for every tree and sequence of nodes.' + TRUST),
'C10': P('Proved for every tree and pattern; patterns that end in ** are not claimed.' + TRUST),
'C11': P('Proved for one arbitrary pattern of any number, for every history of events.' + TRUST),
'C12': P('Proved for the callbacks, builder and parse functions; that expat reports documents correctly is assumed.' + TRUST),
'C13': P('Proved for every call of the writer and every tree; namespacer likewise.' + TRUST),
'C14': P('Proved for every element of every tree (by a witness).' + TRUST),
'C15': P('Proved for every tree, context node, axis and kind of node test.' + TRUST),
'C16': X('proof', 'Proved for the evaluation of every kind of expression, given what its parts yield, and, by induction over the texts of a specification grammar, that the LALR tables and the lexer that ply makes of the current source, with the functions of the productions as they are, read each text as the expression it says. ply itself, as the automaton of its tables, is trusted.' + TRUST),
'C17': P('Proved: frame conditions of every compute method and results as functions of tree, expression and context; sub-expressions by induction.' + TRUST),
'C18': P('Proved for every function and every shape of argument, with IEEE doubles; conversions between numbers and strings as Python defines them are assumed.' + TRUST),
'C19': X('proof', 'Proved: the adapters do on the tree what the interface of html5lib prescribes, for every tree. html5lib itself, and so that the whole gives the reference tree, is checked by bounded exploration against its own tree builder.' + TRUST),
}
