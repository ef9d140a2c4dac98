#!/usr/bin/env python3
'''Writes /verif/properties.jsonl (kept as a script because JSON lines are hard to edit by hand).'''
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
U = 'pylib/uxml/'
prop('C01', 'Fragmentation of the input never changes what the MicroXML parser reports',
 'Feeding a document to the incremental MicroXML parser in any sequence of fragments (including empty ones and single characters) delivers exactly the same events, with the same contents and in the same order, as feeding it in one piece. A document which is rejected in one piece is rejected however it is cut up, after the same events.',
 ['inputs', 'schedules'], 'every document text, well-formed or not, and every way of cutting it into fragments',
 'The tests feed a handful of documents cut at one or two places; a cut can fall inside any token (name, reference, attribute, white space) and only a statement over all cuts excludes a wrong resume position.',
 [U+'parser.py'], [('parser coroutine: window, resume positions, state machine', U+'parser.py:parser'), ('handle_cdata reports "more input needed"', U+'parser.py:handle_cdata'), ('parse / parsefrags', U+'parser.py')],
 ['events sent to the handler given to parser()', 'events yielded by parse() and parsefrags()', 'exception raised'],
 [('window, pos', 'text received so far, and how much of it has been turned into events', U+'parser.py:parser')])
prop('C02', 'Parser events faithfully report the tags of the document',
 'For every well-formed MicroXML document written with explicit start and end tags and without comments the parser reports one start event for each start tag, with its name, its attributes and the names of its open ancestors outermost first, one characters event for each non-empty run of text, and one matching end event for each end tag with the names of the ancestors that remain open, all in document order. Documents with mismatched, nameless or unterminated tags, unquoted attribute values or content after the document element are rejected with an exception. An event that has been delivered is never changed afterwards.',
 ['inputs', 'histories'], 'every document text; every point in time after an event was delivered',
 'Tests compare the events of a few small documents; nesting depth, attribute lists, white space placement and names are unbounded, and aliasing of delivered event data only shows when a consumer keeps the events.',
 [U+'parser.py'], [('tag and attribute states', U+'parser.py:parser'), ('element_stack / attribs copies in events', U+'parser.py:parser'), ('NAMESTARTCHAR, NAMECHAR', U+'parser.py')],
 ['events yielded by parse()', 'exception raised'], [('element_stack', 'names of open elements', U+'parser.py:parser'), ('attribs', 'attributes read so far in the current tag', U+'parser.py:parser')])
prop('C03', 'Character data and attribute values are decoded exactly or rejected',
 'The text of characters events and the attribute values delivered by the MicroXML parser are exactly what the document says, with each of the references &lt; &gt; &amp; &quot; &apos; and each hexadecimal reference to a legal character replaced by that one character, and nothing else changed, added or lost. A reference to an unknown name, to an illegal or non-existent character, or with malformed syntax makes the parser raise an exception and is never delivered as data.',
 ['inputs'], 'every text and attribute value of any length, with any mix of legal characters and references, in either kind of quotes',
 'Tests have a couple of references; the claim is about every code point, every position of a reference and every combination with neighbouring characters.',
 [U+'parser.py'], [('handle_cdata', U+'parser.py:handle_cdata'), ('character class tables DATACHAR, ATTRIBVALCHAR_*, CHARACTER, CHARNAMES', U+'parser.py')],
 ['characters and start_element events of parse()', 'exception raised'])
prop('C04', 'The MicroXML parser always comes to an end',
 'For every text, including empty, truncated and malformed ones, and every way of feeding it in fragments, each call into the MicroXML parser returns or raises after a number of internal steps bounded by the amount of text it holds; it never loops without consuming input.',
 ['inputs', 'schedules'], 'every document text or prefix of one, and every fragmentation',
 'A test shows termination for its one input; an endless loop hides in the combination of parser state and where the available input ends.',
 [U+'parser.py'], [('need_input flag and the inner while loop', U+'parser.py:parser'), ('scanning loops', U+'parser.py:handle_cdata')], ['return of send() / parse() / parsefrags() / tree.parse()'])
prop('C05', 'Parsing builds a tree that mirrors the document, whatever was parsed before',
 'The tree obtained by parsing a MicroXML document has one element per element of the document, with the same name, attributes, order and nesting, and one text node per run of character data, and every node below the root has its containing element as parent while the root has none. Reusing one tree builder for any sequence of documents, including rejected ones, gives for each document the same tree as a fresh builder, and leaves trees built earlier unchanged.',
 ['inputs', 'histories'], 'every well-formed document; every sequence of parses made with one builder',
 'Tests build a few small trees with fresh or once-used builders; shape, depth and the history of a builder are unbounded.',
 [U+'tree.py', U+'parser.py'], [('treebuilder._handler', U+'tree.py:treebuilder'), ('treebuilder.parse resets the builder', U+'tree.py:treebuilder')], ['tree.parse()', 'treebuilder().parse()'],
 [('_root, _parent', 'tree being built and insertion point', U+'tree.py:treebuilder')])
prop('C06', 'Serializing a tree and parsing the result gives the tree back',
 'For every element tree whose names are MicroXML names and whose text and attribute values consist of MicroXML characters, encoding it as MicroXML text and parsing that text yields an equal tree: same names, attributes, order, nesting and character data (adjacent text counted as one run, empty text as none). This includes markup characters, quotes, tabs and newlines in text and attribute values, and encoding never changes the tree.',
 ['inputs'], 'every element tree over legal names and characters',
 'Tests round-trip a few documents; the claim covers every combination of special characters, quoting style and structure.',
 [U+'tree.py', U+'parser.py'], [('element.xml_encode', U+'tree.py:element'), ('quoteattr / escape', U+'tree.py'), ('parser', U+'parser.py')], ['xml_encode()', 'xml_write()', 'tree.parse()'])
prop('C07', 'The value of an element is the concatenation of all text below it',
 'The string value of any element, whether asked of the element or computed by the string value function, is the concatenation in document order of all text nodes below it at any depth, and of nothing else. The value of a text node is its own text.',
 ['inputs'], 'every tree, of any shape and depth',
 'Tests look at a few values; the equality must hold for every interleaving of text and elements and both computations.',
 [U+'tree.py'], [('element.xml_value', U+'tree.py:element'), ('strval', U+'tree.py:strval'), ('text.xml_value', U+'tree.py:text')], ['xml_value', 'strval()'])
prop('C08', 'Editing a tree keeps parent and child links consistent',
 'After any sequence of appending, inserting and removing nodes, each node among the children of an element has that element as its parent, a removed node has no parent, and the children are exactly those given, in the positions given: append adds at the end, insert puts the node before the one at the requested index, remove takes out precisely the node it was given and leaves everything else alone. Removing an element that is not a child raises an exception and changes nothing.',
 ['histories', 'inputs'], 'every sequence of edit operations with elements, text nodes and strings that have no parent yet',
 'Tests make a few edits; position arithmetic, equal siblings and longer histories are unbounded.',
 [U+'tree.py'], [('xml_append, xml_insert, xml_remove', U+'tree.py:element'), ('node.xml_parent', U+'tree.py:node')], ['xml_children', 'xml_parent'],
 [('xml_children', 'ordered children', U+'tree.py:element'), ('_xml_parent', 'weak reference to the parent', U+'tree.py:node')])
prop('C09', 'Traversal and selection helpers return exactly the right nodes in document order',
 'For every tree, listing the descendants of an element yields each element below it exactly once in document order; selecting among the children of an element or the members of any sequence of nodes, by being an element, by name, by name pattern, by value or by attribute (with or without a value), yields exactly the elements that qualify, each once and in order; and the following siblings of a node are exactly the nodes after it in its parent.',
 ['inputs'], 'every tree, every source sequence, and every name, pattern, value and attribute to look for',
 'Tests run each helper on one or two documents.',
 [U+'treeutil.py'], [('descendants, select_elements, select_name, select_name_pattern, select_value, select_attribute, following_siblings', U+'treeutil.py')], ['values yielded by the helpers'])
prop('C10', 'Pattern selection finds exactly the elements whose path matches',
 'Selecting from a tree with a pattern, a tuple of steps each being an element name, "*" for any element, a tuple of alternative names, or "**" for any number (also zero) of elements before the next step, yields in document order exactly those elements whose path of descent from the starting element matches the whole pattern and that do not lie inside another selected element.',
 ['inputs'], 'every tree and every pattern that does not end in "**"',
 'Tests use a few patterns; the matching automaton has to be right for every combination of steps and every path.',
 [U+'treeutil.py'], [('_prep_pattern builds a chain of state functions', U+'treeutil.py:_prep_pattern'), ('name_test, elem_test, any_until, any_', U+'treeutil.py'), ('select_pattern', U+'treeutil.py:select_pattern')], ['elements yielded by select_pattern()'])
prop('C11', 'Streaming extraction delivers exactly the matching subtrees',
 'When a document is streamed through a sender with one or more patterns, each sink receives exactly the complete subtrees whose path from the document element matches its pattern and that are not inside another subtree matching the same pattern, in document order, and each equals the corresponding part of the tree that parsing the whole document would build. What one sink receives does not depend on the other patterns.',
 ['inputs', 'histories'], 'every document and every list of patterns not ending in "**", for the MicroXML and the XML 1.0 sender',
 'Tests stream a few documents with a single pattern each.',
 [U+'treeiter.py', U+'xmliter.py'], [('sender._prep_patterns and state functions', U+'treeiter.py:sender'), ('sender._handler', U+'treeiter.py:sender'), ('sender._match_state', U+'treeiter.py:sender')], ['elements sent to sinks'],
 [('_evstacks, _building_depths, _parents', 'per pattern: open elements, depth inside the current match, insertion point', U+'treeiter.py:sender')])
prop('C12', 'XML 1.0 input is reduced to MicroXML faithfully',
 'Parsing well-formed XML 1.0 yields a tree with the same elements in the same order and nesting, each named by its local name, with the same attributes under their local names and with namespace declarations left out, and with the same character data (including CDATA sections and references) in the same places; comments and processing instructions disappear. The event interface reports the same structure with balanced start and end events and the correct open ancestors, and parsing several documents with one builder gives the same as fresh builders.',
 ['inputs', 'histories'], 'every well-formed XML 1.0 document (with no two attributes of equal local names in one element, and no spaces in namespace names); every sequence of documents given to one builder',
 'Tests parse a few XML documents; namespaces, prefixes, entities and repeated use are unbounded.',
 [U+'xml.py', U+'xmliter.py'], [('expat_callbacks', U+'xml.py:expat_callbacks'), ('treebuilder.parse', U+'xml.py:treebuilder'), ('parse', U+'xml.py:parse')], ['xml.treebuilder().parse()', 'events sent to the handler given to xml.parse()'])
prop('C13', 'The writer emits the same document as tree serialization',
 'Writing any element tree through the raw writer without indentation produces exactly the text that encoding the tree produces, and driving the writer with start, text and end calls produces exactly the corresponding tags, escaped attribute values and escaped text. With indentation only white space between tags is added. The namespacing writer declares every requested prefix exactly once, on the first element, and otherwise writes the same document with the requested prefixes on element and attribute names.',
 ['inputs', 'histories'], 'every element tree and every balanced sequence of writer calls; every prefix table and name mapping',
 'Tests write a few small documents.',
 [U+'writer.py', U+'tree.py'], [('raw.start_element, end_element, text, write', U+'writer.py:raw'), ('namespacer', U+'writer.py:namespacer'), ('write', U+'writer.py:write')], ['text written to the file object'])
prop('C14', 'Pretty-printing adds only white space',
 'Pretty-printing an element in place keeps every element with its name and attributes, and every text node that contains anything but white space, in the same order and under the same parents; all it adds, or puts in the place of text consisting only of white space, are text nodes made of a newline followed by the requested indentation repeated according to depth. It returns the element it was given, and all children keep correct parent links.',
 ['inputs'], 'every tree, starting depth and indentation string of white space',
 'Tests pretty-print a few trees with the default indentation.',
 [U+'treeutil.py'], [('make_pretty', U+'treeutil.py:make_pretty')], ['the tree after make_pretty()'])
prop('C15', 'Each XPath step selects exactly the nodes on its axis that pass its node test',
 'For every tree and every context node in it, a step along the axis self, child, parent, ancestor, ancestor-or-self, descendant, descendant-or-self, following-sibling, preceding-sibling, following, preceding or attribute yields exactly the nodes that XPath puts on that axis and that pass the node test, each once; forward axes in document order and reverse axes in reverse document order. A name test accepts elements (attributes on the attribute axis) of that name, * any of them, text() text nodes, and node() every node; the root node above the document element takes part in all axes.',
 ['inputs'], 'every tree, context node (element, text or root), axis and node test',
 'Tests try some axes on three small documents without equal text siblings; several axes are not tested at all.',
 [U+'uxpath/xast.py', U+'treeutil.py'], [('step.compute', U+'uxpath/xast.py:step'), ('name_test, node_type_test', U+'uxpath/xast.py'), ('root_node', U+'uxpath/xast.py:root_node')], ['items yielded by evaluating a step'])
prop('C16', 'XPath expressions compose as the language says',
 'For every expression built from supported constructs, a/b yields the results of b for each result of a in turn; a//b the nodes that b selects from each result of a and its descendants; an absolute path starts at the root node (and /node() and //node() yield the root node itself first); a|b yields each node of either operand once, in document order; a predicate keeps the items whose value is true or, if a number, whose 1-based position in the preceding sequence it equals; sequences concatenate; and "and" and "or" yield the boolean combination of effective boolean values, with path operators binding tightest, then "|", comparisons, "and" and "or". The comparisons = != < > <= >= are true exactly if they hold for some pair of items from the two sides, compared as booleans if either is one, else as numbers if either is one, else as string values.',
 ['inputs', 'programs'], 'every expression over the supported operators, every tree and every context',
 'Tests evaluate a few dozen fixed expressions; interaction of operators, predicates and empty or multiple operands is unbounded.',
 [U+'uxpath/xast.py', U+'uxpath/parserules.py', U+'uxpath/lexrules.py', U+'uxpath/__init__.py'], [('binary_expression.compute', U+'uxpath/xast.py:binary_expression'), ('predicated_expression.compute', U+'uxpath/xast.py:predicated_expression'), ('absolute_path.compute', U+'uxpath/xast.py:absolute_path'), ('Sequence.compute', U+'uxpath/xast.py:Sequence'), ('grammar', U+'uxpath/parserules.py')], ['items yielded by evaluating an expression'])
prop('C17', 'XPath evaluation changes nothing and always gives the same answer',
 'Evaluating any XPath expression leaves the tree and the parsed expression as they were. Evaluating it again, with the same parsed expression or a freshly parsed one, gives the same result, and the result always reflects the tree as it is at that moment, regardless of which expressions were evaluated, and on which trees, before the tree was last edited.',
 ['histories', 'inputs'], 'every sequence of evaluations and tree edits, with parsed expressions shared between trees and contexts',
 'Tests evaluate each expression once on a tree that never changes.',
 [U+'uxpath/xast.py', U+'uxpath/__init__.py', U+'tree.py'], [('compute methods', U+'uxpath/xast.py'), ('root_node.get', U+'uxpath/xast.py:root_node'), ('context.copy', U+'uxpath/__init__.py:context')], ['items yielded', 'tree and expression after evaluation'])
prop('C18', 'XPath functions and conversions give the documented values',
 'string(), number(), boolean(), not(), true(), false(), name(), count(), concat(), starts-with(), contains(), substring(), substring-before(), substring-after(), string-length() and for-each() yield the values that their documentation and XPath define, for every argument: literals, numbers including NaN, infinities and negative zero, booleans, nodes, and empty or longer sequences, of which conversions take the first item. In particular text that is not a number converts to NaN, booleans to "true" or "false", and numbers to decimal notation without exponent.',
 ['inputs'], 'every argument value of each listed function',
 'Tests call a few functions with one or two arguments.',
 [U+'uxpath/functions.py', U+'uxpath/xast.py'], [('BUILTIN_FUNCTIONS', U+'uxpath/functions.py'), ('to_string, to_number, to_boolean', U+'uxpath/xast.py')], ['items yielded by function calls'])
prop('C19', 'HTML input is parsed to the tree the HTML parsing algorithm prescribes',
 'For every HTML input, well-formed or tag soup, the tree built from it has the same elements in the same nesting and order, with the same local names, attributes and text, as the standard tree builders of the underlying HTML parser produce from that input (where they agree with each other), leaving out comments, the document type and xmlns attributes written on HTML elements; and every node in it has the correct parent.',
 ['inputs'], 'every HTML text',
 'Tests parse a few HTML snippets; the tree builder interface is exercised fully only by misnested formatting, tables and foreign content.',
 [U+'html5.py', U+'tree.py'], [('node / element adapter methods called by html5lib', U+'html5.py'), ('treebuilder', U+'html5.py:treebuilder'), ('parse', U+'html5.py:parse')], ['html5.parse()'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
