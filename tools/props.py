# One table: the properties, and for each the check that decides it (or why none does).
WIP = 'check under construction'
PROPS = []
def P(**k): PROPS.append(k)

P(id='C01', title='The tokenizer recognises exactly the JSON lexical grammar',
  statement='For every byte string and every starting position, one tokenizer step returns the next token of the RFC 8259 lexical grammar - its class (including plain/escaped string and integer/non-integer number), exactly its bytes and its length - and leaves the position just past it, skipping only JSON white space before it. Input that is not a token yields an error, the end of input yields the end token, and no input makes it panic or read outside the data.',
  over=['inputs'], forall='every document byte string, every position to start from',
  why='The tests tokenise a handful of documents; the lexical automaton has tens of states, each with a class of 256 bytes, an end-of-input case and a rewind case.',
  files=['jsontokenizer.go'], mech=[('byte-driven state machine', 'jsontokenizer.go Step'), ('position bookkeeping', 'jsontokenizer.go Reset/Seek/Position')],
  observe=['token type, bytes, length, error, position after Step'],
  technique='abstract interpretation of the tokenizer in product with an RFC 8259 reference automaton (byte-class and difference-bound domains, widening)',
  note='Decides the property for every input up to the abstraction: all control paths of the current source are analysed in product with the reference automaton, with loops widened to a fixpoint. Assumes positions do not overflow int.')
P(id='C02', title='Rule verdicts follow three-valued Boolean logic in any arrival order',
  statement='When leaf conditions of a rule are decided one at a time in any order, every and/or/not/merge node of the evaluation tree becomes decided exactly when, and to the value, three-valued logic dictates (and/or as soon as one side settles them; a merge of independent rules only when both sides are settled), the news propagates to the root unless a loop is holding it back, and undecided conditions below a decided node are closed so they are never evaluated again. Finishing a document, or one element of a loop, treats conditions never reached as false, bottom up, and ends; resetting a subtree reopens exactly that subtree.',
  over=['inputs', 'histories'], forall='every tree shape, every node kind, every order in which conditions are decided',
  why='Tests evaluate a few trees in document order; the number of shapes, states and arrival orders is unbounded.',
  files=['bintree.go'], mech=[('node update table', 'bintree.go checkNode'), ('upward propagation and stall', 'bintree.go MarkNode'), ('closing of children', 'bintree.go resolveRecursive'), ('final closing', 'bintree.go Resolve'), ('reset', 'bintree.go ResetNode/Reset')],
  observe=['state of every node after each decision'], 
  technique='abstract interpretation of the tree operations on local configurations with symbolic node indices, compared with the three-valued truth tables; loop in Resolve widened (plus exact unrolling on sizes 1-3 for refutation)',
  note='Every node kind, side, sibling verdict and position (root, inner, held back by a loop) on a tree of unknown size and shape around the local configuration; parent/child links are assumed as compilation establishes them.')
P(id='C03', title='any / every / any-and-every loops quantify over all array elements',
  statement='A loop condition over an array is true exactly when: for "any" some element satisfies the body; for "every" no element fails it; for "any and every" the array has an element and none fails it. Each element is judged from a fresh body state with outer decisions held back, a loop stops early only when its verdict is already certain and then leaves the tokenizer just after the array, and afterwards the enclosing evaluation context is restored and the verdict recorded exactly once.',
  over=['inputs', 'programs'], forall='every array (any length, any element kinds), every loop mode, every body verdict sequence, nested loops',
  why='Tests use a few short arrays; verdict sequences, early exits and nesting depths are unbounded.',
  files=['fastMatcher.go', 'bintree.go'], mech=[('element loop', 'fastMatcher.go matchLoop'), ('stall index stack', 'bintree.go SetStallIndex'), ('element reset', 'bintree.go ResetNode')],
  observe=['calls made on the evaluation tree around each element and at loop exit'], 
  technique='typestate analysis: abstract interpretation of the loop function in product with automata of the array reader, the body subtree and the stall index (loop widened); nesting counter proved by a linear invariant; loop modes read back from interpreted compilation',
  note='Arrays of every length and body verdicts of every kind (widened loop); leaving a value: any depth by invariant, exactly for token sequences up to seven and nestings up to 270.')
P(id='C04', title='Every comparison operator decides by its own predicate',
  statement='For any two operand values, equals / less / less-or-equal / greater / greater-or-equal / exists / matches conditions record exactly the verdict of their own relation applied to (left, right) in that order; a condition whose referenced field is missing is false; a condition already settled is not evaluated again; and a comparison that had to fall back to collation is reported in the status.',
  over=['inputs', 'programs'], forall='every operator, every pair of operand values, every operand form',
  why='Tests pair each operator with a few values; operand forms (literal, field slot, function, active value, absent) times outcomes is a product they sample thinly.',
  files=['fastMatcher.go'], mech=[('operator dispatch', 'fastMatcher.go matchOp')], observe=['verdict recorded for the condition', 'collation status'], 
  technique='abstract interpretation of the condition function for every operator and operand form on symbolic values, comparison results being symbols of the ordered pair asked for; operand resolution and pattern matching likewise; operators read back from interpreted compilation',
  note='All operators, forms (absent, stored field, other) and outcomes. Compare itself is C16, arithmetic C09, the stored text C23.')
P(id='C05', title='Reset makes a used matcher indistinguishable from a new one',
  statement='After Reset, whatever documents a matcher has seen before, including ones that failed half way, matching the next document gives the same verdict, the same status flags and the same per-expression results as a newly created matcher would.',
  over=['histories'], forall='every history of documents and resets',
  why='Tests reset between a few well-formed documents; the leak shows only for particular sequences.',
  files=['fastMatcher.go', 'bintree.go'], mech=[('matcher reset', 'fastMatcher.go Reset'), ('tree state reset', 'bintree.go Reset')], observe=['Match, MatchWithStatus, ExpressionMatched after Reset'], 
  technique='abstract interpretation of constructor, Reset and document start with everything the matcher owns overwritten by unknown values; every owned location compared with a new matcher',
  note='Every history at once (owned memory is arbitrary before Reset); matcher sizes up to three slots and five nodes, same loops for any size. Shared state is C06.')
P(id='C06', title='Matching writes no shared state: matchers may run concurrently',
  statement='Matching a document, resetting a matcher or querying its result writes only memory owned by that matcher or created by the call: never a package-level variable, and never the compiled definition shared between matchers. So any number of matchers built from one definition can run at the same time without affecting each other.',
  over=['schedules'], forall='every interleaving of matchers on different goroutines',
  why='No test matches concurrently; a race shows only under particular interleavings.',
  files=['fastMatcher.go', 'fastval.go', 'fastval_math.go', 'fastval_date.go', 'fastlitparse.go', 'fastlitescape.go', 'bintree.go'], mech=[('definition is read only after transform', 'fastMatcherDef.go'), ('per-matcher state', 'fastMatcher.go FastMatcher')], observe=['writes reachable from Match/Reset/ExpressionMatched'], 
  technique='points-to and write-effect analysis (inclusion based, field sensitive, one call site of context, call graph on the fly) of everything reachable from the constructor and exported methods of the matcher',
  note='All call paths and heap shapes the abstraction covers; standard library functions are modelled by which arguments they write.')
P(id='C07', title='Documents and expressions handed in are never modified',
  statement='No matching, key-removal or compilation entry point writes into the byte slice of the document it was given, and compiling expressions does not modify the expression trees the caller passed in.',
  over=['inputs'], forall='every document, every expression',
  why='Tests do not compare their inputs afterwards; an in-place write (unescaping, appending into a sub-slice) shows only for particular inputs.',
  files=['fastMatcher.go', 'fastlitescape.go', 'fastlitparse.go', 'jsonComposer.go', 'jsontokenizer.go', 'fastval.go', 'transform.go'], mech=[('unescape into a separate buffer', 'fastlitescape.go'), ('copy on compose', 'jsonComposer.go')], observe=['writes reachable from the entry points'], 
  technique='points-to and write-effect analysis (inclusion based, field sensitive, one call site of context, call graph on the fly) of everything reachable from matching, key removal and compilation entry points',
  note='All call paths and heap shapes the abstraction covers; standard library functions are modelled by which arguments they write.')
P(id='C08', title='Arithmetic in expressions never crashes the matcher',
  statement='Evaluating an arithmetic or math function on any combination of operand kinds and values - including zero divisors, minimum integers, empty or non-numeric values - returns a value or "invalid", and never panics.',
  over=['inputs'], forall='every function, every pair of operand kinds and values',
  why='Tests divide by non-zero constants; a zero arrives from a document.',
  files=['fastval_math.go', 'fastval.go', 'fastval_date.go'], mech=[('kind dispatch', 'fastval_math.go')], observe=['possible run-time panics in the functions'], 
  technique='abstract interpretation of every function over dynamic values on symbolic operands of every kind and every kind pair (exact interval and linear facts); every division, conversion, assertion, index and panic instruction reached is an obligation',
  note='All values of all operand kinds; literal text enters through a model of strconv (value, out of range, not a numeral).')
P(id='C09', title='Arithmetic computes the named operation on the operands in order',
  statement='Each arithmetic function applies its own operation to its operands in the written order in the common numeric kind of the two (unsigned, signed or float), with operands converted value-preservingly, and gives "invalid" when an operand is not a number or cannot be represented in that kind; each one-argument math function returns its own function of the argument as a float.',
  over=['inputs'], forall='every function, every pair of numeric kinds',
  why='Tests check a few values per function; 24 functions times kind pairs are mostly unsampled.',
  files=['fastval_math.go'], mech=[('kind dispatch', 'fastval_math.go')], observe=['result term per kind pair'], 
  technique='abstract interpretation of every arithmetic function on symbolic operands of every kind pair; the result term is compared with the named operation (integers exactly, floats up to affine rearrangement)',
  note='Decides operation, operand order, kind selection and value-preserving conversion for all values; machine overflow of an in-kind integer operation is taken as that operation.')
P(id='C10', title='A function keeps its identity from source text to evaluation',
  statement='Every function name accepted by the expression language is turned into the same function at evaluation time, receives its arguments in the written order, and has an evaluator; no accepted function reaches evaluation without one.',
  over=['programs'], forall='every function name of every front end',
  why='Tests use a handful of the function names.',
  files=['filterExprParser.go', 'simpleParser.go', 'fastMatcher.go', 'constants.go', 'fastval_math.go'], mech=[('name tables', 'constants.go, filterExprParser.go, simpleParser.go'), ('dispatch', 'fastMatcher.go resolveFunc')], observe=['name reaching the dispatcher', 'function called for it'], 
  technique='abstract interpretation of the rule parsers (filter language: grammar read from the struct tags into a parsing model, output functions interpreted on its trees; simple language: tokenizer and parser interpreted on token texts; JSON form: parser interpreted on value trees; compilation and the dispatcher of the matcher interpreted for every compiled name) with symbolic operand texts; expression compared with an independent reading',
  note='Every function name of the three front ends in every operand position, nesting up to two; evaluation side for every compiled name on number and date operands. Arithmetic itself is C09.')
P(id='C11', title='Comparison operators keep their meaning through every front end',
  statement='In the JSON form, in the simple language and in the filter language, each comparison operator is compiled to the condition of that same operator with its left and right operands in the written order (negated forms as the negation of the positive one), so equivalent rules written in different front ends behave alike.',
  over=['programs'], forall='every operator of every front end',
  why='Tests exercise some operators in each front end, none exhaustively with distinguishable operands.',
  files=['expression_json.go', 'simpleParser.go', 'filterExprParser.go', 'transform.go'], mech=[('operator tables', 'expression_json.go, simpleParser.go, filterExprParser.go'), ('compilation', 'transform.go transformOne')], observe=['expression kind and operand order produced per operator'], 
  technique='abstract interpretation of the rule parsers (filter language: grammar read from the struct tags into a parsing model, output functions interpreted on its trees; simple language: tokenizer and parser interpreted on token texts; JSON form: parser interpreted on value trees; compilation interpreted and the definition read back) with symbolic operand texts; expression compared with an independent reading',
  note='Every operator, operand kind and position of the three front ends, and its compilation. Simple language: for forms it does not take (field on the right, literal function arguments) only that they are not misread.')
P(id='C12', title='Every expression kind is handled by every pass over expressions',
  statement='Each pass over expression trees - collecting the fields a rule reads, statistics, compaction, compilation - handles every kind of expression the front ends can build, in every position, without panicking: the fields collected are exactly those not bound by a loop of the rule, each once; the statistics count the loops, loop depth, conjunctions, disjunctions, field references and literal values there are; and the compiled definition means the rule.',
  over=['programs'], forall='every expression kind at every position',
  why='Tests build some expression kinds in some positions only.',
  files=['expression.go', 'expression_utils.go', 'expression_compact.go', 'expressionstats.go', 'transform.go'], mech=[('type switches', 'one per pass')], observe=['per pass and kind: handled, and children visited'], 
  technique='interpretation of field collection, statistics, compaction and compilation on rules with every expression kind below every kind (names and values symbolic), results read back and compared with a reference over the rule tree',
  note='Every kind in every operand, condition, negation, conjunction, disjunction and loop position, loops nested up to three deep; larger rules use the same per-kind code. The reference matcher (SlowMatcher) supports a subset by design and is not covered.')
P(id='C13', title='Constant folding preserves the truth of a rule',
  statement='Compacting a rule does not change which documents it matches, and leaves the rule it was given as it was: conjunctions and disjunctions with constants fold by the laws of Boolean logic, so that no constant is left inside one at the top of the rule, and everything else is kept.',
  over=['programs'], forall='every expression',
  why='Tests fold a few examples.',
  files=['expression_compact.go'], mech=[('folding table', 'expression_compact.go')], observe=['result of folding per kind and constant pattern'], 
  technique='interpretation of compaction on rules with constants in every position; the truth function of the result over its conditions and loops is compared with that of the rule',
  note='Rules of two levels with constants, conditions, negations and loops in every position, lists up to five; larger ones are folded by the same recursive code.')
P(id='C14', title='Removing keys from a document leaves the rest a valid equal document',
  statement='Removing a set of keys yields a well-formed document equal to the input without those members, at whatever level they occur: separators stay balanced whichever members go, nested values are skipped or copied whole, the reported length and removed list are exact, and an output buffer that is too small is reported as an error rather than overrun.',
  over=['inputs'], forall='every document, every key set, every buffer size',
  why='Tests remove a few keys from a few documents.',
  files=['jsonComposer.go'], mech=[('composer state machine', 'jsonComposer.go')], observe=['bytes written', 'error'], 
  technique='abstract interpretation of the removal function on documents of every small shape with symbolic key and value bytes (tokens from the document), output compared element by element with the reference result on every path',
  note='Documents of up to four members, three levels, every value class in every place, keys of up to three symbolic bytes and escaped keys, lists of up to four keys, every size of output buffer; arbitrary token sequences of up to four tokens and failing tokenizers for faults. Longer documents repeat the same loop.')
P(id='C15', title='JSON string escapes decode to the characters they denote',
  statement='Decoding any well-formed JSON string yields exactly the characters RFC 8259 says it denotes: each single-character escape its character, \\uXXXX its code point in UTF-8, surrogate pairs combined, all other bytes unchanged; and no malformed escape makes decoding panic or read outside the string.',
  over=['inputs'], forall='every string literal',
  why='Tests decode a few strings; code points and escape positions are unbounded.',
  files=['fastlitescape.go', 'fastlitparse.go'], mech=[('unescape loop', 'fastlitescape.go')], observe=['bytes produced per escape'], 
  technique='abstract interpretation of the unescaper on symbolic bytes in product with a reference RFC 8259 string decoder',
  note='Every byte is symbolic; strings of up to about twenty bytes covering each escape form, truncation, both digit cases, surrogate pairs and neighbours, with no, sufficient and empty output buffers. Longer strings repeat the same loop body.')
P(id='C16', title='Number, string and collated comparison is a consistent order',
  statement='Comparing any two values (at most one of them a rule literal) never fails and gives opposite signs with the same validity when the operands are exchanged. It agrees with numeric order whenever both are 64-bit integers of any kind or representation, with float order (tolerance 1e-7, not-a-number below numbers and not comparable) when a float is involved, with text order for strings (a number beside a string as its decimal text), with false < true, a number beside a boolean literal as whether it is not zero, with chronology for dates and texts that denote dates, puts null below every other comparable value, orders arrays and objects by length then bytes, and kinds with no conversion between them by kind, reporting that no proper comparison took place.',
  over=['inputs'], forall='every pair of value kinds and values',
  why='Twenty kinds give four hundred pairs, each with its own value classes; tests sample a few dozen.',
  files=['fastval.go'], mech=[('kind dispatch and two-pass conversion', 'fastval.go Compare')], observe=['sign and validity per kind pair'], 
  technique='relational abstract interpretation of Compare on symbolic values of every pair of kinds in both operand orders, against the order of the kind class',
  note='All kind pairs with and without a rule literal; arrays/objects up to two bytes each (same loop for any length); text order is that of the JSON-escaped text.')
P(id='C17', title='Date and boolean literals accepted early are accepted late',
  statement='For every text, a date literal that the parsers accept - exactly the RFC 3339 times, and the ISO years, months and days from 1900 to 2099 - is one that compilation and DATE() read, all as the same instant, the one the text names; DATE() of a text in a document is that instant too, also for YYYY-MM-DD HH:MM:SS, and otherwise no value. The texts taken as true or false are exactly the letter-case variants of "true" and "false". So no accepted date literal fails when it is compiled or matched.',
  over=['inputs'], forall='every literal text',
  why='Tests try a few literals; the accepted languages are infinite.',
  files=['fastval_date.go', 'filterExprParser.go', 'expression_json.go', 'fastval.go'], mech=[('regular expressions', 'fastval_date.go, fastval.go'), ('layout parsing', 'fastval_date.go'), ('check before acceptance', 'filterExprParser.go FEConstFuncOneArg, expression_json.go parseJsonTime')], observe=['verdict of the early check, and the instant read later, on the same text'], 
  technique='relational interpretation of all date readers on one symbolic text (regular-expression and layout verdicts as predicates); disagreeing paths are decided by automata products of the patterns, and confirmed by interpretation on a constant witness',
  note='Every text for agreement of the readers and for booleans (language inclusion); which dates are accepted and which instant they name is decided per path on a grid of about 30000 texts. ſ and K (which fold to s and k in Unicode) are left open.')
P(id='C18', title='Malformed rules are rejected with an error, never a crash',
  statement='Parsing a rule in the JSON form returns an error for every value that does not denote a rule - wrong arity, wrong types, unknown operators or functions, operands where conditions belong and the reverse, unbound variables, empty lists - and never panics; a rule is returned as it was written, and what is accepted compiles.',
  over=['inputs'], forall='every JSON value offered as a rule',
  why='Tests parse valid rules.',
  files=['expression_json.go'], mech=[('recursive descent', 'expression_json.go')], observe=['possible panics and dropped errors'], 
  technique='abstract interpretation of the rule parser and the transformer on trees of JSON values (payload symbolic), against an independent reading of the rule format',
  note='Every operator with 0 to 6 elements in every role, every kind of value in every element, every function with 0 to 4 arguments, and variables over up to three loops; deeper trees repeat the same recursive calls.')
P(id='C19', title='Malformed documents are rejected with an error, never a crash',
  statement='Matching any byte string against any compiled rule returns a verdict or an error and never panics; a tokenizer error met anywhere on the way is returned to the caller.',
  over=['inputs'], forall='every byte string as document',
  why='Tests match well-formed documents.',
  files=['fastMatcher.go', 'jsontokenizer.go'], mech=[('error propagation', 'fastMatcher.go')], observe=['panics and dropped errors on the match path'], 
  technique='abstract interpretation of the match path with a tokenizer that may return any token or fail at any call: error-propagation rule on every failing path, and panic/fault reachability (widened and exact)',
  note='Errors: every call that can fail, in every environment of C03/C23. Panics: loops widened for arbitrary token sequences, plus exact sequences of up to five tokens. Assumes C01/C15/C08/C16 for tokens, unescaping, arithmetic, comparison, and a well-formed definition (C20).')
P(id='C20', title='Compilation builds a well-formed tree that mirrors the rule',
  statement='Compiling a rule yields an evaluation tree in which every and/or/not/loop/merge node has exactly the children its kind needs, in the written order, linked both ways, with one leaf per condition and children numbered after their parent; and every expression of a rule set maps to the node holding its own verdict. Rule sets compiled one after another with the same Transformer give definitions that are each right and leave the earlier ones as they are.',
  over=['programs'], forall='every expression tree',
  why='Tests compile a few rules.',
  files=['transform.go', 'bintree.go'], mech=[('per-kind transforms', 'transform.go'), ('bucket allocation', 'transform.go newBucket')], observe=['nodes appended and links set per kind'], 
  technique='abstract interpretation of the transformer on rules of every kind in every position (values and some names symbolic), definition read back from the abstract heap and compared with the rule, with a def-before-use rule for stored fields',
  note='Rule shapes: every kind below every kind, chains up to six, three loop levels, rule sets up to six; names symbolic in all equality patterns for two-field conditions. Larger rules are built by the same per-kind functions.')
P(id='C21', title='Operator precedence and grouping of the rule languages',
  statement='In the filter language NOT binds tighter than AND and AND tighter than OR; in both text languages parentheses override, and every operand of a chain of the same operator takes part in the result.',
  over=['programs'], forall='every rule text',
  why='Tests parse a few dozen texts.',
  files=['filterExprParser.go', 'simpleParser.go'], mech=[('grammar', 'filterExprParser.go'), ('expression output', 'filterExprParser.go OutputExpression')], observe=['tree produced per production'], 
  technique='abstract interpretation of the rule parsers (filter language: grammar read from the struct tags into a parsing model, output functions interpreted on its trees; simple language: tokenizer and parser interpreted on token texts) with symbolic operand texts; expression compared with an independent reading',
  note='All groupings of up to four conditions in the filter language, chains and parentheses of the simple language, arithmetic chains up to four operands. Simple-language groupings the parser rejects are only required not to be misread.')
P(id='C22', title='Literals in documents decode to their own value',
  statement='Each literal token of a document becomes a value of the matching kind carrying exactly its text or value: integers, other numbers, plain and escaped strings, true, false and null are never confused, an integer that does not fit 64 bits becomes the nearest float rather than another integer, and a value already read stays what it is while other values of the document are read.',
  over=['inputs'], forall='every literal token',
  why='Tests decode a few literals.',
  files=['fastlitparse.go', 'fastlitescape.go', 'fastval.go'], mech=[('literal parser', 'fastlitparse.go')], observe=['kind and payload per token class'], 
  technique='abstract interpretation of the literal parser on symbolic digits and texts, result compared with the number or text denoted; the slot lookup interpreted twice in a row to show that the first value is not overwritten',
  note='Integers of 1-18 digits with every digit symbolic, 20-24 digits by range, the 19-digit border by constants around the limits; texts symbolic. Which characters an escape denotes is C15; escapes of lone surrogates are left open.')
P(id='C23', title='Matching keeps its place in the document',
  statement='Looking up a stored value or evaluating conditions out of document order leaves the reading position as it was, a stored value is exactly the text span of the field it was stored for, and skipping a value consumes exactly that value however deeply nested.',
  over=['inputs', 'histories'], forall='every document, every rule with out-of-order references',
  why='Tests use shallow documents and few out-of-order references.',
  files=['fastMatcher.go'], mech=[('save and restore of position', 'fastMatcher.go literalFromSlot/matchAfter'), ('nesting counter', 'fastMatcher.go leaveValue'), ('slot store', 'fastMatcher.go matchExec')], observe=['tokenizer position before and after', 'slot bounds'], 
  technique='abstract interpretation of the position-moving functions on every small shape of definition node, the tokenizer position being a symbolic term and neighbours modelled by what they consume',
  note='Node shapes: 0-2 loops and conditions, with and without members, follow-ups and slot; objects up to six members and arrays up to twelve elements; nesting at any depth (linear invariant).')
P(id='C24', title='A match reports the verdict of the rule set',
  statement='Matching a non-empty document reads it from its first byte and reports true exactly when the root of the evaluation tree is true after conditions never reached have been closed, or one of the expressions is constantly true; afterwards each expression reports the verdict of its own node (or its constant), and the status flags say whether a comparison fell back to collation.',
  over=['inputs', 'programs'], forall='every document, every rule set',
  why='Tests use rule sets of one or two expressions; which of them are constant, settled early or never reached is a product they sample thinly.',
  files=['fastMatcher.go', 'transform.go'], mech=[('entry points', 'fastMatcher.go Match/MatchWithStatus/ExpressionMatched')], observe=['verdict, status flags, per-expression verdicts'],
  technique='abstract interpretation of the entry points with the evaluation tree answering by symbols that are final only after closing; reported values compared case by case',
  note='Rule sets of up to three expressions in every mix of constant and document-dependent ones; the tree itself is C02, evaluation C03/C04/C23.')
P(id='C25', title='A path selects exactly the value it names',
  statement='The path a rule text spells in each front end (names, quoted names, array indexes from 0, META) is the path of the rule, and text that spells no path is rejected; equal paths compile to the same place and different paths never do; and while matching, every member of an object and every element of an array is handled exactly once, by the conditions placed on its own unescaped key or its own index.',
  over=['inputs', 'programs'], forall='every path in every rule, every document',
  why='Tests use a handful of short paths and small arrays; which key or index is confused with which is a matter of spelling, escapes and position.',
  files=['fastMatcher.go', 'transform.go', 'simpleParser.go', 'filterExprParser.go', 'expression_json.go'], mech=[('path to node', 'transform.go getExecNode'), ('member and element dispatch', 'fastMatcher.go matchObjectOrArray'), ('field words', 'simpleParser.go checkAndParseField'), ('field paths', 'filterExprParser.go FEField.OutputExpression')], observe=['path produced per spelling', 'node evaluated per member'],
  technique='abstract interpretation of the front ends on field paths of every shape, of the transformer on path patterns with symbolic names, and of the member loop on objects and arrays with keys in every combination; path or node compared with the one named',
  note='Paths to five names with indexes in every position, symbolic names where the front end takes them; objects to six members, arrays to twelve elements. An object member literally named [0] is indistinguishable from an index in this design and left open.')
P(id='C26', title='The reference matcher judges a rule as its definition says',
  statement="For every document and every list of rules built from and, or, any-in, the six comparisons, fields, and string, number, boolean and null values, the reference matcher (SlowMatcher) answers true exactly when there is a rule and every rule holds, and ExpressionMatched(i) tells whether rule i held for the last document - false again after Reset. An or holds when some operand does, an and when it has operands and all hold, an any-in when its condition holds for some element of the array or some member of the object, with the loop's variable naming that element and outer variables keeping their meaning. A field names the value its path leads to, a missing member counting as null. Numbers compare by value, strings by their text, false is less than true, null equals null and is less than anything else. Other pairs of kinds, a path through a value that is no object, an any-in over a value that is no array or object, and a malformed document are errors when they are come upon, never answers or crashes; every rule is judged, operands from left to right and only until the answer is known.",
  over=['inputs'], forall='every document, every rule of the supported kinds',
  why='The reference matcher is what the fast one is measured against; no test states its answers for pairs of kinds, paths, nesting and errors, and the combinations are unbounded.',
  files=['slowmatcher.go'], mech=[('kind dispatch', 'slowmatcher.go matchOne'), ('comparison', 'slowmatcher.go compareExprs'), ('paths and variables', 'slowmatcher.go resolveFieldParam, matchAnyInExpr'), ('verdict', 'slowmatcher.go Match, MatchWithStatus, ExpressionMatched, Reset')],
  observe=['verdict, error and per-rule answers on each path'],
  technique='abstract interpretation of the matcher from its constructor to its answer, strings and numbers of rule and document symbolic, each path judged against a direct evaluation of the rule under the assumptions of the path',
  note='Rules up to three operands and two levels, loops two deep over up to three elements, up to three rules and two documents; encoding/json and strings.Compare are assumed. Expression kinds the reference matcher does not support are outside the property.')
P(id='N01', title='The streaming matcher agrees with the reference matcher',
  statement='For every rule and every document the streaming matcher and the tree-walking reference matcher give the same verdict.',
  over=['inputs', 'programs'], forall='every rule, every document',
  why='The tests compare them on a fixed corpus.',
  files=['fastMatcher.go', 'slowmatcher.go'], mech=[('two implementations', 'fastMatcher.go, slowmatcher.go')],
  na='Equality of two whole-program functions over unbounded documents and rules; no static argument in reach relates a streaming pass with early exit to a recursive walk. Its structural clauses are claimed separately (C02-C04, C12, C20).')
P(id='N02', title='Matching well-formed documents allocates nothing',
  statement='In steady state, matching a document with a compiled rule performs no heap allocation.',
  over=['inputs'], forall='every document',
  why='Allocation is measured by benchmarks on a few documents.',
  files=['fastMatcher.go', 'alloctrack.go'], mech=[('value types and reuse', 'fastval.go')],
  na='False as a general statement on this code (array element keys are formatted, implicit conversions allocate), and escape-analysis output describes the compiler rather than the behaviour.')
P(id='N03', title='Floating-point results are numerically accurate',
  statement='Float arithmetic and trigonometric functions return the correctly rounded value of the mathematical function.',
  over=['inputs'], forall='every float',
  why='A few values are sampled.',
  files=['fastval_math.go'], mech=[('math package', 'fastval_math.go')],
  na='Numerical accuracy of the math package over all floats is a run-time quantity no static argument here bounds; which function is applied to which operand is claimed in C09.')
