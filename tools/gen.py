#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand: python3 tools/gen.py"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe or ["results of Find/Search"], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"prop": {"id": id, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": text},
                       "why_tests_cant": why, "anchors": a},
              "technique": technique, "note": note})

EVAL = "The repository's tests evaluate a few dozen hand-written queries on one or two documents each, on the map model only"

DIFF = "runtime monitoring: online differential monitor of real executions against an independent reference evaluator, on a monitored document model"
DIFFNOTE = ("Every execution is judged completely (the multiset of selected nodes, by identity of node on the monitored model, by value on MapModel); "
            "reach is that of the generated queries and documents. Trusts the reference evaluator in harness/ref.go, which gives no verdict where neither the documentation nor JSONPath practice says what is right.")

prop("C01", "Child selectors select exactly the children they denote",
     "Every step of a path applied to a node selects exactly the children its selector denotes: a name selects that member of an object (including members whose value is null, and names that are empty or not identifiers) and nothing if there is none; an index selects that element of an array, a negative one counting from the end, and nothing outside the array; a wildcard selects all members or elements; a value node has no children. "
     "The nodes a path selects are what its steps select one after the other, starting at the root, however many steps there are and whatever selectors precede or follow, also after a recursive descent or inside a union.",
     ["inputs"], "all documents, all paths made of names, indexes and wildcards, in both the plain and the descendant position",
     EVAL + "; each selector has two implementations (child step, and match after .. or in a union), of which tests reach a few combinations.",
     ["path.go", "slice.go", "parser.go"],
     [("evaluateAt", "path.go"), ("keySelector.selectChildNodes and match", "path.go"), ("indexSelector.selectChildNodes and match, elementIndex", "slice.go"), ("wildcardSelector", "path.go")],
     DIFF, DIFFNOTE)

prop("C02", "Array slices select exactly the elements of RFC 9535",
     "A slice [start:end:step] of an array selects exactly the elements that RFC 9535 defines, for every combination of absent, positive, negative, out of range and very large bounds and steps (a negative step going backwards, step 0 selecting nothing), and nothing of anything that is not an array. "
     "This is so whether the slice is a plain step, follows a recursive descent, or is part of a union.",
     ["inputs"], "all array lengths, all triples of bounds and step that fit into an integer",
     "Tests have four slices with in-range bounds; there are three separate implementations (range, slice with step, matching).",
     ["slice.go", "itr.go", "parser.go"],
     [("getRange, sliceSelector.bounds", "slice.go"), ("rangeIterator.next", "itr.go"), ("rangeSelector.match, sliceSelector.match", "slice.go")],
     DIFF + "; exhaustive enumeration of small bounds",
     DIFFNOTE + " All combinations of bounds and steps in a small range are enumerated completely for small arrays.")

prop("C03", "A union selects every child one of its parts selects, once",
     "A bracketed list of selectors (names, indexes, wildcards, slices, filters, in any mix and order) selects exactly those children of a node that at least one of the parts selects, each of them once, whatever the order, number and overlap of the parts.",
     ["inputs"], "all documents and all unions, as plain steps and after a recursive descent",
     "Tests have two unions of two names or indexes; parts interact (negative indexes, overlap, array parts on objects).",
     ["path.go", "slice.go", "parser.go"],
     [("unionSelector.match", "path.go"), ("match of every selector", "path.go, slice.go")],
     DIFF, DIFFNOTE + " That overlapping parts select a node once is this implementation's documented-by-design behaviour; RFC 9535 would list it twice (see DESIGN.md).")

prop("C04", "Recursive descent applies the next selector to every descendant, exactly once",
     "'..' followed by a selector selects exactly the nodes that the selector selects as children of the current node or of any of its descendants, at every depth, each once per current node; a trailing '..' selects every descendant. "
     "Several '..' in a path compose: a node is selected once for each way in which it can be reached.",
     ["inputs"], "all documents of any shape and depth, all selectors after '..', any number of '..' at any place",
     EVAL + ", with one '..' at shallow depth.",
     ["path.go", "parser.go"],
     [("evaluateAt: descend", "path.go"), ("astPath: recursive descent contexts", "parser.go"), ("recursive flags", "path.go: Path.recursive")],
     DIFF, DIFFNOTE)

prop("C05", "A filter keeps exactly the children for which its expression is true",
     "[?(expr)] selects, of the children of an array or object, exactly those for which expr evaluates to true with @ being that child, independently of its siblings, of the position of the filter in the path, and of filters nested inside it. "
     "A value is true unless it is false, 0, the empty string, null, or a path that selects nothing; a path that selects an array, an object or several nodes is true.",
     ["inputs"], "all documents, all filter expressions, nested filters, filters after '..' and in unions",
     EVAL + "; about ten filters, most of the form @.a == literal, none nested.",
     ["path.go", "expression.go"],
     [("filterSelector.match", "path.go"), ("exprValue.asBool", "expression.go"), ("pathExpression.evaluate", "expression.go")],
     DIFF, DIFFNOTE)

prop("C06", "In an expression $ is the document root and @ the node being tested",
     "Inside a filter, at any nesting depth of filters and any depth of the document, a path that starts with $ is evaluated from the root of the document and a path that starts with @ from the child the innermost enclosing filter is testing, whatever was evaluated before. "
     "Evaluating such paths does not disturb the evaluation of the enclosing path.",
     ["inputs"], "all documents, nesting depths of filters, and places of $ and @ paths in expressions",
     "Tests have no $ in a filter that selects anything but a constant, and no nested filter.",
     ["expression.go", "path.go"],
     [("pathExpression.evaluate, newContext", "expression.go, path.go"), ("rootElementSelector, currentElementSelector", "path.go")],
     DIFF, DIFFNOTE,
     state=[("ctx.path", "the path from the root to the node being evaluated", "expression.go: context")])

prop("C07", "Comparisons compare values, not representations",
     "==, != and the ordering operators compare numbers by their numeric value whether they are integers or floating point and whether they come from literals, documents or computations, compare strings by their characters and booleans by value; null equals only null; values of different kinds are never equal; a path that selects nothing, or a container, equals nothing and is ordered with nothing, null included. A result that is not a number (NaN) equals nothing and is ordered with nothing. Equal numbers, strings and nulls are both <= and >= each other. "
     "!= is always the negation of ==, !== of ===, and === agrees with == on operands of the same type.",
     ["inputs"], "all pairs of values of all types, from literals, document nodes and computed operands, in both orders",
     "Tests compare a handful of pairs of equal types.",
     ["expression.go"],
     [("equalValues, equalityExpression, equality3Expression", "expression.go"), ("compareExpr, relationalExpression", "expression.go")],
     DIFF + "; metamorphic laws over observed verdicts",
     DIFFNOTE + " Orderings between values of different kinds that the engine coerces (strings with numbers, booleans) are not specified and not judged.")

prop("C08", "Arithmetic follows the usual precedence and numeric rules",
     "Arithmetic in expressions is that of Go's int and float64 (integers stay integers, division of integers truncates, an operation with a floating point operand is done in floating point, ** yields floating point), with the precedence: path, unary minus and not, ** (right associative), then * / %, then + -, then ordering, then 'in', equality, && and ||, parentheses overriding it. "
     "Operations on a missing or null operand, and division or remainder by zero, yield null: they never crash and compare equal to no number.",
     ["inputs"], "all expression trees over numbers, with operands from literals and documents",
     "Tests have three arithmetic expressions.",
     ["expression.go", "Jsonpath.g4", "parser/jsonpath_parser.go"],
     [("mulExpression, divExpression, modExpression, addExpression, subExpression, powExpression, unaryMinusExpression", "expression.go"), ("valueAsNumber", "expression.go"), ("alternatives of expression, in order of precedence", "Jsonpath.g4")],
     DIFF, DIFFNOTE)

prop("C09", "Logical operators are those of boolean logic",
     "&&, || and ! combine the truth of their operands as in boolean logic, with ! binding tighter than && and && tighter than ||, for operands of any kind (comparisons, existence of paths, values, nested combinations); the result of a logical operator is a boolean. "
     "De Morgan's laws, double negation, commutativity of the verdict, and parentheses hold.",
     ["inputs"], "all combinations of truth values of operands of every kind, all nestings",
     "Tests have one && and one ||.",
     ["expression.go"],
     [("landExpression, lorExpression, notExpression", "expression.go"), ("exprValue.asBool", "expression.go")],
     DIFF + "; metamorphic laws over observed verdicts", DIFFNOTE)

prop("C10", "'in' is true exactly if the left value equals an element of the right",
     "x in y is true exactly if x equals (as by ==) at least one element of y, where y is an array literal, an array of the document, or the list of nodes a path selects (a single value counting as a list of itself), and false for an empty, missing or null y.",
     ["inputs"], "all left operands, all lists of any length and element kinds, all positions of the match",
     "Tests have one 'in' with a literal list of strings.",
     ["expression.go"],
     [("inExpression.evaluate", "expression.go"), ("nodeValue.getValue", "expression.go")],
     DIFF, DIFFNOTE)

prop("C11", "length counts the elements of arrays",
     "length(x) and x.length() give the number of elements if x is an array (of the document or a literal) and 0 if it is missing, null, or another kind of value, and both notations always agree; @.length without parentheses is the member called length.",
     ["inputs"], "all arguments: paths of all kinds to arrays, containers, values, missing nodes",
     "Tests call length twice, on arrays.",
     ["expression.go", "funcs.go"],
     [("lengthFunc", "funcs.go"), ("functionCallExpression, methodCallExpression", "expression.go"), ("astArgumentExpression", "expression.go")],
     DIFF, DIFFNOTE)

prop("C12", "String literals denote the string they spell",
     "A quoted string, with either quote, anywhere in a query (as a name in dot or bracket notation, in a union, a simple path, or an expression), denotes exactly the characters it spells, with the escape sequences of JSON and JavaScript decoded (single character escapes, \\xHH, \\uHHHH including surrogate pairs, \\u{H...}, line continuations).",
     ["inputs"], "all strings of characters and escape sequences, in every context in which a literal can stand",
     "Tests have no escape sequence but a quote.",
     ["expression.go", "escape.go", "parser.go", "Jsonpath.g4"],
     [("unescapeString", "expression.go"), ("uses of unescapeString for keys", "parser.go, simplepath.go")],
     "runtime monitoring: differential monitor of decoded literals against an independent decoder, observed through selected keys and comparisons",
     "Every literal is judged by which of several keys, or strings, the engine selects with it. Trusts the decoder that generates the literal together with its value; every character of the first 12288 code points is tried (thorough: all).")

prop("C13", "Numeric literals denote the number they spell",
     "A numeric literal in an expression, index or slice denotes its mathematical value: decimal integers, decimals with fraction or exponent, hexadecimal, octal (0o) and binary literals in either letter case, with digit separators; an integer that does not fit into an integer is its floating point value.",
     ["inputs"], "all numeric literals the grammar admits, in every context",
     "Tests have decimal integers and one fraction.",
     ["expression.go", "Jsonpath.g4"],
     [("numericLiteral", "expression.go")],
     "runtime monitoring: differential monitor of literal values against math/big, observed through comparisons and selected elements",
     "Trusts math/big and strconv. Hexadecimal, octal and binary literals beyond 64 bits are not judged.")

prop("C14", "Equivalent notations of a query select the same nodes",
     "Dot and bracket notation of the same name, either quote character, escaped and plain characters, white space where the grammar allows it, redundant parentheses, and .* and [*] are interchangeable: queries that differ only in these are all accepted and select the same nodes of every document, also inside expressions and after '..'.",
     ["inputs"], "all queries, and all of their renderings",
     "Tests write each query in one way.",
     ["parser.go", "expression.go", "Jsonpath.g4"],
     [("astPath and its cases per notation", "parser.go"), ("isPathExpression, astExpression", "parser.go, expression.go"), ("getParser", "parser.go")],
     "runtime monitoring: metamorphic monitor comparing executions of several renderings of one query tree, and with the reference evaluator",
     "Reach is that of the renderer in harness/ast.go.")

prop("C15", "Simple /paths address keys and indexes literally",
     "A path of the form /a/b/2/*/'c d' selects what the chain of its components selects: each component is taken as the literal key of an object or, if it is a number, as the index of an array or the key of an object, and * as all children; '/' alone is the root. "
     "No recursive descent or expression is recognized, and the nodes are the same as those of the corresponding $ path.",
     ["inputs"], "all documents and all simple paths, quoted and unquoted components",
     "Tests parse four simple paths.",
     ["simplepath.go", "parser.go"],
     [("astSimplePath, astSimplePathExpr", "simplepath.go"), ("keySelector.intValue", "path.go")],
     DIFF, DIFFNOTE)

prop("C16", "MakeKeyString and Join produce paths that parse back to the keys",
     "For every string k, MakeKeyString(k) used as a component of a path parses and addresses exactly the key k, and no other; Join of components gives a simple path whose parse addresses exactly that chain of keys.",
     ["inputs"], "all strings, including empty, quotes, backslashes, control and non-BMP characters, keywords, numbers, operators",
     "Tests have seven keys.",
     ["escape.go", "funcs.go", "simplepath.go", "expression.go"],
     [("MakeKeyString, Join", "escape.go"), ("unescapeString", "expression.go")],
     "runtime monitoring: round trip monitor (encode, parse, select among decoy keys)",
     "Judged by what the parsed path selects in documents with the key and similar decoys. Every single character of the first 8192 code points is tried (thorough: all of Unicode).",
     observe=["MakeKeyString, Join, then results of Find"])

prop("C17", "Parse accepts well-formed text and reports everything else as an error",
     "Parse returns an error for every text that is not derivable from the grammar (unbalanced, cut off, with trailing or leading text, invalid characters or tokens), and accepts every well-formed JSONPath of the documented kinds, with a usable path. "
     "An expression with an operand that has no meaning there (a bare name, an operator that is not in the language) is an error too, wherever it is in a query. "
     "Nothing is printed: the error that is returned is the only report.",
     ["inputs"], "all texts",
     "Tests parse a few dozen valid texts, and none that is malformed.",
     ["parser.go", "Jsonpath.g4", "parser/jsonpath_parser.go", "parser/jsonpath_lexer.go"],
     [("errorListener", "parser.go"), ("getParser: listeners of lexer and parser", "parser.go"), ("astPath: errors", "parser.go")],
     "runtime monitoring: differential monitor of Parse verdicts against an independent lexer and Earley recognizer",
     "Well-formedness is judged by harness/earley.go, written from Jsonpath.g4. A text the recognizer accepts may still be rejected if it is an expression of a kind the engine does not support: then only that an error is returned is judged.",
     observe=["error of Parse", "standard output and error"])

prop("C18", "No input makes Parse or evaluation crash or run forever",
     "For every text and every document, Parse returns a path or an error, and Find, Search and ParseAndFind with every path that Parse or the constructors return end with a result or an error: no panic, no stack exhaustion, no endless loop, no attempt to allocate unbounded memory.",
     ["inputs"], "all texts (also arbitrary bytes), all documents of all value kinds, all constructed paths",
     "Tests use well-formed input only.",
     ["parser.go", "expression.go", "path.go", "slice.go", "simplepath.go"],
     [("error returns of ast* functions", "parser.go, expression.go, simplepath.go"), ("evaluateAt", "path.go"), ("valueAsInt, normalizeIndex", "expression.go, slice.go")],
     "runtime monitoring: fuzzing with a crash, hang and call-budget monitor (flight recorder, supervised child process)",
     "A crash is any panic with a frame of the library, death of the process, a case that takes longer than 150 s, or more document model calls than a budget. Coverage of statements is measured and reported.",
     observe=["panics, process death, duration, number of document model calls"])

prop("C19", "Paths built by constructors behave as the parsed path of the same steps",
     "A path built with KeySelectorPath, IndexSelectorPath, WildcardPath, SelectRootPath, Append and RecursiveDescent selects exactly what Parse of the same steps selects, whatever the number and order of the constructor calls. "
     "Append and RecursiveDescent leave their arguments and every other path unchanged, also if paths built from the same pieces are extended in different ways.",
     ["inputs", "histories"], "all sequences of constructor calls over shared pieces, all documents",
     "Tests build no path by constructors but in one case.",
     ["path.go"],
     [("Append", "path.go"), ("RecursiveDescent", "path.go"), ("KeySelectorPath, IndexSelectorPath", "path.go")],
     "runtime monitoring: differential monitor over random graphs of constructor calls, evaluated after everything is built",
     DIFFNOTE,
     state=[("Path.selectors, Path.recursive", "slices whose backing arrays paths could come to share", "path.go")])

prop("C20", "A captured path is the chain from the root to the selected node",
     "Every path that Search passes to the capture function starts with the document root; every further segment is the child of the segment before it under the key (in an object) or index (in an array) that it carries, with the right node type and nothing else set; and its last segment is the selected node. "
     "This remains true after the capture function has returned and after the search has ended, however many paths are kept.",
     ["inputs"], "all documents, all paths, all captured paths kept in any number",
     "Tests only look at the last node of results.",
     ["path.go", "docpath.go", "slice.go", "itr.go"],
     [("Search: clone", "path.go"), ("segments built in evaluateAt and the selectors", "path.go, slice.go"), ("rangeIterator.item", "itr.go")],
     "runtime monitoring: online and post-mortem monitor of every captured path, on a document model that knows the place of every node",
     "Every captured path of every execution is checked link by link, twice.",
     observe=["paths given to the capture function"],
     state=[("ctx.path", "the one path that the evaluation extends and shortens", "path.go")])

prop("C21", "Find, Search and ParseAndFind agree, in traversal order",
     "Find returns exactly the last nodes of the paths that Search captures, in the same order, and ParseAndFind what Find returns for the parsed path, or Parse's error with no result. "
     "The order is that of the traversal: a node's children come in document order (for a slice, in the order of the slice), for each selected node the rest of the path is completed before the next one, and with '..' a matching child comes before what matches among its own descendants, and that before its next sibling.",
     ["inputs"], "all documents with a fixed order of keys, all queries",
     "Tests compare sets of results for most queries, and never call Search and Find on the same input.",
     ["path.go", "itr.go"],
     [("search, Find, Search, ParseAndFind", "path.go"), ("evaluateAt: order of iteration", "path.go")],
     DIFF.replace("differential monitor", "differential monitor (order sensitive)"), DIFFNOTE)

prop("C22", "Document paths are persistent values",
     "Key, Index, Push and Pop return a new path and never change any other path: all paths derived from common prefixes, in any order of pushes and pops, keep their segments, also paths that Search captured. "
     "Len and Last always describe the segments pushed and not popped.",
     ["histories"], "all sequences of Key, Index, Push and Pop on shared paths",
     "Tests have none for DocPath.",
     ["docpath.go"],
     [("DocPath.Key, Index, Push, Pop", "docpath.go")],
     "runtime monitoring: history monitor comparing every live path with a model after every operation",
     "Every live path is compared with an immutable model after random histories of operations.",
     observe=["segments of every path, after every operation"],
     state=[("DocPath.P", "slice that paths could come to share", "docpath.go")])

prop("C23", "Compiled paths, documents and Parse can be used concurrently",
     "Any number of goroutines may at the same time Parse, evaluate the same compiled path on the same or different documents, build further paths from shared ones, and derive document paths from shared ones: there is no data race, and each call gives the result it gives when it runs alone. "
     "This includes the first calls of a process.",
     ["schedules", "inputs"], "all schedules of concurrent calls on shared compiled paths and documents",
     "Tests are sequential.",
     ["path.go", "parser.go", "docpath.go", "expression.go", "parser/jsonpath_parser.go"],
     [("compiled paths are not written to during evaluation; all state is in context", "expression.go: context"), ("full slice expressions in Append and Push", "path.go, docpath.go"), ("sync.Once initialization of ANTLR's tables", "parser/jsonpath_parser.go")],
     "Go race detector under concurrent stress with injected yields, and comparison with the result of each call alone",
     "Race freedom is judged by the Go race detector on the executions observed, results by comparison. The harness adds no synchronization between start and end. Cold starts are run in new processes.",
     observe=["race reports", "results of every call"])

prop("C24", "Evaluation has no memory and no side effects",
     "What a query selects depends on nothing but the query and the document as it is at the time of the call: not on earlier or failed calls, on other paths made from it, on a panic of the caller's own code in an earlier call, or on searches that are made inside a capture function. "
     "No call modifies a document, a compiled path, or results returned before.",
     ["histories", "inputs"], "all histories of Parse, Find, Search, Append and RecursiveDescent, also nested, failing, and with documents that change between calls",
     "Tests evaluate every path once.",
     ["path.go", "expression.go", "parser.go"],
     [("a new context per search", "path.go: newContext"), ("exprValue constants are copied", "expression.go")],
     "runtime monitoring: history monitor comparing every call of random histories with the result of a fresh path, and documents before and after",
     "Every result in a history is compared with that of a freshly parsed path before the history; documents are compared before and after.")

prop("C25", "The document model is only used within its contract",
     "During Find and Search, every node given to the document model is one that the model returned; Key and Keys are only called for objects, Elem only for arrays and with an index within their length, Len only for arrays and objects, and Value only for value nodes. "
     "This is so for every query and document, also those where selectors do not fit the document.",
     ["inputs"], "all queries and documents",
     "Tests use MapModel, which answers everything.",
     ["path.go", "slice.go", "itr.go", "expression.go", "docmodel.go"],
     [("type tests before every access", "path.go, slice.go"), ("nodeValue.getValue, valueAsNumber", "expression.go")],
     "runtime monitoring: contract monitor on every call to the document model",
     "Every call to the model of every execution is checked against the comments of the DocModel interface.",
     observe=["calls to the DocModel"])

prop("C26", "Results do not depend on the document model's representation",
     "A query selects the same places of a document whatever DocModel represents it: native maps and slices, or other models with nodes of any type (pointers, integers, values that are not comparable), and in the same order if the models list keys in the same order.",
     ["configurations", "inputs"], "all document models that present the same document, all queries",
     "Tests use MapModel only.",
     ["path.go", "expression.go", "docmodel.go"],
     [("nodes are opaque to the engine", "path.go, expression.go"), ("nodeValue", "expression.go")],
     "runtime monitoring: metamorphic monitor comparing executions of a query on several models of one document",
     "Compares executions of the real engine on five models; nodes that are not comparable make any == on nodes panic.")

prop("C27", "MapModel presents a Go value as it is",
     "For every value made of map[string]any, []any and Go scalars (such as encoding/json makes), MapModel reports maps as objects with exactly their keys and values, slices as arrays with exactly their elements, everything else, nil included, as value nodes with the value itself, and a missing key as missing.",
     ["inputs"], "all Go values",
     "Tests use it implicitly, with documents of a few nodes.",
     ["docmodel.go"],
     [("MapModel methods", "docmodel.go")],
     "runtime monitoring: conformance monitor of every MapModel method on every node of random Go values",
     "Every method on every node of generated values is compared with direct inspection.",
     observe=["results of MapModel methods"])

prop("C28", "Work is proportional to what a query has to look at",
     "The number of document model calls and the memory that an evaluation needs stay within a constant factor of the number of nodes its steps and filters have to look at: looking up a name or index does not visit siblings or descendants, nothing is evaluated repeatedly as nesting grows. "
     "The time to Parse a text grows at most polynomially with its length.",
     ["inputs"], "all documents of any size and shape, all queries of any length and nesting",
     "Tests use documents of a few nodes and queries of a few steps, where no growth shows.",
     ["path.go", "slice.go", "itr.go", "expression.go", "parser.go"],
     [("selectChildNodes answers directly for names, indexes, slices", "path.go, slice.go"), ("rangeIterator steps without visiting what it skips", "itr.go"), ("search gives Find paths that are not copied", "path.go"), ("prediction caches of ANTLR", "parser/jsonpath_parser.go")],
     "runtime monitoring: accounting monitor of model calls, allocated bytes and CPU time of cold compilations against bounds derived from a reference count",
     "Bounds are four and more times what the current tree needs: growth laws are judged, constant factors are not. Three families of nested filters that the ANTLR runtime compiles in exponential time are listed in KNOWN_FINDINGS.",
     observe=["number of DocModel calls, allocated bytes, CPU time"])

prop("C29", "Results do not depend on size",
     "Evaluation is exact at any size: documents nested hundreds or thousands of levels deep, arrays and objects with 100000 children, paths with as many steps as the document has levels, unions, lists, operator chains and names of any length give the nodes, and captured paths, that the same rules give in the small.",
     ["inputs"], "all sizes of documents, queries, literals",
     "Tests use documents of depth five at most; buffers (initial path capacity of 128) are never outgrown.",
     ["path.go", "docpath.go", "itr.go", "expression.go", "parser.go"],
     [("ctx.path grows by append", "path.go: newContext, evaluateAt"), ("recursion over the AST", "parser.go, expression.go")],
     DIFF + " at large sizes", DIFFNOTE + " Depth up to 1025, 100000 children, 300 parts.",
     state=[("ctx.path.P", "capacity 128 at first", "path.go: newContext")])

prop("C30", "Failing filter expressions are reported as errors",
     "If the evaluation of a filter expression fails on a node (it calls a function that does not exist), at whatever place of the expression, depth of nesting or depth of the document, Find, Search and ParseAndFind return an error; it is never taken for a truth value, and never raised if no filter gets to evaluate it. The failure leaves nothing behind: the same compiled path still works with other documents, other paths with the same document.",
     ["inputs"], "all filter expressions, places of a failing call, documents",
     "No test has a failing expression, and every operator, list, call and loop has to pass the error on.",
     ["expression.go", "path.go", "itr.go", "slice.go"],
     [("error results of evaluate", "expression.go: all evaluate methods"), ("filter selectors pass errors on", "slice.go, path.go: evaluateAt")],
     DIFF + " of failing expressions", "Whether an error is returned is judged for every case where the reference evaluator is sure that the failing call is evaluated, or is not.")

prop("C31", "Nothing is retained after a call",
     "When Parse, Find, Search, ParseAndFind, MakeKeyString and Join have returned, the library holds no reference to the document, the model, the capture function, the results, or the text (except for what a compiled path that is still in use is made of), also after failed calls, panicking models and callers, and searches within searches, "
     "and however long compiled paths stay in use. So the memory of a process does not grow with the number of texts parsed or documents evaluated, and no goroutine is left behind.",
     ["histories"], "all sequences of calls, queries, documents",
     "No test looks at memory after a call; a cache without bounds, a recycled buffer or a memo in a compiled path does not change any result.",
     ["path.go", "parser.go", "expression.go", "escape.go", "docpath.go"],
     [("context is made for each search", "path.go: newContext"), ("selectors and expressions have no state", "path.go, slice.go, expression.go")],
     "runtime monitoring: reachability of every node, string and array of the documents observed through the garbage collector (cleanups), and accounting of the live heap and of goroutines",
     "Reachability is judged exactly for the watched objects of each generated history (after repeated collections, so that what a sync.Pool keeps does not count); growth is judged over the second half of runs of thousands of different texts or documents, so that caches with bounds are full.",
     observe=["runtime.AddCleanup of nodes, strings and arrays", "runtime.MemStats.HeapAlloc", "runtime.NumGoroutine"])

prop("C32", "A syntax error says where the text is wrong",
     "The error of Parse and ParseAndFind for a text that is not well formed is an ErrSyntax (for errors.As) that contains the text, and gives line and column of a place in it which is not beyond the first mistake: the text before it is the beginning of some well-formed query, or it is the place of a character that cannot be read. "
     "Where a complete query without '..' is followed by something that cannot follow, or by an unreadable character, it is exactly that place. An error for a well-formed text is never an ErrSyntax.",
     ["inputs"], "all texts",
     "Tests have no malformed text.",
     ["parser.go", "parser/jsonpath_lexer.go", "parser/jsonpath_parser.go"],
     [("errorListener keeps the first error", "parser.go"), ("lexer and parser report to the same listener", "parser.go: getParser")],
     "runtime monitoring: differential monitor of the places in syntax errors against an independent lexer and Earley recognizer",
     "The recognizer gives the first token that no well-formed text has there; ANTLR's prediction may report a place before it, which is accepted except after complete queries.",
     observe=["error of Parse and ParseAndFind"])

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "verif", "enable": "no hooks are needed: everything is observed through the public API (DocModel, capture functions, errors), the race detector and Go's coverage counters; nothing in /repo is guarded", "source_commits": []},
    "checks": [{
        "property": p["prop"]["id"],
        "quick_cmd": "bash check.sh " + p["prop"]["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["prop"]["id"],
        "evidence_file": "evidence/%s.json" % p["prop"]["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "See DESIGN.md. Replay a violation with: bash check.sh replay replay/<file>.json. Known findings and repaired defects: KNOWN_FINDINGS.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
