# Generates properties.jsonl (kept so that the statements live in one reviewable place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("Q01","A query returns exactly the matching nodes, once each, in document order",
 "For every document and every chain of tag and attribute filters, running a recursive query yields every node that satisfies all of the filters, exactly once, and no other node, in document order (depth-first, a parent before its children, siblings left to right). A query without filters yields every node. Asking for the first result gives the first node of that sequence, and nothing exactly when the sequence is empty.",
 ["inputs","programs"],"all documents (any shape, depth, width) x all filter chains",
 "Existing tests look at one or two fixed documents and mostly at the first one or two results of single-filter queries; completeness, uniqueness and order over arbitrary shapes and conjunctions are not sampled.",
 ["src/query.rs","src/node.rs","src/filter.rs","src/soup.rs"],
 [("query iterator: advance, test filter, return","src/query.rs QueryIter::next"),("flattening per-root tree iterators","src/query.rs MapNodeIter"),("depth-first tree iterator","src/node.rs NodeIter"),("conjunction of filters","src/filter.rs And")],
 ["Query::all / into_iter / first","Soup::iter"],
 [("nodes","top-level nodes of the document","src/soup.rs Soup"),("iter/filter","position in the tree and accumulated filter","src/query.rs QueryIter")])
p("Q02","Strict queries see only the top level, recursive queries see everything",
 "A strict query considers only the top-level nodes of the document it searches; a recursive query considers every node at every depth; a query is recursive unless it was made strict. When a mode is chosen several times the last choice wins. Adding filters before or after choosing the mode never changes the mode or the result.",
 ["inputs","programs"],"all documents x all sequences of builder calls (mode switches and filters in any order)",
 "Tests compare strict and default mode for one document per format and one tag, always choosing the mode first.",
 ["src/query.rs"],[("mode flag carried through every builder call","src/query.rs Queryable impls for Query and &Soup"),("mode-dependent root iteration","src/query.rs MapNodeIter::next")],
 ["Queryable::strict","Queryable::recursive","results of the query"])
p("Q03","Tag, attribute and class filters mean what they say, and compose logically",
 "A tag filter accepts exactly the nodes that have a name matched by its pattern; an attribute filter accepts exactly the nodes having at least one single attribute whose name and value are matched together by its two patterns; name-only and value-only filters leave the other part free, and the class filter compares the whole class attribute. Nodes without a name or attributes (text, comments, doctypes, processing instructions) are never accepted by such a filter, not even with an always-true pattern. Chained filters, and the public 'and' / 'or' / match-all combinators, are logical conjunction, disjunction and truth.",
 ["inputs","programs"],"all nodes (kinds, names, attribute sets) x all filters and filter combinations",
 "Tests use nodes with at most one relevant attribute and single filters; a filter that pairs the name of one attribute with the value of another, or that confuses kinds, is not exercised.",
 ["src/filter.rs","src/query.rs"],[("attribute filter with keyed lookup and scan","src/filter.rs Attr::matches"),("tag filter","src/filter.rs Tag::matches"),("And / Or / ()","src/filter.rs")],
 ["Query results","filter::Filter::matches"])
p("Q04","A pattern selects the same nodes whatever type it is written in",
 "The same text used as a pattern - as a borrowed string, an owned string, a copy-on-write string, a user-defined pattern or a regular expression anchored to exactly that text - selects the same nodes in every position (tag name, attribute name, attribute value, class). Text comparison is exact: whole string, case-sensitive, no trimming or normalisation. The pattern true accepts every present value, false accepts none, and an unanchored regular expression accepts every value it finds a match in.",
 ["inputs","programs"],"all pattern texts x all pattern types x all filter positions x all documents",
 "Tests use one literal per pattern type and never compare the keyed-lookup path with the scan path on the same document.",
 ["src/pattern.rs","src/filter.rs"],[("Pattern impls for bool, &str, String, Cow, Regex","src/pattern.rs"),("keyed lookup when a pattern has a literal value","src/filter.rs Attr::matches, src/pattern.rs Pattern::value")],
 ["Query results","Pattern::matches"])
p("Q05","Queries and iterators are repeatable and do not influence each other",
 "In any interleaving of creating, copying, refining, advancing and dropping queries and iterators over a document, every iterator delivers the sequence it would deliver if it were alone, and an exhausted iterator stays exhausted. Running a query changes neither the document nor the query, so running a copy again (also from another thread) gives the same nodes. Refining a copy of a query leaves the original unaffected.",
 ["histories","programs","schedules"],"all histories of operations on one document with any number of live queries and iterators",
 "The only test clones one unfiltered query and takes one result from each copy; no history with interleaved iterators exists.",
 ["src/query.rs","src/node.rs"],[("iterators own their cursor and borrow the document immutably","src/query.rs QueryIter, src/node.rs NodeIter"),("Copy / Clone for queries","src/query.rs")],
 ["Iterator::next on interleaved iterators","Clone/Copy of Query"])
p("Q06","Searching inside a result covers exactly that node's descendants",
 "Searching inside a result item considers every descendant of that node in document order - in strict mode exactly its direct children - and never the node itself or anything outside it, to any nesting of searches inside searches. A result that cannot have children gives an empty search. The derived document is independent: it stays valid and unchanged when the document or result it came from is dropped or queried further.",
 ["inputs","programs","histories"],"all documents x all chains of nested sub-queries",
 "Tests derive one sub-document from one element per format and check one lookup in it.",
 ["src/query.rs"],[("sub-document built from the item's children","src/query.rs QueryItem::query")],["QueryItem::query","queries on the derived Soup"])
p("Q07","Tree traversal visits every node exactly once, parents first",
 "Iterating over the descendants of a node yields that node first and then every node below it exactly once, depth-first in document order, for any depth and width; iterating a document does the same for each top-level node in turn. Iterating over a node directly yields exactly its immediate children in order. A finished traversal keeps reporting that it is finished.",
 ["inputs","histories"],"all trees (shape, depth, width) and all points at which the iterator is advanced",
 "Tests check the first few steps of one traversal of one document per format; no traversal is run to the end or on degenerate shapes.",
 ["src/node.rs","src/parser/html/node.rs","src/parser/xml/mod.rs","src/soup.rs"],[("nested tree iterator state machine","src/node.rs NodeIter::next"),("direct iteration","HTMLNode::iter, XMLNode::iter, IntoIterator impls"),("children per node kind","Node::children impls")],
 ["Node::descendants","Soup::iter","node.iter()","for child in &node"],
 [("node, child, next","current node, nested iterator, next child index","src/node.rs NodeIter::Tree")])
p("Q08","Text and attribute accessors report exactly what the node holds",
 "The full text of a node is the content of all text nodes in its subtree, itself included, in document order, joined by single newlines; comments, doctypes, processing instructions, CDATA sections and the raw content of script/style elements contribute nothing. A node's direct text exists only for text nodes, a name and attributes only for elements of any kind. Looking up an attribute returns its value exactly when the node has an attribute of precisely that name.",
 ["inputs"],"all trees and all attribute names",
 "One all_text value and a few attribute lookups on fixed documents.",
 ["src/node.rs","src/parser/html/node.rs","src/parser/xml/mod.rs"],[("all_text: filter, collect, join","src/node.rs Node::all_text"),("get by name","src/node.rs Node::get"),("per-kind accessors","HTMLNode and XMLNode Node impls")],
 ["Node::all_text","Node::text","Node::name","Node::attrs","Node::get"])
p("Q09","The same tree answers queries identically in every format",
 "When the same tree of elements, attributes and text is supplied as strict HTML, as XML, through the lenient HTML parser (inside the body) or by a user-written parser, any query or traversal selects the corresponding nodes in the same order with the same names, attributes and text. The query engine works for any user-defined node type and depends only on the node's name, attributes, text and children.",
 ["inputs","programs","configurations"],"all trees expressible in all formats x all queries",
 "No test compares formats or uses a user-defined node type.",
 ["src/query.rs","src/node.rs","src/parser/html/node.rs","src/parser/xml/mod.rs","src/parser/html/lenient.rs","src/parser/html/strict.rs"],[("generic engine over Node","src/query.rs, src/node.rs"),("Node impls","src/parser/html/node.rs, src/parser/xml/mod.rs")],
 ["same query on Soup::html_strict, Soup::xml, Soup::html, Soup::new"])
p("P01","User-supplied parsers plug in unchanged",
 "Building a document with a user-supplied parser hands the input to that parser exactly once and unmodified, and yields either exactly the nodes it returned, in order, or exactly the error it returned. The built-in constructors give the same outcome as building with the corresponding built-in parser, and as calling that parser directly.",
 ["inputs","fault_sequences"],"all inputs, all parser outcomes (nodes or error)",
 "No test supplies a parser of its own.",
 ["src/soup.rs","src/parser/mod.rs"],[("generic constructor","src/soup.rs Soup::new"),("Parser trait","src/parser/mod.rs")],["Soup::new","Soup::html_strict","Soup::html","Soup::xml","Parser::parse"])
p("H01","Strict HTML: the tree is exactly the one the markup spells out",
 "For every well-formed document the strict HTML parser returns exactly the tree written in the source: every element, text, comment and doctype, in source order, at the nesting given by the tags, with its name and its (distinct) attributes, nothing added, dropped, merged, duplicated or moved. Tag names are kept as written, closing tags match regardless of ASCII case and may contain trailing whitespace, and self-closed elements have no children. This holds for any depth, width and length the machine can process.",
 ["inputs"],"all well-formed documents",
 "Seven small documents are compared; nesting, siblings and mixtures of constructs beyond them are not.",
 ["src/parser/html/strict.rs"],[("recursive-descent grammar","src/parser/html/strict.rs parse, single, element"),("post-processing copy","src/parser/html/strict.rs escape_node")],["Soup::html_strict","StrictHTMLParser::parse"])
p("H02","Strict HTML: malformed documents are rejected as a whole",
 "The strict HTML parser accepts a text exactly when all of it is well-formed: every opened non-void element is closed by its own closing tag in properly nested order, every closing tag closes something, every tag, quote, comment, doctype and raw element is terminated, and every '<' begins a construct. Anything else gives an error - never a partial tree, wherever in the text the fault is. Acceptance depends on the text alone.",
 ["inputs"],"all texts, in particular every single-point corruption of a well-formed document",
 "No existing test contains a malformed strict-HTML document.",
 ["src/parser/html/strict.rs"],[("all_consuming at the top","src/parser/html/strict.rs StrictHTMLParser::parse"),("closing tag compared with the opening name","src/parser/html/strict.rs element")],["Result of Soup::html_strict"])
p("H03","Strict HTML: attributes are read the same however they are written",
 "An attribute gives the same name and value whether the value is double-quoted, single-quoted or (where its characters allow) unquoted, and whatever spaces, tabs and line breaks surround it or its equals sign; an attribute without a value has the empty string. Quoted values may contain any character but their own quote; unquoted values may contain any character except whitespace, quotes, '=', '<', '>' and backtick. Every attribute in a tag is reported, with exactly its name and value, on normal, void, self-closed and script/style elements alike.",
 ["inputs"],"all attribute lists x all ways of writing them",
 "Tests use a dozen spellings of one attribute on one void element, all with the same value ('yes') and only single spaces between attributes.",
 ["src/parser/html/strict.rs"],[("attribute grammar","src/parser/html/strict.rs start_tag, attr, ws")],["attrs() of parsed nodes"])
p("H04","Strict HTML: character references decode correctly, once, and only where allowed",
 "In text and attribute values every named character reference of the HTML standard written with its semicolon, the standard's legacy names written without one where no letter or digit follows (where a digit follows, either reading is allowed), and every decimal or hexadecimal reference to a non-control Unicode character (references to control characters are left open) are replaced by exactly the characters they denote. Everything else - unknown names, incomplete or out-of-range references, lone ampersands, and all surrounding characters - is kept verbatim, and decoded output is not decoded again. Comments, doctypes, names and script/style content are never decoded.",
 ["inputs"],"all texts; all 2231 standard names; all code points",
 "One test with two references (&#x2F; and &amp;).",
 ["src/parser/html/strict.rs","src/parser/html/entities.rs"],[("reference scanner","src/parser/html/strict.rs ESCAPE, escape_text"),("lookup","src/parser/html/strict.rs escape_ref, src/parser/html/entities.rs"),("where decoding applies","src/parser/html/strict.rs escape_node, escape_attrs")],["text and attribute values of parsed nodes"])
p("H05","Strict HTML: script and style content is opaque",
 "The content of a script or style element (name in any ASCII case) is everything up to its first matching closing tag (any ASCII case, optional whitespace before '>'), reported verbatim apart from surrounding whitespace being trimmed. Markup, comments, quotes, character references and closing tags of other names inside it have no effect, and parsing resumes right after the closing tag. A self-closed one has empty content, and an unclosed one is an error.",
 ["inputs"],"all script/style contents and surrounding documents",
 "One test document with a script whose content holds one '<'.",
 ["src/parser/html/strict.rs"],[("raw element rule","src/parser/html/strict.rs raw_element")],["RawElement nodes from Soup::html_strict"])
p("H06","Strict HTML: exactly the void elements are void, and tag names are whole",
 "Elements named area, base, br, col, embed, hr, img, input, link, meta, source, track or wbr (any ASCII case) never have content, need no closing tag, and what follows them is their sibling; every other element name requires a closing tag or self-closing, including names that merely begin with such a name (colgroup, basefont) or contain hyphens, colons, dots or underscores. The name is read up to the first character that cannot belong to it and reported unchanged.",
 ["inputs"],"all tag names and letter cases, in all positions",
 "Only <hr> is tested, in one position.",
 ["src/parser/html/strict.rs"],[("void rule and name alternatives","src/parser/html/strict.rs void"),("element name","src/parser/html/strict.rs element")],["kind and name of parsed nodes"])
p("H07","Strict HTML: comments, doctypes and text keep their exact content",
 "A comment holds exactly the characters between '<!--' and the first following '-->', a doctype exactly those between '<!doctype ' (any ASCII case) and the next '>', and text exactly the maximal run of characters between two constructs, whitespace included. No node is produced for empty text, and two neighbouring text nodes never occur. Markup inside comments has no effect.",
 ["inputs"],"all comment, doctype and text contents and positions",
 "Two comments and three doctypes are tested in isolation.",
 ["src/parser/html/strict.rs"],[("comment, doctype, text rules","src/parser/html/strict.rs comment, doctype, text, take_to")],["Comment, Doctype and Text nodes"])
p("H08","No input makes a parser or a query crash or hang",
 "For every input text - well-formed, corrupted, truncated anywhere, arbitrary Unicode or arbitrary bytes - each parser returns (the lenient one always a document, the strict and XML ones a document or an error) within time that grows moderately with the length, and every traversal and query over a returned document completes. No input panics, aborts or loops; only nesting far beyond a thousand levels may exhaust the calling thread's stack.",
 ["inputs"],"all byte strings / texts given to all parsers",
 "Tests feed only well-formed documents.",
 ["src/parser/html/strict.rs","src/parser/html/lenient.rs","src/parser/xml/mod.rs","src/node.rs"],[("total grammar rules returning errors","src/parser/html/strict.rs"),("infallible conversion","src/parser/html/lenient.rs"),("error propagation","src/parser/xml/mod.rs")],["return of Soup::html_strict, Soup::html, Soup::xml and of traversals"])
p("L01","Lenient HTML: the document mirrors the HTML5 tree without loss",
 "For every input the lenient parser yields exactly the tree the HTML5 algorithm builds (template contents and processing instructions excluded): each element, text, comment and doctype node once, in order, at the same nesting, with its local name, all of its attributes (by local name) and decoded values, and its exact text. HTML elements named area, base, br, col, embed, hr, img, input, link, meta, source, track or wbr are reported as void, and no element that has children loses them; a foreign element of such a name without children may be either.",
 ["inputs"],"all texts, well-formed or not",
 "Three fixed documents are compared.",
 ["src/parser/html/lenient.rs"],[("tree conversion","src/parser/html/lenient.rs TryFrom<NodeRef>"),("document parse","src/parser/html/lenient.rs parse")],["Soup::html"])
p("L02","Lenient HTML repairs broken markup, and agrees with strict on sound markup",
 "The lenient parser always produces an html element holding a head and a body (or frameset); for sound markup of ordinary elements the body holds exactly the tree the strict parser returns, up to lower-cased names. Elements left open are closed at the end of their parent or of the input, closing tags that close nothing are ignored, and no text or element of the input is lost by such repair.",
 ["inputs"],"all sequences of ordinary opening/closing tags, void tags, text and comments, balanced or not",
 "Only well-formed documents are given to the lenient parser, and it is never compared with the strict one.",
 ["src/parser/html/lenient.rs","src/parser/html/strict.rs"],[("HTML5 parse and conversion","src/parser/html/lenient.rs")],["Soup::html vs Soup::html_strict"])
p("X01","XML: the tree is exactly the one the document spells out",
 "For every well-formed XML document the parser returns its elements, text, CDATA sections, comments and processing instructions in document order at the nesting given by the tags, before, inside and after the root, with local names, prefixes, namespaces, all attributes (distinct local names) and decoded values, and exact content; only whitespace-only text, the XML declaration and the doctype are omitted, and line ends may be normalised. CDATA stays distinct from text and is not decoded. Left open: namespace violations, internal subsets, declared encodings other than UTF-8, XML 1.1.",
 ["inputs"],"all well-formed XML documents",
 "Two or three elements of one fixed document are compared; comments, CDATA, processing instructions, namespaces and several attributes never occur.",
 ["src/parser/xml/mod.rs"],[("conversion from the XML tree","src/parser/xml/mod.rs From impls, XMLParser::parse")],["Soup::xml","XMLNode, XMLElement fields"])
p("X02","XML: malformed documents are rejected as a whole",
 "Text that is not well-formed XML - mismatched, missing or stray closing tags, unterminated constructs, duplicate or unquoted attributes, unknown entities, text outside the root, no root or several, invalid UTF-8 - gives an error and never a partial document, wherever the fault is. Well-formed text is never rejected. Left open: namespace violations, internal subsets, declared encodings other than UTF-8, XML 1.1, more than 65535 attributes on one element.",
 ["inputs"],"all texts, in particular every single-point corruption of a well-formed document",
 "No existing test contains malformed XML.",
 ["src/parser/xml/mod.rs"],[("error propagation with ?","src/parser/xml/mod.rs XMLParser::parse")],["Result of Soup::xml"])
p("X03","XML: the result depends on the bytes, not on how the reader delivers them",
 "The outcome of parsing from a reader depends only on the bytes it delivers in total: any division into reads, down to single bytes and through the middle of characters or tags, gives the same document or the same rejection. An interrupted read is simply retried. If the reader fails before it reports the end of its data, even right after the last byte of the document, the result is an error, never a document truncated at that point, and the reader's data after the failure is not used.",
 ["inputs","fault_sequences","schedules"],"all documents x all divisions into reads x all failure points",
 "Tests read from an in-memory slice only, delivered in one piece and never failing.",
 ["src/parser/xml/mod.rs","src/soup.rs"],[("reader handed through to the XML parser","src/soup.rs Soup::xml, src/parser/xml/mod.rs XMLParser::parse")],["Soup::xml with a scripted reader"])
p("F01","Behaviour does not depend on which optional features are enabled",
 "Each documented feature, alone or in any combination, builds, and everything it enables - parsing in that format, queries, traversal, patterns - behaves exactly as it does with all features enabled. Enabling one format or pattern type never changes the results of another.",
 ["configurations","programs"],"all combinations of the documented features x the operations they enable",
 "Tests run only with the default features.",
 ["Cargo.toml","src/lib.rs","src/soup.rs","src/pattern.rs","src/parser/mod.rs","src/parser/html/mod.rs"],[("feature gates","Cargo.toml [features], cfg attributes")],["the same specification behaviours replayed in differently-featured builds"])
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
