import json
P="src/mathml_to_latex/"
U=P+"el_to_tex/usecases.py"; A=P+"el_to_tex/adapter.py"; X=P+"xml_to_mathml/adapter.py"; E=P+"xml_to_mathml/services/error_handler.py"; T=P+"xml_to_mathml/services/xml_elements_to_mathml_element.py"; S=P+"syntax.py"; C=P+"converter.py"; W=P+"el_to_tex/services/wrapper.py"; N=P+"el_to_tex/services/normalizer.py"; R=P+"el_to_tex/protocols.py"; F=P+"xml_to_mathml/factory.py"
rows=[]
def prop(id,title,stmt,over,text,why,files,mech,state=None,obs=("MathMLToLaTeX.convert: returned string or raised exception",)):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(obs),"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    rows.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Converting is a pure function of the input document",
"Converting a document gives the same LaTeX, or the same kind of failure, whatever was converted before it (successfully or not), on the same converter object or another, in the same process or another. The same holds when other threads convert other documents at the same time, on shared or separate converter objects and at any interleaving.",
["histories","schedules","inputs"],"all sequences of calls and all interleavings of concurrent calls, over all input documents",
"each test converts one document once on a new object, in one thread; no test runs a second call after a failing one or two calls at once",
[C,F,X,E,A,U],[("new adapter and error handler per call","make_xml_to_mathml_adapter"),("new element tree and converters per call","MathMLToLaTeX.convert, MathMLElementToLatexConverterAdapter")],
[("pending XML text","text being parsed and repaired by one call","XmlToMathMLAdapter._xml"),("inner-table flag","mark put on element attributes while converting","MTable._add_flag_recursive_if_name")])
prop("C02","Insignificant XML formatting never changes the LaTeX",
"Documents that differ only in insignificant markup convert to identical LaTeX: line breaks (LF, CRLF or CR), indentation between tags and between attributes, comments and processing instructions anywhere, CDATA sections or character references instead of literal characters, quote style, attribute order, empty-element tags, an XML declaration, blank lines before it. Inside token elements, white space at the ends is ignored and a line break counts as a space.",
["inputs"],"all documents and all ways of formatting the same document",
"the tests use one indentation style with LF breaks and never compare two formattings; comments, CDATA, CR and references inside tokens do not occur",
[X,T,U,N],[("line breaks become spaces","XmlToMathMLAdapter._remove_line_breaks"),("text nodes joined and stripped","ElementsToMathMLAdapter._convert_element"),("white space normalised","WhiteSpaceNormalizer")])
prop("C03","All formulas of a document are converted, in order, and nothing else",
"Every math element of a document is converted wherever it is embedded, with or without the 'mml:' name prefix that MS Word writes (on any subset of the tags), and the result is the LaTeX of the formulas in document order, separated by one space, formulas with empty LaTeX being skipped. Markup, text and attributes outside the (non-nested) math elements contribute nothing; a document without formulas gives the empty string.",
["inputs"],"all documents with any number of formulas at any depth of any surrounding markup, prefixed or not",
"the tests have one formula per document, always directly below the root or as the root; one document uses the prefix",
[C,X],[("search for math elements at any depth","XmlToMathMLAdapter._mathml_elements"),("prefix removal","XmlToMathMLAdapter._remove_ms_word_prefixes"),("joining formulas","MathMLToLaTeX.convert")])
prop("C04","The LaTeX is one trimmed line with single spaces",
"Whenever a conversion succeeds, the result has no white space at either end, no white space other than the plain space (so no line break, tab or no-break space), and no two spaces in a row.",
["inputs"],"all documents for which conversion succeeds",
"tests compare a few fixed outputs; white space can enter from element text, attributes, symbol tables, empty operands, tables and joins in any combination",
[U,N,C],[("white space normalisation of each formula","Math.convert / WhiteSpaceNormalizer"),("joining formulas","MathMLToLaTeX.convert")])
prop("C05","Wrong child counts are always reported, and only then",
"A conversion fails with the library's InvalidNumberOfChildrenError exactly when some converted element has a wrong number of child elements: other than 2 for mfrac, mroot, msup, msub, munder and mover, other than 3 for msubsup and munderover, fewer than 3 for mmultiscripts. The message names the tag of the first such element in conversion order, the required number and the actual number, and no partial LaTeX is returned. Elements that are not converted (inside mphantom or an unselected maction alternative) never cause it.",
["inputs"],"all element trees: every tag, every child count, every position of one or several offending elements",
"one test per tag with one wrong count at top level; too few children, deep positions, several offenders, hidden content and message contents are untested",
[U,R],[("child count checks","convert methods of MSup, MSub, MFrac, MRoot, MSubsup, GenericUnderOver, MUnderover, MMultiscripts")])
prop("C06","Malformed input is repaired exactly or rejected, never misread",
"For input that is not well-formed XML, the conversion either raises an error or returns exactly the LaTeX of the same document without its malformed attributes (attributes lacking a quoted value); it never returns LaTeX in which anything else is missing, added or changed. It does succeed when every malformed attribute stands in a start tag that is not self-closing and either has an unquoted value or is the last attribute of the tag, with at most four different malformed attributes in the document, however many tags repeat them.",
["inputs","fault_sequences"],"all ways of damaging a document: any number, kind and position of malformed attributes, truncation, stray or missing tags, undefined entities, trailing content",
"one test has one attribute without value and one has an unrecoverable document; repeated repairs and damage near similar text are not covered",
[X,E],[("bounded parse-and-repair loop","XmlToMathMLAdapter._mathml_elements"),("attribute repair","ErrorHandler.fix_error")],
[("repair attempts","at most five parses per document","XmlToMathMLAdapter._mathml_elements"),("pending XML text","document with the attributes repaired so far removed","XmlToMathMLAdapter._xml")])
prop("C07","Every well-formed document with valid child counts converts",
"Converting a (namespace-)well-formed document in which every converted element has its required number of children returns a string and raises nothing: with elements and attributes the library does not know, empty elements, missing or odd attribute values, any Unicode text, any mixture of text, comments and elements as content, any number of children and any nesting up to a depth of at least 80.",
["inputs"],"all well-formed documents satisfying the child-count rules, up to depth 80",
"tests only contain sensible content for each element; empty and unknown elements, unusual attributes, unusual nesting and unusual characters are barely sampled",
[A,U,T,S],[("fallback converter for unknown elements","MathMLElementToLatexConverterAdapter.to_latex_converter"),("defaults for missing attributes and text","usecases, ElementsToMathMLAdapter")])
prop("C08","Fractions and roots take their operands in the right places",
"mfrac gives \\frac{numerator}{denominator}; with the attribute bevelled set (to something other than 'false' or the empty value) it gives numerator/denominator, each operand of more than one character in \\left( \\right). msqrt gives \\sqrt{children joined by spaces} and mroot with base and index gives \\sqrt[index]{base}. This holds for any operands and at any nesting depth.",
["inputs"],"all operand contents, attribute values and nestings of mfrac, msqrt and mroot",
"a handful of fixed examples with simple operands; no nesting of fractions in roots, no empty or compound operands, one value of bevelled",
[U,W],[("templates","MFrac, MRoot, MSqrt"),("parenthesis rule","ParenthesisWrapper.wrap_if_more_than_one_char")])
prop("C09","Scripts attach to the right base, parenthesised only if compound",
"msup, msub and msubsup give base^{sup}, base_{sub} and base_{sub}^{sup}, with every script in braces. The base is put in \\left( \\right) exactly when its element has more than one child element and its LaTeX is longer than one character, or its LaTeX ends with a script (x^{2} as the base of another); a base whose LaTeX is empty or only white space is written {}. In all other cases it appears as it is.",
["inputs"],"all base and script contents and all nestings of msup, msub and msubsup",
"few examples, all with mrow bases of three tokens or single tokens; other compound bases, one-character or empty results, and scripts nested in bases are not covered",
[U,W],[("templates and base rule","MSup, MSub, MSubsup"),("parenthesis rule","ParenthesisWrapper.wrap_if_more_than_one_char")])
prop("C10","Multiscripts put pre- and postscripts on the right side of the base",
"mmultiscripts gives, in this order: \\_{sub}^{sup} of the first pair after mprescripts, if mprescripts is the second child or the fourth and a full pair follows it; the base, in \\left( \\right) exactly when its LaTeX contains white space or ends with a script, and written {} when it is empty; and _{sub}^{sup} of the first pair after the base, unless mprescripts comes second. Empty scripts (none) leave empty braces.",
["inputs"],"all bases, scripts, numbers of children and positions of mprescripts",
"six examples; children counts around the thresholds, several pairs and misplaced mprescripts are not covered",
[U],[("prescript and postscript selection","MMultiscripts")])
prop("C11","Under- and overscripts keep roles and use accents when there is one",
"munder and mover give \\underset{script}{base} and \\overset{script}{base}, unless the script's LaTeX is exactly \\hat, \\bar, \\underbrace or \\overbrace, which gives script{base} instead, for both elements. munderover gives base_{under}^{over} with the base as it is, except that a base whose LaTeX ends with a script is put in \\left( \\right) and an empty one is written {}.",
["inputs"],"all bases and scripts, every symbol as script, all nestings",
"about eight examples with two accents; other accents, accents that are not exact matches, and nesting are not covered",
[U],[("templates","GenericUnderOver, MUnderover"),("accent rule","UnderOverSetter.apply")])
prop("C12","Fenced lists keep all items with the right fences and separators",
"An mfenced without a table below it gives \\left<open>, the children in order, \\right<close>, where a missing or empty open or close attribute means ( or ). Between children stand the characters of the separators attribute in order, the last one repeated when there are more gaps than separators, and commas when the attribute is missing or empty; no separator follows the last child.",
["inputs"],"all numbers of children, separator lists of every length, fence strings and nestings",
"seven examples with up to four children; long lists, more separators than gaps, single and no children and nested fences are not covered",
[U,W],[("fences","Vector, GenericWrapper"),("separator cycling","JoinWithManySeparators")])
prop("C13","Tables keep rows and cells; the fences choose the matrix kind",
"mtable gives its rows joined by ' \\\\ ' and mtr its cells joined by ' & ', in order, empty cells included; a table inside another table of the same formula, at any depth, is wrapped in \\begin{matrix}...\\end{matrix} and an outermost one is not. An mfenced with a table anywhere below it gives the environment pmatrix for ( ), bmatrix for [ ], Bmatrix for { }, vmatrix for | |, Vmatrix for || ||, bmatrix for other equal fences (or none), and otherwise \\left<open>\\begin{matrix}...\\end{matrix}\\right<close>, containing the LaTeX of its children, separated by spaces.",
["inputs"],"all table shapes, nesting depths of tables and fences, and pairs of fence strings",
"about eight matrix examples, one of them nested; ragged and empty rows, tables below other constructs, deeper nesting and other fences are not covered",
[U],[("environment choice","Matrix._command, MFenced"),("rows and cells","MTable, MTr"),("nested tables","MTable._add_flag_recursive_if_name")],
[("inner-table flag","set on a table that has a table above it","element attributes")])
prop("C14","Each enclosure notation gives its own LaTeX around all children",
"menclose puts the LaTeX of all its children, joined by spaces, in the form its notation selects: actuarial \\overline{\\left.X\\right|}, radical \\sqrt{X}, box, roundedbox and circle \\boxed{X}, left \\left|X, right X\\right|, top \\overline{X}, bottom \\underline{X}, updiagonalstrike \\cancel{X}, downdiagonalstrike \\bcancel{X}, updiagonalarrow \\cancelto{}{X}, verticalstrike and horizontalstrike \\hcancel{X}, madruwb \\underline{X\\right|}, phasorangle {\\angle \\underline{X}}. A missing or any other notation gives \\overline{\\left.\\right)X}.",
["inputs"],"all notations, known and unknown, any children, any nesting",
"one test per notation with one fixed content; unknown notations, nested enclosures, empty and long contents are not covered",
[U],[("templates","MEnclose")])
prop("C15","Groups are transparent, phantoms vanish, actions and errors show content",
"mrow, mpadded, mstyle, mtd and every element the library does not know give exactly the LaTeX of their child elements in order, separated by spaces, and nothing of their own, text included; mphantom gives nothing. merror gives \\color{red}{children joined by spaces}. maction of type toggle or without type gives all alternatives joined by ' \\Longrightarrow ', of any other type its first child only.",
["inputs"],"all contents, all element names and all nestings",
"about ten examples; unknown elements with and without children, nested groups, empty groups and action types beyond two are not covered",
[A,U],[("dispatch with fallback","MathMLElementToLatexConverterAdapter"),("templates","GenericSpacingWrapper, Void, MError, MAction")])
prop("C16","Every symbol has one fixed translation per kind of token",
"The content of mi, mo and mn, with white space normalised, is translated as a whole by the library's symbol tables: named symbol or operator first, then glyph, then number form (superscript, subscript, circled and fraction characters), then accented letter, then special font letter (the last two not in mn); an empty entry counts as absent. Content without an entry, including every ASCII word and number, comes out unchanged, and each of the over 2000 characters in the tables gives the same LaTeX wherever its token stands.",
["inputs"],"all characters of the symbol tables and all other token contents, in mi, mo and mn, anywhere in a formula",
"525 sampled symbols as the only content of a formula; most operator entries, the precedence between tables, near-misses and uses inside other constructs are not covered",
[S,U],[("tables","syntax.py"),("lookup order","Character, Operator, MN, HashUTF8ToLtXConverter")])
prop("C17","mathvariant selects exactly its font commands for identifiers",
"An mi with a known mathvariant gives its translated content wrapped as: bold \\mathbf, italic \\mathit, double-struck \\mathbb, script \\mathcal, fraktur \\mathfrak, sans-serif \\mathsf, monospace \\mathtt; bold-italic, bold-fraktur, bold-script and bold-sans-serif \\mathbf around \\mathit, \\mathfrak, \\mathcal and \\mathsf; sans-serif-italic \\mathsf around \\mathit and sans-serif-bold-italic all three, \\mathbf outermost. Any other or missing value leaves it unwrapped; the attribute affects only the mi that carries it, and mo and mn ignore it.",
["inputs"],"all variants and all other values, all contents, all positions and neighbours",
"one test uses one variant on one letter",
[U],[("variant selection","MI._wrap_in_math_variant, MI._get_math_variant")])
prop("C18","Text keeps all its characters in order, split into styled runs",
"mtext gives, in order, every maximal run of ASCII letters, digits and white space wrapped in the command of its mathvariant (bold \\textbf, italic \\textit, bold-italic \\textbf{\\textit{}}, double-struck \\mathbb, monospace \\mathtt, fraktur and bold-fraktur \\mathfrak, otherwise \\text), and every other character translated on its own like an identifier without variant. White space at the ends is dropped, and every white space character inside counts as a space, so words never fuse; a command followed by a translation that begins with a letter is kept apart from it by a space.",
["inputs"],"all texts over all characters, all variants, all positions",
"about ten texts, nearly all a single run of letters; alternation of runs and symbols, other white space and symbols at the ends are not covered",
[U,S],[("run splitting","MText"),("run commands","TextCommand")])
prop("C19","Braces and environments of the LaTeX are balanced",
"If no token text and no fence or separator attribute contains a brace or a backslash, the result's braces are balanced (never negative from the left, zero at the end, not counting escaped braces), and its \\begin and \\end commands pair up in properly nested order with equal environment names inside the same brace group.",
["inputs"],"all documents without braces or backslashes in their text and fences",
"tests compare fixed outputs; an unbalanced combination of templates or table entries is only seen if it is one of the samples",
[U,S,W],[("templates","all converters in usecases.py"),("table entries","syntax.py")])
prop("C20","No token is lost, invented, duplicated or reordered",
"Every token (mi, mo, mn, mtext) of a formula that is not hidden appears in the LaTeX exactly once, and hidden ones (inside mphantom, an unselected maction alternative, a token, or multiscripts children other than base, first post- and first prescript pair) never. They appear in document order, except that the index of mroot and the script of munder and mover precede their base, and prescripts precede the base of mmultiscripts.",
["inputs"],"all formulas of any shape and size",
"tests check small formulas against fixed strings; loss or duplication that needs many children, depth or certain combinations is not covered",
[U,A,T],[("templates use each converted child once","all converters in usecases.py"),("tree building keeps all child elements","ElementsToMathMLAdapter")])
prop("C21","A sub-expression converts the same in every context",
"The LaTeX of an element does not depend on where it stands: replacing a sub-expression by a placeholder identifier and substituting the sub-expression's own LaTeX for the placeholder's gives the LaTeX of the whole, for all siblings, ancestors and depths. The only exceptions are the documented context rules: parentheses around compound or long operands, script bases that are empty or end with a script, a script that is an accent, and tables inside tables or fences.",
["inputs"],"all pairs of context and sub-expression",
"tests convert isolated constructs; interference of a construct with distant ancestors, siblings or its position is not covered",
[U,A],[("each converter only uses the LaTeX of its children","all converters in usecases.py"),("context-free dispatch by tag","MathMLElementToLatexConverterAdapter")])
prop("C22","Only structure, token text and the known attributes shape the LaTeX",
"Adding, removing or changing any attribute other than mathvariant of mi and mtext, open, close and separators of mfenced, notation of menclose, bevelled of mfrac and actiontype of maction, on any elements of a formula, and adding, removing or changing any text directly in elements that are not tokens (mi, mo, mn, mtext), changes neither the LaTeX nor whether the conversion fails. This includes these very attributes on any other element, and every presentation attribute of MathML.",
["inputs"],"all formulas, all sets of attributes and stray texts without meaning, at any of the elements",
"the tests carry few attributes and never compare a formula with and without them; stray text, attributes that mean something only elsewhere, and combinations of attribute, element and position are not covered",
[U,A,T],[("each converter reads only its own attributes","all converters in usecases.py"),("attributes and text of an element","ElementsToMathMLAdapter._convert_attributes, _convert_element")])
prop("C23","Commands come out whole and never fuse with what follows them",
"If no token text contains a backslash and no fence or separator attribute contains a backslash or an ASCII letter, every control word of the result (a backslash and all the letters that follow it) is one of those in the library's symbol tables and templates: no command is cut, misspelt, or runs into the letters of the next token, whatever stands next to what.",
["inputs"],"all documents without backslashes in their text and without letters in their fences",
"tests compare fixed outputs; that a command of one token touches the letters of another needs particular neighbours in particular constructs",
[U,S,W],[("spaces between children","join calls of the converters in usecases.py"),("templates","usecases.py"),("table entries","syntax.py")])
prop("C24","Every conversion ends, with effort polynomial in the document's size",
"Every call of convert returns or raises, however the document is nested, how long it is and how it is damaged. The effort (lines of the library executed) grows at most polynomially with the document: doubling a document, by repeating its parts or by nesting a construct twice as deep, multiplies it by a small bounded factor (at most 16), never exponentially. No text of a few thousand characters keeps a conversion busy for more than seconds.",
["inputs"],"all documents of any size, nesting and damage, and all ways of making them larger",
"tests convert small documents once; effort that multiplies with each level of nesting, endless repair loops and regular expressions that backtrack without bound need large, deep or hostile documents to show",
[U,A,X,E,N,C],[("each element converted once","all converters in usecases.py, MathMLElementToLatexConverterAdapter"),("bounded repair loop","XmlToMathMLAdapter._mathml_elements"),("patterns of the repair","ErrorHandler")],
None,("MathMLToLaTeX.convert: returned string or raised exception","lines executed (sys.settrace, in the test process only)"))
prop("C25","Grouping and cutting a formula never change its LaTeX",
"Putting any run of neighbouring elements of a row (math, msqrt, menclose, merror, or a group) into a group (mrow, mstyle, mpadded, mtd or any element the library does not know), or any single operand of another construct, and removing such a group again, changes neither the LaTeX nor whether the conversion fails; only the number of children of the base of msup, msub and msubsup, and the children of mmultiscripts, matter. A formula cut into several between any of its children gives the LaTeX of the parts, separated by single spaces.",
["inputs"],"all formulas, all groupings and regroupings of them, and all places to cut them",
"tests fix one grouping per formula; that the other groupings give the same needs pairs of documents, over every construct and every kind of neighbour",
[U,A,W],[("groups are transparent","GenericSpacingWrapper"),("rows joined by spaces","Math, MSqrt, MEnclose, MError"),("joining formulas","MathMLToLaTeX.convert")])
prop("C26","Every left delimiter has its right one, properly nested",
"If no token text has a brace or backslash (an mo may be a single brace), fences are a brace or free of braces, backslashes and ASCII letters, separators likewise, no fenced table has an open but no close fence, and no menclose has one of the one-sided notations left, right and madruwb, then every \\left of the LaTeX has its \\right, in the same brace group and the same environment, properly nested.",
["inputs"],"all documents with such contents: all fences, operators, tables, bases in parentheses and enclosures in each other",
"tests compare fixed outputs with one pair of delimiters; delimiters from operators, fences, bases and enclosures inside each other are not combined",
[U,W,S],[("fences","Vector, Matrix, GenericWrapper"),("parentheses","ParenthesisWrapper, BracketWrapper"),("delimiter operators","syntax.py")])
prop("C27","Every script has a base of its own, never a double script",
"If no token text or fence has a brace or backslash, or brings a script or prime of its own (^, _, ', primes, superscript characters), and no enclosure is the one-sided 'left', then every ^ and _ of the LaTeX that is not escaped is followed by a braced group and has something of its own to stand on: an atom before it in the same group, row or pair of delimiters, with at most one subscript and one superscript. So a script is never put on what belongs to its neighbour, never on nothing, and never on a base that has a script of that kind already (TeX's double superscript).",
["inputs"],"all formulas with such contents: scripts on all kinds of bases, on scripts, on bases without visible content, in each other and next to everything",
"tests have simple bases with one script; scripts whose base is itself a script, empty, or ends with one inside groups, enclosures and tables are not combined",
[U,W],[("base rule","_handle_base_child of MSup, MSub, MSubsup; MUnderover; MMultiscripts"),("scripts in braces","BracketWrapper"),("parentheses","ParenthesisWrapper")])
prop("C28","Converting consults and changes nothing but the document",
"A conversion depends on its argument alone and leaves nothing behind but its result. Whatever a document refers to (external entities, document types, parameter entities, stylesheets, links, namespaces, file names in text), no file, directory, network address, environment variable, clock, random number or process is consulted or touched, no text is printed, no warning is shown, and no setting of the interpreter (recursion limit, locale, working directory, signal handlers, codecs, standard streams, garbage collection, attributes of loaded modules) is changed, also when the document is repaired or rejected. The result is the same whatever is found at those places and however the process is set up.",
["inputs","histories","configurations"],"all documents, histories of calls, contents of the places referred to, settings of the process",
"tests convert documents without references in one process and look at the LaTeX only; what a call does besides is not seen",
[X,C,U],[("entry point","MathMLToLaTeX.convert"),("parsing and repair","XmlToMathMLAdapter / ErrorHandler"),("walk","all converters")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(r,ensure_ascii=False)+"\n" for r in rows))
print(len(rows))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in rows: jsonschema.validate(r,sch)
