import json
U='src/mathml_to_latex/el_to_tex/usecases.py'; A='src/mathml_to_latex/el_to_tex/adapter.py'; S='src/mathml_to_latex/syntax.py'
C='src/mathml_to_latex/converter.py'; X='src/mathml_to_latex/xml_to_mathml/adapter.py'; E='src/mathml_to_latex/xml_to_mathml/services/error_handler.py'
D='src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py'; W='src/mathml_to_latex/el_to_tex/services/wrapper.py'; N='src/mathml_to_latex/el_to_tex/services/normalizer.py'; P='src/mathml_to_latex/el_to_tex/protocols.py'
OBS=['return value or exception of MathMLToLaTeX.convert(text)']
props=[]
def p(id,title,st,over,q,why,files,mech):
    assert len(title)<=80,title
    props.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=OBS,hook_needed=None)))

p('C01','Every visible token is kept exactly once and in reading order',
 "For every well-formed MathML document, each identifier, number, operator and text token that stands in a rendered position appears in the LaTeX exactly once, none is lost, duplicated or invented, and siblings keep document order; the only parts that leave nothing are the documented invisible ones (mphantom content, alternatives of a non-toggle maction after its first child, text of unknown leaf elements, prescript separators, invisible operators). Elements that render their arguments in another order (a root's index before its radicand, prescripts before the base, an accent before what it marks) use that fixed order at every nesting level. This holds whatever mixture and depth of elements surrounds the token and however many tokens the document has.",
 ['inputs'],'All trees over the supported element vocabulary with uniquely marked tokens, any nesting, width and attributes.',
 'The tests hold one small document per element; loss or duplication needs a particular parent/child combination or position that no test contains.',
 [U,A,D,C],[('child-wise conversion of every element',U),('tag dispatch with a transparent fallback',A),('DOM to element conversion',D)])

p('C02','LaTeX commands never fuse with the letters that follow them',
 "In the output every control word (backslash plus letters) is one that the converter emits for an element, symbol or font of the document: whatever tokens are adjacent, a command is never glued to a following letter to form another command name. White space separates the renderings of sibling elements in every row-like container. Inside one text token a command is separated from a letter that follows it.",
 ['inputs'],'All sequences of symbol, letter, digit and text tokens in every container and argument position.',
 'Fusion depends on the pair of neighbours; tests sample few pairs.',
 [U,A,S],[('space joined children',U),('separation inside text tokens',U)])

p('C03','Output is structurally valid LaTeX: groups, fences and environments balance',
 "For every accepted document outside the listed findings, braces in the output balance, every \\left has its \\right and every \\begin its matching \\end, properly nested, with a delimiter after each \\left and \\right. Characters of number, identifier and text tokens that are special to LaTeX (such as % # $ & _ { }) come out escaped and so never open, close, comment out or split anything, and alignment marks and row breaks come only from tables.",
 ['inputs'],'All documents over the supported elements, attribute values and token text that contains LaTeX-special characters, outside the known findings.',
 'Balance is a relation over the whole output for every nesting; tests compare a few literals.',
 [U,W,S],[('wrappers that open and close in one place',W),('escaping of special characters',U+' '+S)])

p('C04','Sub- and superscripts attach to exactly the base they are written on',
 "msub, msup and msubsup render their base followed by _{subscript} and/or ^{superscript}, each script complete inside its own braces and subscript before superscript. A base of several parts, or one that already carries scripts, also when hidden in single-child rows, is grouped with \\left( \\right) so the script applies to all of it; a single-token base is left ungrouped. This holds for every content of base and scripts at every depth.",
 ['inputs'],'All bases and scripts built from any elements, nested to any depth.',
 'Tests have a handful of simple bases; grouping depends on the structure of arbitrary subtrees.',
 [U],[('base grouping and script braces of msub, msup, msubsup',U)])

p('C05','Fractions and roots keep their arguments apart and in the right roles',
 "mfrac renders \\frac{numerator}{denominator}; with a bevelled attribute that is neither empty nor \"false\" it renders numerator/denominator, each longer than one character parenthesised with \\left( \\right). msqrt renders \\sqrt{all children}, mroot renders \\sqrt[index]{radicand} with the index braced when it contains a closing square bracket. This holds for every content and nesting, so the arguments can be read back unambiguously.",
 ['inputs'],'All numerators, denominators, radicands and indices, all values of the bevelled attribute, any nesting.',
 'Tests check one or two literals per element.',
 [U],[('mfrac, msqrt, mroot rendering',U)])

p('C06','Fenced lists keep fences and put the given separators between all items',
 "mfenced without a table in it renders \\left, the opening fence, its children with separators between them, \\right and the closing fence; a missing or empty fence is a parenthesis. The i-th gap gets the i-th separator (white space in the attribute ignored), the last separator repeats when there are fewer than gaps, extra ones are ignored, and without separators a comma is used. This holds for any number of children, separators and fence strings, and each child is rendered as it would be anywhere else.",
 ['inputs'],'All open/close/separators values (present, absent, empty, long, non-ASCII), 0..n children of any kind.',
 'Tests use at most a few separators and children.',
 [U,W],[('fence defaults and wrapping',U),('separator join',W)])

p('C07','Tables become matrices of the right kind with every row and cell in place',
 "A table inside a fence becomes a matrix environment selected by the pair of fences: () pmatrix, [] bmatrix, {} Bmatrix, | | vmatrix, || || Vmatrix, no fences bmatrix, any other pair \\left fence, matrix, \\right fence. Rows are separated by \\\\ and cells by &, so an r by c table gives exactly r-1 row breaks and c-1 alignment marks per row at its own level, with empty cells and rows kept and contents in order. A table inside another table is wrapped in its own matrix environment so that its marks do not leak into the outer one.",
 ['inputs'],'All table shapes (ragged, empty, wide), cell contents, fence pairs and table nestings.',
 'Tests contain small tables and only some fence pairs; cell placement is a relation over all shapes.',
 [U],[('environment choice by fences',U),('row and cell joining',U),('marking of inner tables',U)])

p('C08','Under- and overscripts are set on the right side of the right content',
 "mover renders \\overset{script}{content} and munder \\underset{script}{content}, except that a script that is a hat, bar, underbrace or overbrace becomes that command applied to the content. munderover renders content_{under}^{over} with content of several parts or with scripts of its own grouped in braces. This holds for any content and script at any depth.",
 ['inputs'],'All contents and scripts, including every accent character, any nesting.',
 'Tests sample a few scripts; roles can be swapped only for particular contents.',
 [U],[('under/over setter and accents',U),('munderover',U)])

p('C09','Multiscripts keep every pre- and postscript pair at its place',
 "mmultiscripts renders all prescript pairs (children after the prescripts mark) before the base and all postscript pairs after it, each pair in order as _{sub}^{sup}, consecutive postscript pairs separated by an empty group, a missing last superscript left empty. The base is grouped in \\left( \\right) when its rendering contains white space or it is compound. No pair is lost, moved or swapped for any number of pairs on either side.",
 ['inputs'],'All numbers of pre- and postscripts (odd ones included), any base and script contents, absent scripts (none).',
 'Tests cover one or two layouts with single pairs.',
 [U],[('pre- and postscript collection',U)])

p('C10','Enclosures, errors, actions and phantoms follow their documented rendering',
 "menclose renders the command of its notation around all of its children, unknown or absent notations as long division; merror colours its children red; mphantom leaves nothing at all. maction with actiontype toggle or none shows all alternatives joined by \\Longrightarrow, and with any other actiontype exactly its first child. This holds for every attribute value, child count and content.",
 ['inputs'],'All notation and actiontype values (known, unknown, empty, absent), any children.',
 'Tests hold one literal per notation with a single child layout.',
 [U,A],[('notation table',U),('action types',U),('void rendering of phantom',A)])

p('C11','Text tokens keep their words, spaces, symbols and font',
 "mtext splits its content into maximal runs of ASCII letters, digits and white space, each put in the text command of its mathvariant (\\text by default, \\textbf, \\textit, \\textbf{\\textit}, \\mathbb, \\mathtt, \\mathfrak), and other characters, each rendered as its symbol, all in order. White space between words is kept as one space, also when it is a non-breaking one. No character of the text is lost, reordered or moved in or out of the text command.",
 ['inputs'],'All strings over letters, digits, white space, punctuation, LaTeX specials and non-ASCII characters, all variants.',
 'Tests check a few fixed strings.',
 [U,S],[('splitting into runs',U),('text commands by variant',U)])

p('C12','Font variants wrap identifiers exactly and nothing else',
 "An identifier with one of the thirteen font mathvariants is wrapped in exactly that variant's command or commands in the fixed nesting order; normal, absent, empty and unknown variants add nothing. The rendering inside is the same as without the attribute. Variants on other elements, neighbours or ancestors do not change it.",
 ['inputs'],'All variant values crossed with all identifier contents (ASCII, Greek, symbols, words) and surroundings.',
 'Tests cover a few variant/letter pairs.',
 [U],[('math variant wrapping',U)])

p('C13','Each symbol has one fixed LaTeX rendering wherever it stands',
 "Every character of the symbol dictionaries renders as its LaTeX command: Greek letters, relations, arrows, operators, big operators, accented letters, styled letters and super/subscript digits each give the command for that very character in every token kind whose dictionary has it (symbols and styled or accented letters in identifiers and text, operators and styled or accented letters in operators, script digits and number forms in numbers). The rendering depends only on the token kind and its trimmed content, not on position, neighbours, surrounding white space or how the character is written in the XML. Invisible operators render as nothing.",
 ['inputs'],'All Unicode characters and all multi-character dictionary entries, as each token kind, in any surroundings.',
 'The tests list some pairs of over 2000 entries; the rest, and all characters outside the dictionaries, are unchecked.',
 [S,U],[('symbol dictionaries',S),('lookup order',U)])

p('C14','Numbers and ordinary words pass through verbatim',
 "A number token comes out digit for digit, signs, decimal points, separators and letters included, for any length; only LaTeX-special characters are escaped and single super/subscript digits mapped. An identifier or operator not in the dictionaries comes out as the very same string, and runs of inner white space become one space. Nothing is rounded, truncated, reformatted or case-changed.",
 ['inputs'],'All number-like and word-like strings of any length and script, not in the dictionaries.',
 'Tests have a few short numbers and words.',
 [U,S],[('verbatim fallback',U),('escaping',U)])

p('C15','Wrong argument counts are reported and everything else converts',
 "Conversion of a well-formed document raises InvalidNumberOfChildrenError naming the offending tag exactly when a rendered msub, msup, mfrac, mroot, mover or munder has not two children, an msubsup or munderover not three, an mmultiscripts fewer than three, or a non-toggle maction none. Every other well-formed document, with any elements known or unknown, empty or full, gives a string and no exception. Faulty elements in parts that are not rendered (phantoms, later action alternatives) raise nothing.",
 ['inputs'],'All child counts for all elements at all positions and depths, unknown elements, empty elements.',
 'Tests check one wrong count for a few elements at top level.',
 [U,P,A],[('count checks',U),('fallback converter',A)])

p('C16','The result depends on the XML content, not on how it is written',
 "Two documents with the same elements, attributes and text convert to the same LaTeX whichever way they are written: quote style, attribute order, character references or entities versus literal characters, CDATA sections, comments and processing instructions anywhere, XML declaration or DOCTYPE, self-closing or empty tags, white space and line breaks inside tags, between elements and around token text.",
 ['inputs'],'All pairs of surface serialisations of the same tree.',
 'Tests write each document in one way.',
 [X,D],[('line break handling and parsing',X),('text and attribute extraction',D)])

p('C17','The mml: prefix of word processors makes no difference',
 "A document whose tags (all or some of them, opening, closing or self-closing) carry the mml: prefix and namespace declaration converts exactly as the one without prefix. Text and attribute values that contain \"mml:\" are content and stay as they are.",
 ['inputs'],'All trees with any subset of elements prefixed, in any surface form; texts containing the prefix.',
 'Tests have one prefixed document.',
 [X],[('prefix removal',X)])

p('C18','Attributes without a quoted value are dropped without touching anything else',
 "A document that is well-formed except that some attributes have no value or an unquoted one converts exactly as the document without those attributes. This holds for any number of such attributes, on any elements, in any order and position among good attributes, and never changes text, other attributes or other elements.",
 ['inputs','fault_sequences'],'All documents with any number of valueless attributes injected at any tags.',
 'Tests have a few documents with one or two broken attributes.',
 [E,X],[('attribute repair',E),('parse and retry',X)])

p('C19','Malformed input is rejected, never silently truncated, and always terminates',
 "Text that is not well-formed XML and cannot be made so by dropping valueless attributes (truncated at any point, missing, crossed or misspelt closing tags, stray < or &, undefined entities, several roots, plain text, empty input) raises an XML parse error rather than returning a partial formula. The call always terminates quickly, whatever the input.",
 ['inputs','fault_sequences'],'All truncations and structural corruptions of valid documents, and arbitrary strings.',
 'Tests contain no malformed document other than broken attributes.',
 [X,E],[('bounded retries and re-raise',X)])

p('C20','Conversion is a pure function, whatever was converted before or concurrently',
 "The same input always gives the same output or the same error, in any order and number of conversions, after failures, on converter objects that are new or were used before, in several threads at once (each calling MathMLToLaTeX.convert) and in processes with different hash seeds or locales. No conversion changes the result of a later one.",
 ['histories','schedules','inputs'],'All sequences of conversions, repeated, interleaved with failing ones and run from several threads.',
 'Tests convert each document once in a fixed order in one thread.',
 [C,A,U,S],[('no state kept between conversions',C),('module tables are read only',S)])

p('C21','Every formula of the input is converted, once, and nothing else is',
 "The result is the conversions of all outermost math elements in document order, joined by one space, empty ones left out, wherever they stand in surrounding markup. Text and elements outside math contribute nothing, and an input without math gives the empty string. A math element inside another is rendered once, in its place.",
 ['inputs'],'All documents with 0..n math elements at any depth of host markup, with text around, and nested math.',
 'Tests have at most one or two math elements.',
 [X,C],[('selection of math elements',X),('joining of formulas',C)])

p('C22','Output is one trimmed line with single spaces',
 "For every accepted document the output has no line breaks, tabs or other white space than single ordinary spaces, none at the start or end, whatever white space the input contains. An empty formula gives the empty string.",
 ['inputs'],'All documents with arbitrary white space (tabs, line breaks, non-breaking and Unicode spaces) anywhere.',
 'Tests contain ordinary indentation only.',
 [U,N,X],[('white space normaliser',N)])

p('C23','Large and deep documents convert completely and in reasonable work',
 "Documents nested 100 levels deep through any elements, with thousands of siblings, rows, cells, scripts or fenced items, or with tokens of many thousand characters, convert to exactly what their structure says, without error. The work grows at most about quadratically with the size, and never doubles with a nesting level.",
 ['inputs'],'All element kinds nested or repeated up to the stated sizes.',
 'Tests are small; size-dependent loss, limits and exponential blow-up cannot show.',
 [U,A,D,X],[('one conversion per child',U),('iterative joins',W)])

p('C24','Rendering is compositional: a part renders the same in every context',
 "The rendering of a formula part depends only on the part itself, not on its siblings, ancestors or position, except for the documented context effects (grouping of compound bases, tables inside tables, fences around tables). Replacing a part by another one changes the output only at that part's place.",
 ['inputs'],'All pairs of a context with a hole and a part to fill it.',
 'Tests never put the same part into different contexts.',
 [U,A],[('recursive conversion without passed-down state',A)])

p('C25','Unknown and grouping elements are transparent, other attributes are ignored',
 "mrow, mpadded, mstyle, semantics, mtd and any unknown element render as their children separated by spaces, and an unknown element without child elements as nothing. Attributes other than those with a documented effect (fences and separators, bevelled, notation, actiontype, mathvariant on identifiers and text) never change the output, on any element, whatever their names and values.",
 ['inputs'],'All unknown element names and presentational attributes added to any documents.',
 'Tests use a few containers and attributes.',
 [A,U,D],[('generic spacing fallback',A),('attribute lookup by name',U)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
import re
for x in props:
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
