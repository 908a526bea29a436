#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
I = "include/textwolf/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe_at=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=[I+f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

prop("C01", "Well-formed encoded characters decode to exactly their code point",
 """For every supported encoding (UTF-8, UTF-16 and UCS-2/UCS-4 in both byte orders, ISO-8859-x) every well-formed encoded
 character is read as exactly the code point it encodes, and reading it consumes exactly its bytes.""",
 ["inputs","configurations"], "All byte sequences of one character, all encodings and byte orders, all character values.",
 "The charset test round-trips random samples of about a thousand characters per encoding through encoder and decoder together; it does not cover the whole code space and a compensating error in both directions stays invisible.",
 ["charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp","textscanner.hpp"],
 [("decoder of every character set encoding","value()/skip() members of the classes in namespace charset"),("reader","TextScanner::chr, TextScanner::operator++")])

prop("C02", "Malformed bytes never decode to a different valid character",
 """A byte sequence that is not a well-formed character of the declared encoding (broken continuation bytes, unpaired or misplaced surrogates)
 is never delivered as a valid Unicode character that it does not encode. Whatever the bytes are, the per-character buffer is never read or written out of its bounds.""",
 ["inputs"], "All byte sequences (not only well-formed ones) at any position of the source, for every variable-length encoding.",
 "Tests only feed bytes produced by the library's own encoder, i.e. well-formed input.",
 ["charset_utf8.hpp","charset_utf16.hpp","textscanner.hpp"],
 [("UTF-8 continuation byte check","charset::UTF8::value_impl"),("UTF-16 surrogate check","charset::UTF16::value_impl"),("per-character buffer","TextScanner::buf")])

prop("C03", "Encoding a character yields the standard bytes or a reference denoting it",
 """Printing a character in an encoding appends exactly the standard byte sequence of that character if the encoding can represent it. If it can not,
 a numeric XML character reference denoting exactly that character is appended in the same encoding; nothing else is ever appended.""",
 ["inputs","configurations"], "All Unicode scalar values, all encodings and byte orders.",
 "The test samples random characters and checks only the round trip; the escape for unrepresentable characters is not checked.",
 ["charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp","charset_interface.hpp"],
 [("encoders","print() members of the classes in namespace charset"),("numeric reference","charset::Encoder::encode")])

prop("C04", "ASCII view and structural classification of a character agree with its value",
 """For every character of every encoding the ASCII view of the character is its value if that is in the ASCII range and an out-of-band value otherwise, and a character is
 classified as XML structural character (bracket, quote, space, line end, ...) if and only if its value is that ASCII character. In particular no non-ASCII character is ever mistaken for markup.""",
 ["inputs","configurations"], "All characters in all encodings.",
 "Aliasing of a non-ASCII character with an ASCII one happens for isolated code points or lead bytes only; tests do not sample classification at all.",
 ["textscanner.hpp","char.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],
 [("ASCII view","asciichar() members of the classes in namespace charset"),("control character table","TextScanner::ControlCharMap"),("operations","TextScanner::control, TextScanner::ascii")])

prop("C05", "Reading a character is independent of access order and of interruption",
 """What is read for a character and where the next character starts does not depend on which views (ASCII, value, copy, classification) were taken before, in which order, how often,
 or on whether the byte source suspended the read at any byte and the call was repeated later. Advancing consumes exactly one character.""",
 ["inputs","schedules","histories"], "All sequences of view operations on a character, all suspension points between the bytes of a character, all encodings.",
 "Tests read each character once in a fixed order from a complete buffer.",
 ["textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp","sourceiterator.hpp"],
 [("lazy fetch of bytes","fetchbytes/value/skip members of the character sets"),("suspension","SrcIterator::operator*")],
 [("bufpos","number of bytes of the current character already fetched")])

prop("C06", "ISO-8859 code pages are the standard ones and the two directions are inverse",
 """For every supported ISO-8859 code page each byte maps to the character the ISO standard assigns to it and each character of the code page maps back to exactly that byte.
 Bytes the standard leaves undefined and characters outside of the code page never map to a character of the code page. Unsupported page numbers are refused.""",
 ["inputs","configurations"], "All 256 bytes and all characters of each of the code pages.",
 "The IsoLatin test uses code page 1 only, where the inverse map is the identity.",
 ["codepages.hpp","charset_isolatin.hpp"],
 [("code page tables","IsoLatinCodePage"),("inverse map","IsoLatinCodePage::invcode")])

prop("S01", "The scanner tokenises XML according to the token grammar it documents",
 """For every document the sequence of tokens the scanner delivers is the one of the XML token grammar: tag open, attribute name, attribute value, close, immediate close,
 header, doctype, comment/PI/CDATA boundaries and content between tags, each delivered once, in document order, with exactly the characters of the document.
 Markup-like characters inside quoted values, comments, processing instructions or CDATA sections never start or end another construct.""",
 ["inputs"], "All documents (all character sequences of any length).",
 "The scanner test prints the tokens of a few documents; a wrong or missing transition of the automaton shows only for particular character sequences such as ']]]>' or '--->'.",
 ["xmlscanner.hpp"],
 [("statemachine definition","XMLScannerBase::Statemachine"),("statemachine driver","XMLScanner::nextItem")],
 [("state","current state of the token automaton"),("tokstate","progress inside of a token")])

prop("S02", "Scanner results do not depend on how the input is cut into chunks",
 """If the byte source runs out of data at any point, the scan call can be repeated after feeding more data and the complete sequence of tokens (types, contents, errors)
 is the same as if the whole document had been available at once.""",
 ["schedules","inputs"], "All documents and all ways to cut them into chunks, including cuts inside of characters, entities and delimiters.",
 "Tests scan complete documents from memory; the number of cut positions times parser states is out of reach of samples.",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp"],
 [("saved progress","XMLScanner::TokState"),("driver","XMLScanner::nextItem"),("suspension","SrcIterator::operator*")])

prop("S03", "Line ends are normalised and every content character is delivered exactly once",
 """In delivered content every line end of the document (CR LF, CR or LF) appears as exactly one line feed,
 and every other character that is not markup or part of a reference appears exactly once and unchanged, in any content or attribute value.""",
 ["inputs"], "All content and attribute values.",
 "CR handling matters only at particular positions (CR at the end of a token, CR CR LF).",
 ["xmlscanner.hpp"], [("token parser","XMLScanner::parseToken / skipToken"),("token state","XMLScanner::TokState")])

prop("S04", "Entity references are expanded to the character they denote or reported",
 """A numeric character reference (decimal or hexadecimal) and each of the five predefined entities delivers the character it denotes in the output encoding, a user defined
 entity delivers the character registered for its name. A reference that is none of these is delivered unchanged or reported as error; it never turns into a different character.""",
 ["inputs","configurations"], "All reference texts; all entity maps.",
 "Tests contain a handful of references and no user defined entity map.",
 ["xmlscanner.hpp"], [("entity parser","XMLScanner::parseEntity, parseNumericEntity..., pushEntity"),("entity map","XMLScanner::EntityMap")])

prop("S05", "Masking out token types does not change the remaining token stream",
 """Asking the scanner to report only some token types leaves the reported tokens unchanged: the same tokens, contents and errors of the selected types are delivered in the same order
 and at the same positions as when everything is reported.""",
 ["inputs","configurations"], "All documents and all masks.",
 "The unmasked and the masked path are different code (parse and skip); tests never compare them.",
 ["xmlscanner.hpp"], [("skip path","XMLScanner::skipToken"),("parse path","XMLScanner::parseToken"),("mask test","XMLScanner::nextItem")])

prop("S06", "Every document is either scanned to its end or ends in a reported error",
 """Scanning always makes progress and ends: at the end of the input with the end token or an error token, and an error token always comes with an error code and its text.
 Input that ends inside of a markup construct is an error, the scanner never reads past the end of the input, never loops, and its internal-consistency errors are unreachable.""",
 ["inputs"], "All documents including truncated and malformed ones.",
 "Truncation inside each of the constructs is not tested; endless loops show only for particular truncations.",
 ["xmlscanner.hpp"], [("error transitions","XMLScannerBase::Statemachine"),("driver","XMLScanner::nextItem"),("error text","XMLScannerBase::getErrorString, XMLScanner::iterator")])

prop("W01", "Everything the printer accepts is well-formed XML",
 """For every sequence of print calls that all report success the produced text consists of balanced, properly nested tags with attributes only inside of open tags,
 each attribute having exactly one quoted value, the header and document type only at the start.""",
 ["histories","configurations"], "All call sequences of the printer API, all initial modes.",
 "No test calls the printer at all.", ["xmlprinter.hpp"], [("typestate","XMLPrinter state member and its checks"),("tag stack","TagStack")],
 [("state","position in the document: init, content, tag attribute, tag element")])

prop("W02", "A refused print call reports an error, writes nothing and changes nothing",
 """Whenever a print call returns failure an error is available to the caller, the output buffer is left as it was and the printer is in the same state as before the call.
 Whenever it returns success the requested construct has been written. A call that fits the position in the document is accepted.""",
 ["histories","fault_sequences"], "All call sequences and all failure reasons.",
 "No test calls the printer at all.", ["xmlprinter.hpp"], [("failure returns","public bool methods of XMLPrinter"),("error","XMLPrinter::lasterror")])

prop("W03", "Printed values survive scanning: escaping is complete and matches the scanner",
 """Every character of a printed attribute value or content is written so that the scanner delivers exactly this character again: characters that are markup in that position are
 escaped, with references the scanner maps back to the same character, and no other character is altered.""",
 ["inputs"], "All characters at all value positions.",
 "No test prints values and reads them back.", ["xmlprinter.hpp","xmlscanner.hpp"], [("escaping","XMLPrinter::printToBufferAttributeValue / Content"),("unescaping","XMLScanner entity handling")])

prop("B01", "Fixed-size output buffer never exceeds its memory and flags what does not fit",
 """The fixed-size buffer never reads or writes outside of the memory it was given, its size never exceeds its capacity, data that did not fit is flagged as overflow
 and never silently dropped while the content before is kept. Only memory it allocated itself is released, exactly once.""",
 ["inputs","histories"], "All capacities, all sequences and sizes of operations.",
 "Tests use a single large buffer and never fill it.", ["staticbuffer.hpp"], [("bounds","StaticBuffer members")])

prop("B02", "The tag stack returns tags in reverse order of pushing and stays in its memory",
 """The stack of open tags returns for every sequence of pushes and pops exactly the tag names pushed, last in first out, byte for byte and of any length, reports underflow instead of
 reading garbage and never accesses memory outside of what it allocated. If memory runs out it is unchanged.""",
 ["histories","inputs","fault_sequences"], "All push/pop sequences, all tag lengths, allocation failure at any allocation.",
 "The tag stack is not exercised by the tests.", ["xmltagstack.hpp"], [("stack layout","TagStack::push/top/pop")])

prop("M01", "Copying and assigning library objects never releases memory twice or leaks",
 """Every object of the library that owns memory or another resource can be copied, assigned and destroyed in any order without a double release, a dangling alias or a leak,
 or it refuses to be copied at compile time. This includes construction that fails with an exception.""",
 ["histories","programs"], "All classes that release something in their destructor; all orders of copy, assignment, destruction.",
 "Double release needs an assignment of an object the tests only construct once.",
 ["staticbuffer.hpp","xmltagstack.hpp","istreamiterator.hpp","xmlpathautomaton.hpp","xmlprinter.hpp"], [("destructors, copy constructors, assignment operators","all classes with a user defined destructor")])

prop("M02", "A copy of a scanner or selector continues exactly like the original",
 """A copy of a parser object taken at any moment has the same remaining behaviour as the original: every piece of state that influences later results is taken over.""",
 ["histories"], "All moments of copying and all classes with user written copy operations.",
 "A forgotten member shows only if the object is copied in the middle of a token; no test copies a parser.",
 ["xmlscanner.hpp","textscanner.hpp","xmlhdrparser.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","xmlprinter.hpp","istreamiterator.hpp","sourceiterator.hpp","cstringiterator.hpp"],
 [("copy constructors and assignment operators","all classes with a user written one")])

prop("M03", "Only legal long jumps: suspension never skips a destructor or corrupts a frame",
 """When the byte source suspends a read by a non-local jump no object with a non-trivial destructor, no caught exception and no half-done one-time initialisation
 is alive on any stack frame between the resuming call and the byte source.""",
 ["schedules","programs"], "All call paths from the public scan entry points to the byte source.",
 "A skipped destructor is a leak or deadlock visible only under suspension at one call site.",
 ["sourceiterator.hpp","xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp"], [("suspension","SrcIterator::operator*"),("frames","all functions on call paths to it")])

prop("M04", "No hidden shared mutable state and no writes to the input",
 """Independent parser, printer and selector objects do not influence each other: the library keeps no mutable global or static state apart from constant tables built once,
 and nothing ever writes to the input handed in by the user.""",
 ["schedules","programs"], "All functions of the library, all interleavings of independent objects.",
 "Interference needs two objects used alternately or concurrently; tests use one at a time.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","codepages.hpp","xmlprinter.hpp","xmlpathselect.hpp","exception.hpp"], [("stores to objects with static storage duration","all functions")])

prop("M05", "Stack consumption does not grow with the document",
 """No operation of the library recurses: the stack depth of every public operation is bounded by a constant independent of nesting depth, length or content of the document or expression.""",
 ["inputs","programs"], "All inputs; all call paths of the library.",
 "Overflow shows only for inputs deeper than any test.",
 ["xmlscanner.hpp","xmlpathselect.hpp","xmlprinter.hpp","xmlpathautomatonparse.hpp","xmlhdrparser.hpp"], [("call graph","all library functions")])

prop("M06", "Every code has its own text and text lookups never go out of range",
 """Every error code, token type, state and operation of the public interface has a non-null text of its own which is the one of that code and not of a neighbour,
 and asking for the text never reads outside of a table.""",
 ["inputs","configurations"], "All enumeration values of all public enumerations with texts.",
 "A missing entry shifts the names of the following codes only; tests print few of them.",
 ["exception.hpp","xmlscanner.hpp","xmlpathautomaton.hpp","xmlhdrparser.hpp","textscanner.hpp"], [("name tables","what(), getErrorString(), getStateString(), tokenTypeName(), Mask::seekopName ...")])

prop("I01", "Byte sources deliver exactly the input bytes, then end, never reading beyond",
 """Every byte source delivers the bytes of its input in order, each once, and afterwards a null byte for end of data as often as asked; it never reads memory outside of the input
 given and its position is the number of bytes consumed. A suspendable source suspends exactly when all bytes given are consumed and the end was not declared.""",
 ["inputs","histories","schedules"], "All inputs of all lengths, all sequences of read and advance.",
 "The sources for chunks and streams are not exercised by tests beyond one pass.",
 ["cstringiterator.hpp","sourceiterator.hpp","istreamiterator.hpp","traits.hpp"], [("operators * and ++","CStringIterator, SrcIterator, IStreamIterator")])

prop("I02", "A failing input stream is reported and never taken for the end of the document",
 """If reading the underlying stream fails the failure is raised to the caller as an error at that point, whatever the system error number is; it is never treated as regular end of input and no garbage bytes are delivered.""",
 ["fault_sequences"], "A read failure at any block of the stream.",
 "Tests read only from healthy streams.", ["istreamiterator.hpp"], [("stream read","StdInputStream::read"),("block fill","IStreamIterator::fillbuf")])

prop("A01", "Path element conditions accept exactly the token types they are defined for",
 """A path element with a given condition accepts a token type exactly if the definition of its operation says so, combining conditions adds their accepted and rejected types,
 a rejecting condition has precedence, and two conditions join only if both stay satisfiable as defined.""",
 ["inputs","programs"], "All operations, all token types, all combinations of masks.",
 "Tests use about ten paths; the mask algebra has 2^32 combinations.",
 ["xmlpathautomaton.hpp"], [("mask algebra","XMLPathSelectAutomaton::Mask")])

prop("A02", "Scopes of path selection open and close with the tags of the document",
 """While selecting, the scope opened by a tag is closed exactly once, by the matching close tag, after all its results have been delivered, whatever iterator copies are made by the caller;
 after a balanced document the selector is in its initial state again and a close tag without open tag does not corrupt it.""",
 ["histories","inputs"], "All token sequences, all ways to iterate and copy result iterators.",
 "The test uses one iteration style on well-formed documents.",
 ["xmlpathselect.hpp"], [("scope stack","XMLPathSelect::Context"),("iteration","XMLPathSelect::iterator")])

prop("A03", "Selection never follows dangling references into its own growing tables",
 """During selection and automaton construction no reference, pointer or iterator into a growing container is used after an operation that may have reallocated the container, and every stored state or token index is in range.""",
 ["inputs","histories"], "All documents and automatons.",
 "Reallocation hits at particular sizes; use after it mostly goes unnoticed.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp"], [("containers","std::vector members and locals holding references to elements")])

prop("A04", "Index and range conditions select exactly the elements of the range",
 """An index condition selects exactly the element with that index under its parent and a range condition exactly those with an index in the half-open range; repeated conditions on the same element intersect.""",
 ["inputs","configurations"], "All range bounds and all sequences of range conditions.",
 "Tests use a few single ranges.", ["xmlpathautomaton.hpp","xmlpathselect.hpp"], [("range definition","PathElement::doRange"),("counting","XMLPathSelect::produce")])

prop("A05", "Path expressions are accepted completely or refused with an error position",
 """A path expression is either accepted as a whole, with every character of it accounted for in the defined operations, or refused with a non-zero error position inside the expression.
 Names in it are taken over exactly, in any encoding.""",
 ["inputs"], "All expression texts.",
 "The parser of path expressions is not called by any test.", ["xmlpathautomatonparse.hpp"], [("expression parser","XMLPathSelectAutomatonParser::addExpression")])

prop("A06", "Errors in automaton definitions keep their cause",
 """An error raised while defining a path reaches the caller with the error code of its cause and is never replaced by an unspecific one; nothing of the failed definition is silently accepted.""",
 ["fault_sequences"], "All errors that can be raised while defining a path.",
 "Only success is tested.", ["xmlpathautomaton.hpp"], [("handlers","catch clauses of XMLPathSelectAutomaton")])

prop("H01", "The header parser finds the declared encoding for every header and chunking",
 """For every XML declaration the header parser delivers exactly the declared encoding name and the number of (non-blank) characters consumed, asks for more input only if the declaration is incomplete, and reports malformed
 declarations as error with a message. The result does not depend on how the input is cut into chunks and no byte outside of the input is read.""",
 ["inputs","schedules"], "All inputs and all ways to cut them into chunks.",
 "No test calls the header parser.", ["xmlhdrparser.hpp"], [("header automaton","XmlHdrParser::parse / parseNext")])

prop("N01", "Selection delivers exactly the XPath-like matches of the defined paths",
 """For every automaton and every document the selector delivers exactly the tokens that match the defined paths, each once per matching path.""",
 ["programs","inputs"], "All sets of path definitions, all documents.",
 "The test has about ten path sets on one document.", ["xmlpathselect.hpp","xmlpathautomaton.hpp"], [("matching","XMLPathSelect::expand, produce, fetch")])

prop("N02", "Scanning time is linear in the document size",
 """The time to scan or select from a document grows linearly with its size for a fixed automaton.""",
 ["inputs"], "All documents.", "Tests are small.", ["xmlscanner.hpp","xmlpathselect.hpp"], [("main loops","XMLScanner::nextItem, XMLPathSelect::fetch")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
