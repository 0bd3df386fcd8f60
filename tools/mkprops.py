#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the texts can be edited in one readable place)
import json,os
I="include/textwolf/"
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=a,where=I+b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=I+c) for a,b,c in (state or [])],observe_at=obs,hook_needed=None)))
T="The tests scan a handful of fixed documents; "
p("S01","The XML scanner reports exactly the items of the document",
 "For every document the scanner returns, in document order, exactly the items its text contains: XML header with attributes, DOCTYPE/entity definition parts, open tags, attribute names and values, close tags, immediate close tags, content between tags, then the end of the document. Every item carries exactly the decoded text of that part of the document; comments, processing instructions, DOCTYPE internal subsets and CDATA sections produce no item of their own, and white space between a comment or definition and the next text is dropped. No item is lost, duplicated, reordered, split or altered.",
 ["inputs"],"all documents: every sequence of characters, with every nesting and combination of markup constructs",
 T+"no test combines markup constructs systematically or checks the text of all items.",
 ["xmlscanner.hpp"],[("scanner state machine table","xmlscanner.hpp:XMLScannerBase::Statemachine"),("token parsing","xmlscanner.hpp:XMLScanner::nextItem/parseToken")],
 ["XMLScanner::nextItem/getItem","XMLScanner::iterator"],[("state","state of the scanner automaton","xmlscanner.hpp:XMLScanner::state")])
p("S02","Feeding the document in chunks does not change the items",
 "When the document is fed chunk by chunk (the scanner is interrupted with the end of message jump whenever the chunk is exhausted and re-entered after more input has been put), the items, their texts, the errors and the end are the same as when the whole document is scanned at once. This holds for every way of cutting the document into chunks, including empty chunks, one byte chunks, and cuts inside a character, an entity, a line end, a keyword or a markup delimiter.",
 ["inputs","schedules"],"all documents times all partitions of their bytes into chunks, in every input encoding",
 "The chunk example and test use one chunk size on one document; the re-entry points inside entities, keywords and multi byte characters are never hit.",
 ["xmlscanner.hpp","sourceiterator.hpp","textscanner.hpp"],[("re-entrant token state","xmlscanner.hpp:XMLScanner::TokState/parseTokenRecover"),("end of message jump","sourceiterator.hpp:SrcIterator::operator*")],
 ["XMLScanner::nextItem with SrcIterator","XMLScanner::setSource","XMLScanner::getIterator().putInput"],[("tokstate","where the parsing of a token was interrupted","xmlscanner.hpp:XMLScanner::TokState")])
p("S03","The kind of source iterator does not matter",
 "Scanning the same bytes through a character pointer, a string iterator, an input stream iterator with any buffer size and any read granularity, or a source iterator over one block gives the same items with the same texts, the same errors and the same end. No iterator loses, repeats or invents a byte, and every iterator returns null characters beyond the end of its input.",
 ["inputs","configurations"],"all byte sequences, all iterator kinds, all stream buffer sizes and sizes of single reads",
 "Each iterator is tested with its own few documents and the default buffer size only, never compared with the others.",
 ["istreamiterator.hpp","cstringiterator.hpp","sourceiterator.hpp","textscanner.hpp"],[("buffer refill","istreamiterator.hpp:IStreamIterator::fillbuf"),("end of string","cstringiterator.hpp:CStringIterator::operator*")],
 ["iterator operator* and operator++","XMLScanner::nextItem"])
p("S04","Input and output encodings only change the representation of items",
 "For every pair of supported input and output character set encodings the scanner returns the same sequence of item types and the same item texts, where a text is the sequence of Unicode characters denoted by the output bytes. Characters the output encoding cannot represent appear as the hexadecimal character reference of their code point.",
 ["inputs","configurations"],"all documents times all pairs of input and output encodings (UTF-8, UTF-16, UCS-2, UCS-4 in both byte orders, IsoLatin code pages)",
 "The tests convert a few strings between encodings; no test scans one document under all pairs of encodings.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],[("copy or transcode a character","xmlscanner.hpp:XMLScanner::copychar"),("print","charset_*.hpp:print")],
 ["XMLScanner::getItem"])
p("S05","Character entity references",
 "In content, attribute values and names the references to the predefined entities (quot, amp, apos, lt, gt, and nbsp as a space), to entities of the table passed by the user (found by name), and decimal and hexadecimal numeric references are replaced by the character they denote. A reference to an unknown entity name (the empty name '&;' is one) is reported as an undefined entity error; anything after an ampersand that does not form a reference, or a name or number with more characters than the scanner buffers (15 and 16), is kept in the text exactly as it is written.",
 ["inputs"],"all texts with references at any position, all names and numbers, all user entity tables",
 T+"only some predefined references are used, no user table, no malformed or unknown reference.",
 ["xmlscanner.hpp"],[("entity parsing","xmlscanner.hpp:XMLScanner::parseEntity/parseNumericBaseEntity/parseNamedEntity"),("user entity map","xmlscanner.hpp:XMLScanner::pushEntity"),("fallback","xmlscanner.hpp:XMLScanner::fallbackEntity")],
 ["XMLScanner::getItem","XMLScanner::getError"])
p("S06","Line ends are normalised",
 "In the text of every item a carriage return followed by a line feed, and a carriage return alone, is reported as one single line feed; line feeds and all other white space are reported as they are, and a carriage return written as a character reference stays a carriage return. This holds for any sequence of line end characters and regardless of where the input is cut into chunks.",
 ["inputs","schedules"],"all sequences of CR, LF and other characters in content and attribute values, all chunkings",
 T+"line ends in the test documents are all of one kind and never at a chunk border.",
 ["xmlscanner.hpp"],[("end of line state","xmlscanner.hpp:XMLScanner::TokState::eolnState")],["XMLScanner::getItem"])
p("S07","Masking out item texts does not change the items",
 "Passing a mask of item types to the scan function only decides which item texts are printed: for every mask, also one that differs from call to call, a document without undefined entities gives the same sequence of item types, the same end or error, and the same texts of the items not masked out as without mask.",
 ["inputs","histories"],"all documents, all masks, all sequences of masks over the calls",
 "No test passes a mask to the scanner.",
 ["xmlscanner.hpp"],[("skip token","xmlscanner.hpp:XMLScanner::skipToken"),("mask test","xmlscanner.hpp:XMLScanner::nextItem")],["XMLScanner::nextItem(mask)"])
p("S08","Reported positions are the byte offsets in the input",
 "After each named or text item the token position is the offset in bytes of the first character of the item's text in the input and the current position is the offset of the next character not yet consumed. This holds for every encoding and every source iterator, and positions count over all chunks put to a source iterator.",
 ["inputs","configurations","schedules"],"all documents, encodings, iterators and chunkings with putInput",
 "No test looks at positions.",
 ["textscanner.hpp","xmlscanner.hpp","sourceiterator.hpp","istreamiterator.hpp","cstringiterator.hpp"],[("position","textscanner.hpp:TextScanner::getPosition"),("absolute position","sourceiterator.hpp:SrcIterator::position")],["XMLScanner::getPosition","XMLScanner::getTokenPosition"])
p("S09","Malformed and truncated documents end in the right error",
 "For every input, scanning terminates after a number of calls bounded by the length of the input, without reading beyond its end. A document cut off inside a tag, header, definition, comment, processing instruction or CDATA section, or that breaks the markup grammar, gives an error item with the error code and message of the rule broken, never a clean end and never an endless loop. A null character ends the document like the end of the input.",
 ["inputs","fault_sequences"],"all byte sequences, in particular all prefixes and single character mutations of well formed documents",
 "Tests only contain well formed documents; no test checks an error code.",
 ["xmlscanner.hpp"],[("miss errors","xmlscanner.hpp:XMLScannerBase::Statemachine"),("end of text","xmlscanner.hpp:XMLScanner::nextItem")],["XMLScanner::nextItem","XMLScanner::getError","XMLScanner::iterator::Element::error"])
p("S10","The item stream obeys the event protocol",
 "For every input the sequence of items follows the protocol of the interface: header start only first, header attributes only inside the header, each attribute value is preceded by its attribute name, attributes only between an open tag and its end, at most one immediate close per open tag and only directly after that tag or its attributes, nothing after the end of the document, which is reported again by every further call. For a well formed document open and close items are properly nested with equal names.",
 ["inputs","histories"],"all inputs and all lengths of the item sequence",
 T+"none checks the protocol of the event stream as such.",
 ["xmlscanner.hpp"],[("scanner state machine table","xmlscanner.hpp:XMLScannerBase::Statemachine")],["XMLScanner::nextItem"])
p("S11","State machine definitions, maps and names are what was defined",
 "A scanner state machine holds exactly the states, transitions, actions, errors and fallbacks defined by the operations on it, in which states are numbered in order, nothing is defined twice, no state beyond the maximum is named and the end of the text is never taken as another character; an operation that contradicts this throws the exception naming the reason and defines nothing, and a state that is not defined cannot be read. A map of bytes yields for each byte the value assigned last. Every element type, state, action, control character, automaton operation and exception cause is named by its identifier, also in copies of the exception.",
 ["histories","inputs"],"all sequences of definitions, all arguments in and out of range, all constants",
 "No test defines a state machine or asks for a name.",
 ["xmlscanner.hpp","char.hpp","exception.hpp"],[("definition","xmlscanner.hpp:ScannerStatemachine"),("map","char.hpp:CharMap"),("names of causes","exception.hpp:exception::what")],["ScannerStatemachine::get","CharMap::operator[]","XMLScannerBase::getElementTypeName/getStateString/getActionString","ControlCharacterM::name","exception::what"])
p("T01","Characters survive encoding and decoding",
 "Printing a Unicode character (any but the surrogates) in a supported encoding writes exactly the byte sequence the encoding defines for it, and decoding these bytes gives the same character and consumes exactly them. A character the encoding cannot represent is printed as its hexadecimal character reference in that encoding, and a buffer too small for a reference is reported and never written beyond. Printing depends on nothing but the encoding and the character.",
 ["inputs","configurations"],"all characters up to 0x10FFFF, up to 0x7FFFFFFF for UTF-8 and UCS-4, in all encodings and byte orders, in all sequences",
 "Tests sample some hundred characters per encoding and compare the library only with itself.",
 ["charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp","charset_interface.hpp"],[("print","charset_*.hpp:print"),("value","charset_*.hpp:value"),("Encoder::encode","charset_interface.hpp:Encoder")],["charset print","TextScanner operator* and operator++"])
p("T02","A text scanner gives the same characters however it is asked",
 "For every text the character value, the control character class and the ASCII value of the current character do not depend on which of them is asked, how often, in what order, or whether the character is skipped without being asked at all. Copying a character to an output of the same encoding copies exactly its bytes.",
 ["inputs","histories"],"all encoded texts times all sequences of accessor calls and skips",
 "Tests use one fixed access pattern per encoding.",
 ["textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],[("character buffer state","textscanner.hpp:TextScanner::state")],["TextScanner::chr/control/ascii/skip/copychar"])
p("T03","IsoLatin code pages match the standard",
 "For each of the code pages 1 to 9 of the ISO 8859 Latin family supported, every byte decodes to the character the standard assigns to it and every character of the page encodes to that byte. Characters not in the page are never encoded as some other byte, and an unknown code page index is rejected with an exception. Two encodings of the family compare equal exactly if they are of the same code page, copied and assigned ones as well.",
 ["inputs","configurations"],"all 9 pages times all 256 bytes and all characters",
 "Tests only convert between page 1 and others for a few characters.",
 ["codepages.hpp","charset_isolatin.hpp"],[("code page tables","codepages.hpp:IsoLatinCodePage"),("inverse mapping","codepages.hpp:IsoLatinCodePage::invcode")],["IsoLatin::value","IsoLatin::print"])
p("T04","Decoding malformed text is bounded and marked",
 "Decoding a byte sequence that is not valid in the encoding never fails, loops or reads outside of the input; every step consumes at least one byte and at most the length announced by the first byte. A UTF-8 sequence with a wrong or missing continuation byte decodes to the marker 0x7FFFFFFF and a UTF-16 high surrogate not followed by a low surrogate to 0xFFFF.",
 ["inputs","fault_sequences"],"all byte sequences, in particular corrupted encodings of valid text",
 "Tests contain only valid encodings.",
 ["charset_utf8.hpp","charset_utf16.hpp"],[("UTF-8 value","charset_utf8.hpp:UTF8::value"),("UTF-16 value","charset_utf16.hpp:UTF16::value_impl")],["TextScanner operator* and operator++"])
p("R01","The printer accepts exactly the well formed call sequences",
 "The XML printer accepts a call exactly if it is allowed in the current context (header only first and only once, nothing, no DOCTYPE either, before it unless printing a sub document, attribute only in an open tag, value after an attribute is its value, close tag only with a tag open and no attribute pending) and then writes exactly the markup of that call; a close tag closes an element without content as immediate close tag. A rejected call returns false, writes nothing and leaves the printer able to continue; reset returns it to its initial context without an error reported, and a rejected header, DOCTYPE, open tag or value is reported as error. The functions that print a text, attribute value or content alone write the same whatever the context is and do not change it. All this holds for every kind of output buffer (strings, vectors, static buffers, output streams).",
 ["histories","inputs"],"all sequences of printer calls with all names, values and encodings",
 "No test of the printer exists in the suite.",
 ["xmlprinter.hpp","xmltagstack.hpp"],[("printer state","xmlprinter.hpp:XMLPrinter::m_state"),("escaping","xmlprinter.hpp:XMLPrinter::printToBufferSubstChr")],["XMLPrinter::print*","XMLPrinter::state","XMLPrinter::reset"])
p("R02","What the printer prints the scanner reads back",
 "For every sequence of accepted printer calls that print texts inside of elements, and a DOCTYPE only before the first element, the printed document scans without error into exactly the items printed: the same tags, attributes, attribute values and contents with the same characters. This holds for all texts (markup characters, quotes, control characters, line ends, characters outside of the output encoding included) and all pairs of application and output encodings.",
 ["histories","inputs","configurations"],"all accepted call sequences with all texts, all encodings",
 "No test of the printer exists in the suite.",
 ["xmlprinter.hpp","xmlscanner.hpp"],[("escaping of contents and values","xmlprinter.hpp:XMLPrinter::printToBufferContent/printToBufferAttributeValue")],["XMLPrinter output scanned with XMLScanner"])
p("R03","The tag stack is a stack of byte strings",
 "Tag names pushed to the tag stack come back in reverse order with exactly their bytes and length, for any number, length and content of names and any interleaving of push, pop, top and clear. The stack is reported empty exactly if everything pushed was popped or cleared, and asking an empty stack for its top fails without effect.",
 ["histories","inputs"],"all sequences of push, top, pop and clear with names of all lengths (over the initial allocation, too)",
 "No test of the tag stack exists in the suite.",
 ["xmltagstack.hpp","xmlprinter.hpp"],[("growing buffer","xmltagstack.hpp:TagStack::push"),("topofs","xmltagstack.hpp:TagStack::topofs")],["TagStack::push/top/pop/empty/clear"])
p("P01","Path selection returns exactly the matching nodes",
 "For every set of path expressions and every document the path selection returns, for each item fed, the type assigned to an expression exactly as many times as there are ways to match the expression's steps (child or descendant tags by name or wildcard, attributes by name or wildcard, attribute value conditions, content, close tag) along the path from the root to that item. It never misses a match and never reports a node that does not match.",
 ["programs","inputs"],"all sets of path expressions times all documents",
 "Tests run a few expressions on one or two documents.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("token matching","xmlpathselect.hpp:XMLPathSelect::match/fetch"),("scopes","xmlpathselect.hpp:XMLPathSelect::initProcessElement/closeProcessElement"),("follow tokens","xmlpathselect.hpp:XMLPathSelect::expand")],["XMLPathSelect::push"],
 [("tokens","list of waiting tokens","xmlpathselect.hpp:XMLPathSelect::tokens"),("scopestk","stack of open scopes","xmlpathselect.hpp:XMLPathSelect::scopestk")])
p("P02","Path expressions in one automaton do not influence each other",
 "The matches of an expression are the same whether it is alone in the automaton or together with any other expressions, in whatever order they were added, also when expressions share steps or are equal.",
 ["programs","configurations"],"all sets and orders of expressions, all documents",
 "Tests never compare an expression alone with the same expression in a set.",
 ["xmlpathautomaton.hpp","xmlpathselect.hpp"],[("sharing of states","xmlpathautomaton.hpp:XMLPathSelectAutomaton::defineNext"),("joined masks","xmlpathselect.hpp:XMLPathSelect::expand")],["XMLPathSelect::push"])
p("P03","Path selection does not depend on the history before the current path",
 "What an element's items match depends only on the tags and attributes on the path to it: preceding siblings, their depth and number, and matches inside them do not change it, and after a tag is closed exactly the conditions of its parent are in force again. This holds at any depth and however the result iterators are copied or incremented.",
 ["histories","inputs"],"all documents with arbitrarily many and deep preceding siblings; all ways of iterating the results",
 "Test documents are shallow and use one way of iterating.",
 ["xmlpathselect.hpp"],[("scope stack","xmlpathselect.hpp:XMLPathSelect::initProcessElement/closeProcessElement")],["XMLPathSelect::push","XMLPathSelect::iterator"])
p("P04","Textual path expressions mean the same as the operators",
 "A textual path expression accepted by the parser selects exactly what the automaton built with the corresponding operator calls selects, independent of spaces between its parts. Text that is not an expression of the documented grammar is rejected with a position inside of the text or directly behind it, and never accepted as something else.",
 ["programs","inputs"],"all strings, in particular all expressions of the grammar and their single character mutations, for all source and automaton encodings",
 "A handful of expressions is tested, no malformed one.",
 ["xmlpathautomatonparse.hpp","xmlpathautomaton.hpp"],[("expression parser","xmlpathautomatonparse.hpp:XMLPathSelectAutomatonParser::addExpression")],["XMLPathSelectAutomatonParser::addExpression","XMLPathSelect::push"])
p("P05","Index ranges of selections",
 "A content or attribute value selection with an index range returns, within each selected parent instance, exactly the matches whose index, counted from zero in document order, is in the range; bounds are inclusive and an open upper bound is unlimited.",
 ["programs","inputs"],"all ranges, all numbers of matches, all documents",
 "No test uses an index range.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("counters","xmlpathselect.hpp:XMLPathSelect::match"),("range definition","xmlpathautomaton.hpp:PathElement::doRange")],["XMLPathSelect::push"])
p("P06","Inspecting selections and automatons tells what is defined and waited for",
 "After the results of an item have been fetched, the states of a selection that wait for an element type, together with what the automaton says these emit on a following element type, are exactly the expressions that could be completed by two such elements coming next: those the last item has opened the way for and, if asked for, those active in all enclosing scopes. Asking changes nothing. The description of an automaton as text names every type assigned and every index range given, and no others.",
 ["histories","programs"],"all sets of expressions, all documents, all moments, all pairs of element types",
 "No test calls these functions.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("states waiting","xmlpathselect.hpp:XMLPathSelect::getTokenTypeMatchingStates"),("types emitted","xmlpathautomaton.hpp:XMLPathSelectAutomaton::getEmmitedTokens"),("description","xmlpathautomaton.hpp:XMLPathSelectAutomaton::tostring")],["XMLPathSelect::getTokenTypeMatchingStates","XMLPathSelectAutomaton::getEmmitedTokens","XMLPathSelectAutomaton::tostring"])
p("H01","The XML header parser finds the encoding or the error",
 "For every input the header parser reports either that it needs more input, or that the header is complete (at the end of an XML declaration, or when the document starts with an element) with the encoding declared in it if there is one, or an error for input that starts with neither. It ignores up to three null bytes in a row (so that headers in 16 and 32 bit encodings parse the same as in ASCII) and throws an exception for more.",
 ["inputs","configurations"],"all byte sequences; all headers in all byte widths and orders",
 "No test of the header parser exists in the suite.",
 ["xmlhdrparser.hpp"],[("header state machine","xmlhdrparser.hpp:XmlHdrParser::parse"),("zero byte skipping","xmlhdrparser.hpp:XmlHdrParser::nextChar")],["XmlHdrParser::parse/encoding/lasterror"])
p("H02","The header parser loses no input and does not depend on chunks",
 "However the input is cut into chunks put to the header parser, the final result, the encoding and the error are the same, and the consumed data is exactly the concatenation of all chunks put. After clear the parser behaves like a new one.",
 ["inputs","schedules","histories"],"all inputs times all partitions into chunks, parse called after each chunk; all histories before clear",
 "No test of the header parser exists in the suite.",
 ["xmlhdrparser.hpp"],[("buffered source","xmlhdrparser.hpp:XmlHdrParser::m_src"),("resumable state","xmlhdrparser.hpp:XmlHdrParser::m_state")],["XmlHdrParser::putInput/parse/consumedData/clear"])
p("M01","A static buffer never writes beyond its size and tells so",
 "A fixed size buffer stores exactly the bytes appended as long as they fit, drops the rest without writing outside of its memory, and reports overflow exactly if something was dropped since it was cleared. A scanner using it as output still returns the same item types, with each text truncated to the size of the buffer; element access outside of the content is rejected with an exception. A character reference encoded into a block of memory fits or is cut at its end, and the result tells which. An output stream used as buffer gets exactly the bytes appended.",
 ["histories","inputs"],"all sequences of buffer operations, all sizes, all documents scanned with it",
 "No test fills a buffer up to its limit.",
 ["staticbuffer.hpp"],[("bounds check","staticbuffer.hpp:StaticBuffer::push_back/append/resize"),("overflow flag","staticbuffer.hpp:StaticBuffer::m_overflow")],["StaticBuffer","XMLScanner with StaticBuffer output"])
p("M02","Copies continue like the original and independently of it",
 "A copy of a scanner, text scanner, path selection, header parser, printer, tag stack, buffer or source iterator made at any moment (also while suspended inside a token waiting for more input) behaves from then on exactly as the original would, and using or destroying one of them does not affect the other.",
 ["histories","schedules"],"all objects, all moments of copying, all continuations of copy and original",
 "No test copies an object in use.",
 ["xmlscanner.hpp","textscanner.hpp","xmlpathselect.hpp","xmlhdrparser.hpp","xmlprinter.hpp","xmltagstack.hpp","staticbuffer.hpp","istreamiterator.hpp"],[("copy constructors","xmlscanner.hpp:XMLScanner(const XMLScanner&)")],["copy constructor and assignment of each class"])
p("M03","Read failures are reported, never taken as the end of the document",
 "If reading from the input stream fails at any point, scanning ends with a file read exception at that point, after exactly the items of the data delivered by the reads before the failing one, and never with a silently truncated document. The standard input stream has an error code exactly after a read that failed, not after the end of the input. The cause and the name reported by every exception of the library agree.",
 ["fault_sequences","inputs"],"all documents times all points and kinds of read failure, all buffer sizes",
 "No test makes a read fail.",
 ["istreamiterator.hpp","exception.hpp"],[("error check","istreamiterator.hpp:IStreamIterator::fillbuf"),("stream errors","istreamiterator.hpp:StdInputStream::read"),("exception names","exception.hpp:exception::what")],["IStreamIterator","exception::what"])
p("M04","Running out of memory is reported and corrupts nothing",
 "If an allocation fails at any point in any operation, the failure is reported as the exception of the C++ library for it or as the library's out of memory error, the objects not involved are unaffected, and the object involved can be cleared, assigned and destroyed, and keeps what it held where the operation is all or nothing: tag stack, buffers, source input, header parser input and expression definitions. All memory is given back when the objects are destroyed, also after exceptions and after jumps out of a scanner at the end of a chunk.",
 ["fault_sequences","histories"],"all histories of operations on all objects times every allocation in them failing, alone or all from there on",
 "No test makes an allocation fail or counts the memory allocated.",
 ["xmltagstack.hpp","xmlpathautomaton.hpp","xmlpathselect.hpp","xmlscanner.hpp","xmlhdrparser.hpp","xmlprinter.hpp","sourceiterator.hpp","exception.hpp","istreamiterator.hpp","cstringiterator.hpp"],[("tag stack growth","xmltagstack.hpp:TagStack::push"),("definition of expressions","xmlpathautomaton.hpp:XMLPathSelectAutomaton::defineNext"),("key memory","xmlpathautomaton.hpp:XMLPathSelectAutomaton::State::defineKey")],["every operation of every class"])
p("M05","Separate objects share nothing",
 "Objects that are not copies of each other and not constructed from each other do not influence each other: used interleaved or at the same time in different threads, each behaves exactly as it does alone, from the first use in the process on, and no memory is accessed by one thread while another writes it. Path selections sharing one automaton and scanners sharing one entity map do so too, as these are only read.",
 ["schedules","histories"],"all sets of objects and all interleavings and concurrent schedules of their operations",
 "The tests are single threaded and use one object after the other.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","codepages.hpp","charset_isolatin.hpp","xmlpathautomaton.hpp","xmlpathselect.hpp","xmlprinter.hpp","xmlhdrparser.hpp","xmltagstack.hpp"],[("tables","charset_utf8.hpp:charset::UTF8"),("states of the scanner","xmlscanner.hpp:XMLScannerBase::Statemachine")],["every operation of every class"])
p("E01","Scanning and selecting composed: the types selected are those the document calls for",
 "When the items of a scanner are fed to a path selection as they come, every item selects exactly the types of the expressions that match it in the document, for expressions defined by operators or text, whatever the encoding of the document and of the selection, the source of the bytes and the chunks they come in, and whatever the document is, also if it is malformed (up to the first error).",
 ["inputs","configurations","schedules"],"all documents times all sets of expressions times all pairs of document and selection encodings times all sources and partitions into chunks",
 "The path selection test uses one encoding, one source and a few fixed documents and expressions.",
 ["xmlscanner.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp"],[("items","xmlscanner.hpp:XMLScanner::nextItem"),("selection","xmlpathselect.hpp:XMLPathSelect::push")],["XMLScanner::nextItem/getItemPtr/getItemSize","XMLPathSelect::push"])
p("E02","The header parser hands the document over to the scanner without loss",
 "A document whose header is looked at by the header parser first, chunk by chunk until it decides, and then scanned from what the header parser consumed followed by the remaining chunks, gives the same items and selections as the document scanned alone, whatever the header parser decided. A document written by the printer with a declared encoding, in any encoding, is recognized by the header parser with exactly this encoding.",
 ["inputs","configurations","schedules"],"all documents in all encodings, all partitions into chunks, all declarations; all documents the printer can write",
 "No test uses the header parser, alone or with a scanner.",
 ["xmlhdrparser.hpp","xmlscanner.hpp","sourceiterator.hpp","xmlprinter.hpp"],[("consumed data","xmlhdrparser.hpp:XmlHdrParser::consumedData"),("input","sourceiterator.hpp:SrcIterator::putInput"),("header printed","xmlprinter.hpp:XMLPrinter::printHeader")],["XmlHdrParser::consumedData/encoding","XMLScanner::nextItem","XMLPathSelect::push"])
p("E03","Copying a document by scanning and printing preserves it",
 "When every item the scanner returns for a document is printed with the corresponding operation of the printer (header, open tag, attribute name, value, close tag), the printer (in sub document mode if the document has no XML declaration) accepts them all if the document is well formed, and what it writes is again a well formed document with the same content: same names, attributes, values, texts and nesting (the XML declaration is written anew, adjacent texts become one, an element without content is closed immediately, a line feed follows the root element), whatever the encodings of the document, in between and of the copy, the source and its chunks. Malformed documents are copied up to where they break, and what is written for every item depends on the items only.",
 ["inputs","configurations","histories"],"all documents times all triples of encodings times all sources and partitions into chunks",
 "No test feeds the items of the scanner to the printer.",
 ["xmlscanner.hpp","xmlprinter.hpp","xmltagstack.hpp","charset_interface.hpp"],[("items","xmlscanner.hpp:XMLScanner::nextItem"),("printing","xmlprinter.hpp:XMLPrinter::printValue"),("open tags","xmltagstack.hpp:TagStack::top")],["XMLScanner::nextItem/getItemPtr/getItemSize","XMLPrinter::printHeader/printOpenTag/printAttribute/printValue/printCloseTag"])
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(d+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
