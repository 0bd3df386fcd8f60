#include "scan.hpp"
jmp_buf g_eom;
std::map<std::string,ScanFn>& registry() { static std::map<std::string,ScanFn> r; return r; }
typedef tw::XMLScannerBase SB;
const char* typeName( int t)
{
	switch (t)
	{
		case SB::None: return "None";
		case SB::ErrorOccurred: return "ErrorOccurred";
		case SB::HeaderStart: return "HeaderStart";
		case SB::HeaderAttribName: return "HeaderAttribName";
		case SB::HeaderAttribValue: return "HeaderAttribValue";
		case SB::HeaderEnd: return "HeaderEnd";
		case SB::DocAttribValue: return "DocAttribValue";
		case SB::DocAttribEnd: return "DocAttribEnd";
		case SB::TagAttribName: return "TagAttribName";
		case SB::TagAttribValue: return "TagAttribValue";
		case SB::OpenTag: return "OpenTag";
		case SB::CloseTag: return "CloseTag";
		case SB::CloseTagIm: return "CloseTagIm";
		case SB::Content: return "Content";
		case SB::Exit: return "Exit";
	}
	return "BAD";
}
const char* errName( int e)
{
	switch (e)
	{
		case SB::Ok: return "Ok";
		case SB::ErrIllegalDocumentAttributeDef: return "ErrIllegalDocumentAttributeDef";
		case SB::ErrExpectedOpenTag: return "ErrExpectedOpenTag";
		case SB::ErrExpectedXMLTag: return "ErrExpectedXMLTag";
		case SB::ErrUnexpectedEndOfText: return "ErrUnexpectedEndOfText";
		case SB::ErrSyntaxToken: return "ErrSyntaxToken";
		case SB::ErrStringNotTerminated: return "ErrStringNotTerminated";
		case SB::ErrUndefinedCharacterEntity: return "ErrUndefinedCharacterEntity";
		case SB::ErrExpectedTagEnd: return "ErrExpectedTagEnd";
		case SB::ErrExpectedEqual: return "ErrExpectedEqual";
		case SB::ErrExpectedTagAttribute: return "ErrExpectedTagAttribute";
		case SB::ErrExpectedCDATATag: return "ErrExpectedCDATATag";
		case SB::ErrInternal: return "ErrInternal";
		case SB::ErrUnexpectedEndOfInput: return "ErrUnexpectedEndOfInput";
		case SB::ErrExpectedEndOfLine: return "ErrExpectedEndOfLine";
		case SB::ErrExpectedDash2: return "ErrExpectedDash2";
	}
	return "BAD";
}
const char* causeName( int c)
{
	typedef tw::throws_exception X;
	switch (c)
	{
#define C(x) case X::x: return #x;
	C(Unknown) C(DimOutOfRange) C(StateNumbersNotAscending) C(InvalidParamState) C(InvalidParamChar) C(DuplicateStateTransition) C(InvalidState)
	C(IllegalParam) C(IllegalAttributeName) C(OutOfMem) C(ArrayBoundsReadWrite) C(NotAllowedOperation) C(FileReadError) C(IllegalXmlHeader)
	C(InvalidTagOffset) C(CorruptTagStack) C(CodePageIndexNotSupported)
	}
	return "BAD";
}
static std::vector<std::pair<std::string,tw::UChar> > g_ents;
static std::map<const char*,tw::UChar> g_map;
const std::map<const char*,tw::UChar>& entityMap( int) { return g_map; }

// scan CFG PAGE MODE MASKS ENTS DOC CUTS BUFSIZE FAILAT FAILMODE     ents NAMEHEX=VALUE ...
static std::string handle( const std::vector<std::string>& q)
{
	if (q[0] == "ents")
	{
		g_map.clear();
		g_ents.clear();
		for (std::size_t i=1; i<q.size(); ++i)
		{
			std::vector<std::string> p = split( q[i], '=');
			g_ents.push_back( std::pair<std::string,tw::UChar>( unhex( p[0]), std::strtoul( p[1].c_str(), 0, 10)));
		}
		for (std::size_t i=0; i<g_ents.size(); ++i) g_map[ g_ents[i].first.c_str()] = g_ents[i].second;
		return "ok";
	}
	std::map<std::string,ScanFn>::const_iterator f = registry().find( q[1]);
	if (f == registry().end()) return "NOCFG";
	Req r;
	r.page = std::atoi( q[2].c_str());
	r.mode = q[3];
	r.masks = nums( q[4]);
	r.ents = std::atoi( q[5].c_str());
	r.doc = q[6] == "-" ? "" : unhex( q[6]);
	r.cuts = nums( q[7]);
	r.bufsize = std::atol( q[8].c_str());
	r.failat = std::atol( q[9].c_str());
	r.failmode = q.size() > 10 ? std::atoi( q[10].c_str()) : 0;
	return (*f->second)( r);
}
int main() { return serve( &handle); }
