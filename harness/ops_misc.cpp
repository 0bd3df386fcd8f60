// static buffer, tag stack, header parser
#include "ops.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/ostreamoutput.hpp"
#include "textwolf/xmltagstack.hpp"
#include "textwolf/xmlhdrparser.hpp"

struct BufCtx
{
	long size; long fill; long ctor; std::vector<Block*> own;
	BufCtx( const Params& p) :size(p.n("size")),fill(p.n("fill")),ctor(p.n("ctor")){}
	~BufCtx() { for (std::size_t i=0; i<own.size(); ++i) delete own[i]; }
	char* mem() { own.reserve( own.size()+1); own.push_back( new Block( std::string( size, '#'))); return own.back()->p; }
};
struct BufObj
{
	tw::StaticBuffer* bp;
	BufObj( BufCtx& c) :bp(0)
	{
		if (c.ctor == 1) bp = new tw::StaticBuffer( c.mem(), c.size, c.fill);
		else if (c.ctor == 2) bp = new tw::StaticBuffer( c.mem(), c.size);
		else bp = new tw::StaticBuffer( c.size);
	}
	BufObj( const BufObj& o) :bp(new tw::StaticBuffer( *o.bp)){}
	BufObj& operator=( const BufObj& o) { *bp = *o.bp; return *this; }
	~BufObj() { delete bp; }
	std::string dif( BufObj&) { return "na"; }
	std::string op( const Args& a)
	{
		tw::StaticBuffer& b = *bp;
		const tw::StaticBuffer& cb = *bp;
		if (a[0] == "psh") { b.push_back( (char)std::strtol( a[2].c_str(), 0, 10)); return "ok"; }
		if (a[0] == "app") { Block x( unhex( a.size()>2?a[2]:"")); b.append( x.p, x.n); return "ok"; }
		if (a[0] == "clr") { b.clear(); return "ok"; }
		if (a[0] == "rsz") { if (a.size()>3) b.resize( std::strtol( a[2].c_str(), 0, 10), (char)std::strtol( a[3].c_str(), 0, 10)); else b.resize( std::strtol( a[2].c_str(), 0, 10)); return "ok"; }
		if (a[0] == "idx") { return str( (long)(unsigned char)cb[ std::strtol( a[2].c_str(), 0, 10)]); }
		if (a[0] == "at") { return str( (long)(unsigned char)b.at( std::strtol( a[2].c_str(), 0, 10))); }
		if (a[0] == "wr") { b.at( std::strtol( a[2].c_str(), 0, 10)) = (char)std::strtol( a[3].c_str(), 0, 10); return "ok"; }
		if (a[0] == "ref")	// a character reference into a block of memory
		{
			Block m( std::string( std::strtol( a[3].c_str(), 0, 10), '#'));
			bool ok = tw::charset::Encoder::encode( (tw::UChar)std::strtol( a[2].c_str(), 0, 10), m.p, m.n);
			return std::string( ok?"x01":"x00") + hex( m.p, m.n);
		}
		if (a[0] == "ovf") return b.overflow()?"1":"0";
		if (a[0] == "all") return std::string("x") + hex( b.ptr(), b.size());
		return "BADOP";
	}
};
// a stream as buffer
struct OsoCtx { std::ostringstream s; OsoCtx( const Params&){} };
struct OsoObj
{
	OsoCtx* c; tw::OstreamOutput* b;
	OsoObj( OsoCtx& c_) :c(&c_),b(new tw::OstreamOutput( &c_.s)){}
	OsoObj( const OsoObj& o) :c(o.c),b(new tw::OstreamOutput( *o.b)){}
	OsoObj& operator=( const OsoObj& o) { *b = *o.b; return *this; }
	~OsoObj() { delete b; }
	std::string dif( OsoObj&) { return "na"; }
	std::string op( const Args& a)
	{
		if (a[0] == "psh") { b->push_back( (char)std::strtol( a[2].c_str(), 0, 10)); return "ok"; }
		if (a[0] == "app") { Block x( unhex( a.size()>2?a[2]:"")); b->append( x.p, x.n); return "ok"; }
		if (a[0] == "self") { tw::OstreamOutput* n = new tw::OstreamOutput( *b); delete b; b = n; return "ok"; }
		if (a[0] == "all") return std::string("x") + hex( c->s.str());
		return "BADOP";
	}
};
struct StkCtx { StkCtx( const Params&){} };
struct StkObj
{
	tw::TagStack s;
	StkObj( StkCtx&){}
	std::string dif( StkObj&) { return "na"; }
	std::string op( const Args& a)
	{
		if (a[0] == "psh") { Block x( unhex( a.size()>2?a[2]:"")); s.push( x.p, x.n); return "ok"; }
		if (a[0] == "pop") { s.pop(); return "ok"; }
		if (a[0] == "clr") { s.clear(); return "ok"; }
		if (a[0] == "emp") return s.empty()?"1":"0";
		if (a[0] == "top") { const void* p = 0; std::size_t n = 0; if (!s.top( p, n)) return "none"; return std::string("x") + hex( (const char*)p, n); }
		return "BADOP";
	}
};
struct HdrCtx { HdrCtx( const Params&){} };
struct HdrObj
{
	tw::XmlHdrParser h;
	HdrObj( HdrCtx&){}
	std::string dif( HdrObj&) { return "na"; }
	std::string op( const Args& a)
	{
		if (a[0] == "put") { Block x( unhex( a.size()>2?a[2]:"")); h.putInput( x.p, x.n); return "ok"; }
		if (a[0] == "prs") return h.parse()?"1":"0";
		if (a[0] == "clr") { h.clear(); return "ok"; }
		if (a[0] == "enc") { const char* e = h.encoding(); return e ? std::string("x") + hex( e, std::strlen( e)) : std::string("none"); }
		if (a[0] == "err") { const char* e = h.lasterror(); if (!e) return "none"; std::string r( e); for (std::size_t i=0; i<r.size(); ++i) if (r[i] == ' ' || r[i] == ';') r[i] = '_'; return r; }
		if (a[0] == "src") return std::string("x") + hex( h.consumedData());
		if (a[0] == "cnt") return str( (long)h.charsConsumed());
		return "BADOP";
	}
};
static RegScript rB( "buf", &runScript<BufObj,BufCtx>);
static RegScript rO( "oso", &runScript<OsoObj,OsoCtx>);
static RegScript rT( "stack", &runScript<StkObj,StkCtx>);
static RegScript rH( "hdr", &runScript<HdrObj,HdrCtx>);

// definitions of state machines, maps of bytes, names of constants
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
struct Named { const char* kind; const char* id; const char* name; };
static const std::vector<Named>& namedConstants()
{
	static std::vector<Named> tab;
	if (tab.empty())
	{
		typedef tw::XMLScannerBase B;
		typedef tw::XMLPathSelectAutomaton<> A;
#define N(KIND,SCOPE,ID,FN) { Named x = {KIND, #ID, FN( SCOPE::ID)}; tab.push_back( x); }
#define T(ID) N("type",B,ID,B::getElementTypeName)
		T(None) T(ErrorOccurred) T(HeaderStart) T(HeaderAttribName) T(HeaderAttribValue) T(HeaderEnd) T(DocAttribValue) T(DocAttribEnd) T(TagAttribName) T(TagAttribValue) T(OpenTag) T(CloseTag) T(CloseTagIm) T(Content) T(Exit)
#define S(ID) N("state",B,ID,B::getStateString)
		S(START) S(STARTTAG) S(XTAG) S(PITAG) S(PITAGEND) S(XTAGEND) S(XTAGDONE) S(XTAGAISK) S(XTAGANAM) S(XTAGAESK) S(XTAGAVSK) S(XTAGAVID) S(XTAGAVSQ) S(XTAGAVDQ) S(XTAGAVQE)
		S(DOCSTART) S(CONTENT) S(TOKEN) S(SEEKTOK) S(XMLTAG) S(OPENTAG) S(CLOSETAG) S(TAGCLSK) S(TAGAISK) S(TAGANAM) S(TAGAESK) S(TAGAVSK) S(TAGAVID) S(TAGAVSQ) S(TAGAVDQ) S(TAGAVQE)
		S(TAGCLIM) S(ENTITYSL) S(ENTITY) S(ENTITYE) S(ENTITYID) S(ENTITYSQ) S(ENTITYDQ) S(ENTITYLC) S(COMDASH2) S(COMSEEKE) S(COMENDD2) S(COMENDCL) S(CDATA) S(CDATA1) S(CDATA2) S(CDATA3) S(EXIT)
#define C(ID) N("action",B,ID,B::getActionString)
		C(Return) C(ReturnWord) C(ReturnContent) C(ReturnIdentifier) C(ReturnSQString) C(ReturnDQString) C(ExpectIdentifierXML) C(ExpectIdentifierCDATA) C(ReturnEOF)
#define K(ID) N("char",tw,ID,tw::ControlCharacterM::name)
		K(Undef) K(EndOfText) K(EndOfLine) K(Cntrl) K(Space) K(Amp) K(Lt) K(Equal) K(Gt) K(Slash) K(Dash) K(Exclam) K(Questm) K(Sq) K(Dq) K(Osb) K(Csb) K(Any)
#define O(ID) N("operation",A,ID,A::operationName)
		O(Content) O(OpenTag) O(CloseTag) O(Attribute) O(ThisAttributeValue) O(AttributeValue) O(ContentStart)
#undef N
	}
	return tab;
}
struct CauseId { tw::exception::Cause cause; const char* id; };
static const CauseId causes[] = {
#define X(ID) {tw::throws_exception::ID, #ID},
	X(Unknown) X(DimOutOfRange) X(StateNumbersNotAscending) X(InvalidParamState) X(InvalidParamChar) X(DuplicateStateTransition) X(InvalidState) X(IllegalParam) X(IllegalAttributeName) X(OutOfMem)
	X(ArrayBoundsReadWrite) X(NotAllowedOperation) X(FileReadError) X(IllegalXmlHeader) X(InvalidTagOffset) X(CorruptTagStack) X(CodePageIndexNotSupported)
	{tw::throws_exception::Unknown, 0}};

struct StmCtx { StmCtx( const Params&){} };
struct StmObj
{
	tw::ScannerStatemachine s;
	StmObj( StmCtx&){}
	std::string dif( StmObj&) { return "na"; }
	std::string op( const Args& a)
	{
		std::vector<long> v;
		for (std::size_t i=2; i<a.size(); ++i) v.push_back( std::strtol( a[i].c_str(), 0, 10));
#define CC(I) ((tw::ControlCharacter)v[ I])
		if (a[0] == "sta") { s[ v[0]]; return "ok"; }
		if (a[0] == "tra" && v.size() == 2) { s( CC(1), v[0]); return "ok"; }
		if (a[0] == "tra" && v.size() == 3) { s( CC(1), CC(2), v[0]); return "ok"; }
		if (a[0] == "tra" && v.size() == 4) { s( CC(1), CC(2), CC(3), v[0]); return "ok"; }
		if (a[0] == "slf") { s( CC(0)); return "ok"; }
		if (a[0] == "oth") { s.other( v[0]); return "ok"; }
		if (a[0] == "act" && v.size() == 1) { s.action( v[0]); return "ok"; }
		if (a[0] == "act") { s.action( v[0], v[1]); return "ok"; }
		if (a[0] == "mis") { s.miss( v[0]); return "ok"; }
		if (a[0] == "fal") { s.fallback( v[0]); return "ok"; }
		if (a[0] == "get")
		{
			const tw::ScannerStatemachine::Element* e = s.get( v[0]);
			std::string r;
			r.push_back( (char)(e->fallbackState + 1));
			r.push_back( (char)(e->missError + 1));
			r.push_back( (char)(e->action.op + 1));
			r.push_back( (char)(e->action.arg + 1));
			for (int i=0; i<tw::NofControlCharacter; ++i) r.push_back( (char)(e->next[ i] + 1));
			r.push_back( e->nofnext ? 2 : 1);
			return std::string("x") + hex( r);
		}
		if (a[0] == "nam")
		{
			const std::string kind = unhex( a[2]), id = unhex( a[3]);
			const std::vector<Named>& tab = namedConstants();
			for (std::size_t i=0; i<tab.size(); ++i) if (kind == tab[i].kind && id == tab[i].id) return std::string("x") + hex( tab[i].name, std::strlen( tab[i].name));
			for (const CauseId* c=causes; c->id; ++c) if (id == c->id)
			{
				if (kind == "cause") return std::string("x") + hex( std::string( tw::exception( c->cause).what()));
				tw::exception e1( c->cause), e2( e1), e3( tw::throws_exception::Unknown);
				if (e2.cause != c->cause) return "differs";
				if (kind == "causecp") return std::string("x") + hex( std::string( e2.what()));
				e3 = e1;
				if (e3.cause != c->cause) return "differs";
				const std::runtime_error& b = e3;
				return std::string("x") + hex( std::string( b.what()));
			}
		}
		return "BADOP";
	}
};
static RegScript rS( "stm", &runScript<StmObj,StmCtx>);

template <int NULLVALUE, int RANGE>
struct MapObj
{
	tw::CharMap<int,NULLVALUE,RANGE> m;
	MapObj( StmCtx&){}
	std::string dif( MapObj&) { return "na"; }
	std::string op( const Args& a)
	{
		std::vector<long> v;
		for (std::size_t i=2; i<a.size(); ++i) v.push_back( std::strtol( a[i].c_str(), 0, 10));
		if (a[0] == "one") { m( (unsigned char)v[0], (int)v[1]); return "ok"; }
		if (a[0] == "rng") { m( (unsigned char)v[0], (unsigned char)v[1], (int)v[2]); return "ok"; }
		if (a[0] == "two") { m( (unsigned char)v[0], (int)v[1])( (unsigned char)v[2], (int)v[3]); return "ok"; }
		if (a[0] == "get") return str( (long)m[ (unsigned char)v[0]]);
		return "BADOP";
	}
};
static RegScript rM( "cmap", &runScript<MapObj<0,256>,StmCtx>);
static RegScript rM7( "cmap7", &runScript<MapObj<7,128>,StmCtx>);
