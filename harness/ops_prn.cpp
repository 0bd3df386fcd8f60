// printers: -DVOUT=character set of the output
#include "ops.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/ostreamoutput.hpp"
#include <sstream>
using namespace textwolf::charset;
#define STR1(x) #x
#define STR(x) STR1(x)
namespace {
template <class CS> struct MakeOut { static CS make( long) { return CS(); } };
template <> struct MakeOut<IsoLatin> { static IsoLatin make( long p) { return p ? IsoLatin( (unsigned int)p) : IsoLatin(); } };

template <class BUF> struct Out;
template <> struct Out<std::string>
{
	std::string b;
	std::string all() const { return b; }
};
template <> struct Out<std::vector<char> >
{
	std::vector<char> b;
	std::string all() const { return std::string( b.begin(), b.end()); }
};
template <> struct Out<tw::StaticBuffer>
{
	tw::StaticBuffer b;
	Out() :b(100000){}
	std::string all() const { return std::string( b.ptr(), b.size()); }
};
template <> struct Out<tw::OstreamOutput>
{
	std::ostringstream s;
	tw::OstreamOutput b;
	Out() :b(&s){}
	std::string all() const { return s.str(); }
};
struct PrnCtx
{
	long sub, page, ctor;
	PrnCtx( const Params& p) :sub(p.n("sub")),page(p.n("page")),ctor(p.n("ctor")){}
};
template <class IO, class APP, class BUF>
struct PrnObj
{
	typedef tw::XMLPrinter<IO,APP,BUF> PT;
	PT p;
	static PT make( PrnCtx& c)
	{
		if (c.ctor == 1 && !c.page) { if (c.sub) return PT( true); else return PT(); }
		if (c.sub) return PT( MakeOut<IO>::make( c.page), true);
		return PT( MakeOut<IO>::make( c.page));
	}
	PrnObj( PrnCtx& c) :p(make(c)){}
	std::string dif( PrnObj&) { return "na"; }
	/// argument that may be a null pointer: "00" or "01" followed by the bytes
	struct Opt
	{
		Block b; bool null;
		Opt( const std::string& h) :b( h.size() > 2 ? unhex( h.substr(2)) : std::string(), 1),null( h.substr(0,2) == "00"){}
		const char* c() const { return null ? 0 : b.p; }
	};
	std::string op( const Args& a)
	{
		Out<BUF> o;
		bool ok = false;
		if (a[0] == "hdr") { Opt x( a[2]), y( a[3]); ok = p.printHeader( x.c(), y.c(), o.b); }
		else if (a[0] == "doc") { Opt x( a[2]), y( a[3]), z( a[4]); ok = p.printDoctype( x.c(), y.c(), z.c(), o.b); }
		else if (a[0] == "ext") ok = p.exitTagContext( o.b);
		else if (a[0] == "opn") { Block b( unhex( a.size()>2?a[2]:"")); ok = p.printOpenTag( b.p, b.n, o.b); }
		else if (a[0] == "atr") { Block b( unhex( a.size()>2?a[2]:"")); ok = p.printAttribute( b.p, b.n, o.b); }
		else if (a[0] == "val") { Block b( unhex( a.size()>2?a[2]:"")); ok = p.printValue( b.p, b.n, o.b); }
		else if (a[0] == "cls") ok = p.printCloseTag( o.b);
		else if (a[0] == "rst") { if (a.size()>2 && a[2] == "01") p.reset( true); else p.reset(); ok = true; }
		else if (a[0] == "sta")
		{
			switch (p.state()) { case PT::Init: return "0"; case PT::Content: return "1"; case PT::TagAttribute: return "2"; case PT::TagElement: return "3"; }
			return "?";
		}
		else if (a[0] == "err") return p.lasterror() && *p.lasterror() ? "1" : "0";
		else if (a[0] == "raw") { Block b( unhex( a.size()>2?a[2]:"")); p.printToBuffer( b.p, b.n, o.b); ok = true; }
		else if (a[0] == "pav") { Block b( unhex( a.size()>2?a[2]:"")); p.printToBufferAttributeValue( b.p, b.n, o.b); ok = true; }
		else if (a[0] == "pct") { Block b( unhex( a.size()>2?a[2]:"")); p.printToBufferContent( b.p, b.n, o.b); ok = true; }
		else if (a[0] == "pch") { p.printToBuffer( unhex( a[2])[0], o.b); ok = true; }
		else if (a[0] == "pst") { Block b( unhex( a.size()>2?a[2]:""), 1); p.printStringToBuffer( b.p, o.b); ok = true; }
		else if (a[0] == "sub")
		{
			static const char* to[] = {"<x>","","-","&&"};
			Block b( unhex( a.size()>2?a[2]:""));
			p.printToBufferSubstChr( b.p, b.n, o.b, 4, "ab\n\177", to);
			ok = true;
		}
		else return "BADOP";
		return std::string( "x") + (ok?"01":"00") + hex( o.all());
	}
};
}
#define REG(APP) static RegScript reg##APP( "prn" #APP "-" STR(VOUT), &runScript<PrnObj<VOUT,APP,std::string>,PrnCtx>);
REG(IsoLatin)
REG(UTF8)
REG(UTF16BE)
REG(UTF16LE)
REG(UCS2BE)
REG(UCS2LE)
REG(UCS4BE)
REG(UCS4LE)
static RegScript regV( "prnV-" STR(VOUT), &runScript<PrnObj<VOUT,UTF8,std::vector<char> >,PrnCtx>);
static RegScript regB( "prnB-" STR(VOUT), &runScript<PrnObj<VOUT,UTF8,tw::StaticBuffer>,PrnCtx>);
static RegScript regO( "prnO-" STR(VOUT), &runScript<PrnObj<VOUT,UTF8,tw::OstreamOutput>,PrnCtx>);
