// text scanners: -DVIN=character set
#include "source.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"
using namespace textwolf::charset;
#define STR1(x) #x
#define STR(x) STR1(x)

template <class CS> struct MakeCs { static CS make( long) { return CS(); } static CS zero() { return CS(); } static CS page( unsigned long) { return CS(); } };
template <> struct MakeCs<IsoLatin> { static IsoLatin make( long p) { return p ? IsoLatin( (unsigned int)p) : IsoLatin(); } static IsoLatin zero() { return IsoLatin( 0u); } static IsoLatin page( unsigned long p) { return IsoLatin( (unsigned int)p); } };

template <class TS, class CS>
static bool call( TS* ts, char o, long* res, CS* out, std::string* buf)
{
	if (setjmp( g_eom)) return false;
	switch (o)
	{
		case 'c': *res = (long)ts->chr(); break;
		case '*': *res = (long)**ts; break;
		case 'a': *res = (long)ts->ascii(); break;
		case 'k': *res = (long)ts->control(); break;
		case 's': ts->skip(); break;
		case '+': ++*ts; break;
		case 'y': ts->copychar( *out, *buf); break;
		case 'p': { TS old( (*ts)++); *res = (long)old.chr(); break; }
	}
	return true;
}
template <class IT, class CS>
struct TextCtx
{
	Params p; Feed<IT> f;
	TextCtx( const Params& p_) :p(p_),f(p_){}
};
template <class IT, class CS>
struct TextObj
{
	typedef tw::TextScanner<IT,CS> TS;
	TextCtx<IT,CS>* c; TS ts; std::size_t k;
	static TS init( TextCtx<IT,CS>& c)
	{
		switch (c.p.n("init"))
		{
			case 1: { TS t( MakeCs<CS>::make( c.p.n("page"))); t.setSource( c.f.make()); return t; }
			case 2: if (!c.p.n("page")) return TS( c.f.make());
		}
		return TS( MakeCs<CS>::make( c.p.n("page")), c.f.make());
	}
	TextObj( TextCtx<IT,CS>& c_) :c(&c_),ts(init(c_)),k(0){}
	std::string dif( TextObj&) { return "na"; }
	std::string op( const Args& a)
	{
		long res = -1;
		std::string buf;
		if (a[0] == "pos") return str( (long)ts.getPosition());
		if (a[0] == "put") { if (!Feed<IT>::put( c->f, ts.getIterator(), k)) return "na"; return "ok"; }
		CS out = MakeCs<CS>::make( a[0] == "cpy" && a.size() > 2 ? std::strtol( a[2].c_str(), 0, 10) : c->p.n("page"));
		char o = a[0] == "chr" ? 'c' : a[0] == "drf" ? '*' : a[0] == "asc" ? 'a' : a[0] == "ctl" ? 'k' : a[0] == "skp" ? 's' : a[0] == "inc" ? '+' : a[0] == "cpy" ? 'y' : a[0] == "pst" ? 'p' : 0;
		if (!o) return "BADOP";
		if (!call( &ts, o, &res, &out, &buf)) return "eom";
		if (o == 's' || o == '+') return "ok";
		if (o == 'k') return tw::ControlCharacterM::name( (tw::ControlCharacter)res);
		if (o == 'y') return std::string("x") + hex( buf);
		return str( res);
	}
};
#define REG(L,IT) static RegScript reg##L( std::string("text") + #L + STR(VIN), &runScript<TextObj<IT,VIN>,TextCtx<IT,VIN> >);
REG(P,char*)
REG(C,tw::CStringIterator)
REG(I,tw::IStreamIterator)
REG(S,tw::SrcIterator)

/// printing and decoding of ranges of characters
namespace {
struct EncCtx
{
	Params p;
	EncCtx( const Params& p_) :p(p_){}
};
struct EncObj
{
	EncCtx* c; VIN cs;
	EncObj( EncCtx& c_) :c(&c_),cs(c_.p.n("zero") ? MakeCs<VIN>::zero() : MakeCs<VIN>::make(c_.p.n("page"))){}
	std::string dif( EncObj& o) { return VIN::is_equal( cs, o.cs) ? "1" : "0"; }
	std::string op( const Args& a)
	{
		// pg,slot,page: an encoding of this page is assigned;  eq,slot,page: compared with one of this page
		if (a[0] == "pg") { cs = MakeCs<VIN>::page( std::strtoul( a[2].c_str(),0,10)); return "ok"; }
		if (a[0] == "eq") { VIN o( MakeCs<VIN>::page( std::strtoul( a[2].c_str(),0,10))); return VIN::is_equal( cs, o) ? "1" : "0"; }
		if (a[0] == "chr") { std::string b; cs.print( (tw::UChar)std::strtoul( a[2].c_str(),0,10), b); return "x" + hex( b); }
		if (a[0] == "ref")
		{
			std::size_t n = std::strtoul( a[3].c_str(),0,10);
			char* b = (char*)std::malloc( n); // (not one byte more)
			bool ok = Encoder::encode( (tw::UChar)std::strtoul( a[2].c_str(),0,10), b, n);
			std::string r = ok ? "x" + hex( std::string( b)) : "short";
			std::free( b);
			return r;
		}
		// prn,slot,from,to,step: bytes of the characters printed, every one preceded by the number of bytes
		if (a[0] == "prn")
		{
			unsigned long from = std::strtoul( a[2].c_str(),0,10), to = std::strtoul( a[3].c_str(),0,10), step = std::strtoul( a[4].c_str(),0,10);
			std::string r = "x";
			for (unsigned long ch=from; ch<=to; ch+=step)
			{
				std::string b;
				cs.print( (tw::UChar)ch, b);
				r += hex( std::string( 1, (char)(unsigned char)b.size()) + b);
			}
			return r;
		}
		if (a[0] == "max") return str( (long)VIN::MaxChar);
		if (a[0] == "unit") return str( (long)VIN::UnitSize);
		return "BADOP";
	}
};
}
static RegScript regE( std::string("enc") + STR(VIN), &runScript<EncObj,EncCtx>);
