// source iterators
#include "source.hpp"

/// one look at the current byte, -1 if suspended by the end of the chunk
template <class IT>
static int look( IT* it)
{
	if (setjmp( g_eom)) return -1;
	return (int)(unsigned char)**it;
}
template <class IT> struct Pos;
template <> struct Pos<tw::CStringIterator> {
	static std::string pos( const tw::CStringIterator& i) { return str( (long)i.pos()); }
	static std::string set( tw::CStringIterator& i, long n) { i.pos( (unsigned int)n); return "ok"; }
	static std::string eoc( const tw::CStringIterator&) { return "na"; }
	static std::string cpos( const tw::CStringIterator&) { return "na"; }
	static std::string dif( const tw::CStringIterator& a, const tw::CStringIterator& b) { return str( (long)(a-b)); } };
template <> struct Pos<tw::IStreamIterator> {
	static std::string pos( const tw::IStreamIterator& i) { return str( (long)i.position()); }
	static std::string set( tw::IStreamIterator&, long) { return "na"; }
	static std::string eoc( const tw::IStreamIterator&) { return "na"; }
	static std::string cpos( const tw::IStreamIterator&) { return "na"; }
	static std::string dif( const tw::IStreamIterator& a, const tw::IStreamIterator& b) { return str( (long)(a-b)); } };
template <> struct Pos<tw::SrcIterator> {
	static std::string pos( const tw::SrcIterator& i) { return str( (long)i.position()); }
	static std::string set( tw::SrcIterator&, long) { return "na"; }
	static std::string eoc( const tw::SrcIterator& i) { return i.endOfChunk()?"1":"0"; }
	static std::string cpos( const tw::SrcIterator& i) { return str( (long)i.getPosition()); }
	static std::string dif( const tw::SrcIterator& a, const tw::SrcIterator& b) { return str( (long)(a-b)); } };

template <class IT>
struct SrcObj
{
	Feed<IT>* f; IT it; std::size_t k;
	SrcObj( Feed<IT>& f_) :f(&f_),it(f_.make()),k(0){}
	std::string dif( SrcObj& o) { return Pos<IT>::dif( it, o.it); }
	std::string op( const Args& a)
	{
		if (a[0] == "get") { int c = look( &it); return c < 0 ? std::string("eom") : str( c); }
		if (a[0] == "inc") { IT& r = ++it; return &r == &it ? "ok" : "wrong reference"; }
		if (a[0] == "adv") { for (long n = std::strtol( a[2].c_str(), 0, 10); n > 0; --n) ++it; return "ok"; }
		if (a[0] == "pos") return Pos<IT>::pos( it);
		if (a[0] == "cpos") return Pos<IT>::cpos( it);
		if (a[0] == "set") return Pos<IT>::set( it, std::strtol( a[2].c_str(), 0, 10));
		if (a[0] == "eoc") return Pos<IT>::eoc( it);
		if (a[0] == "put") return Feed<IT>::put( *f, it, k) ? "ok" : "na";
		if (a[0] == "def") { it = IT(); return "ok"; }
		return "BADOP";
	}
};
// the input stream on a standard stream on its own
struct StreamCtx
{
	ScriptStreamBuf sb; std::istream is;
	StreamCtx( const Params& p) :sb(p),is(&sb){}
private:
	StreamCtx( const StreamCtx&);
	void operator=( const StreamCtx&);
};
struct StreamObj
{
	tw::StdInputStream s;
	StreamObj( StreamCtx& c) :s(c.is){}
	std::string dif( StreamObj&) { return "na"; }
	std::string op( const Args& a)
	{
		if (a[0] == "read")
		{
			std::size_t n = (std::size_t)std::strtol( a[2].c_str(), 0, 10);
			Block b( std::string( n, '#'));
			std::size_t r = s.read( b.p, n);
			return r > n ? std::string("too many") : "x" + hex( b.p, r);
		}
		if (a[0] == "err") { const tw::IStream& i = s; return i.errorcode() ? "1" : "0"; }
		return "BADOP";
	}
};
static RegScript rT( "ist", &runScript<StreamObj,StreamCtx>);
static RegScript rC( "srcC", &runScript<SrcObj<tw::CStringIterator>,Feed<tw::CStringIterator> >);
static RegScript rI( "srcI", &runScript<SrcObj<tw::IStreamIterator>,Feed<tw::IStreamIterator> >);
static RegScript rS( "srcS", &runScript<SrcObj<tw::SrcIterator>,Feed<tw::SrcIterator> >);
