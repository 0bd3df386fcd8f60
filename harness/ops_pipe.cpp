// documents scanned and fed to a path selection, the header parsed before: -DVATM=character set of the scanner output and the automaton
#include "pipe.hpp"
#define STR1(x) #x
#define STR(x) STR1(x)
namespace {
template <class IT, class IN, class OUT>
struct PipeObj
{
	typedef tw::XMLScanner<IT,IN,OUT,std::string> SC;
	PipeCtx<IT>* c;
	PathObj<tw::XMLPathSelectAutomatonParser<UTF8,OUT>,OUT,tw::DefaultStackType> path;
	std::size_t k;		// last chunk put
	bool fin;
	std::string consumed;
	bool parsed;
	SC* sc;			// the last one: nothing that fails follows

	PipeObj( PipeCtx<IT>& c_) :c(&c_),path(c_.path),k(0),fin(false),parsed(false),sc(0){}
	PipeObj( const PipeObj& o) :c(o.c),path(o.path),k(o.k),fin(o.fin),consumed(o.consumed),parsed(o.parsed),sc(o.sc?new SC(*o.sc):0){}
	PipeObj& operator=( const PipeObj& o)
	{
		path = o.path; k = o.k; fin = o.fin; consumed = o.consumed; parsed = o.parsed;
		if (sc && o.sc) *sc = *o.sc;
		else { SC* n = o.sc?new SC( *o.sc):0; delete sc; sc = n; }
		return *this;
	}
	~PipeObj() { delete sc; }
	std::string dif( PipeObj&) { return "na"; }

	std::string head()
	{
		// k is the number of the last chunk put afterwards
		tw::XmlHdrParser h;
		bool done = false;
		std::string b;
		for (k=0; Rest<IT>::chunk( *c, k, b); ++k)
		{
			Block x( b);
			h.putInput( x.p, x.n);
			try { done = h.parse(); }
			catch (const tw::exception&) { consumed = h.consumedData(); parsed = true; return "x03"; }
			if (done || h.lasterror()) break;
		}
		if (!done && !h.lasterror()) --k;
		consumed = h.consumedData();
		parsed = true;
		if (h.lasterror()) return "x02";
		if (!done) return "x00";
		const char* e = h.encoding();
		return std::string("x01") + (e?hex( e, std::strlen( e)):std::string());
	}
	std::string op( const Args& a)
	{
		if (a[0] == "def" || a[0] == "add") return path.op( a);
		if (a[0] == "head") return head();
		if (a[0] == "next")
		{
			if (fin) return "end";
			if (!sc)
			{
				long page = c->p.n( "page");
				IT it = Rest<IT>::start( *c, k, parsed?&consumed:0);
				if (c->p.n( "ents")) sc = page ? new SC( MakeCs<IN>::make( page), it, entities()) : new SC( it, entities());
				else sc = page ? new SC( MakeCs<IN>::make( page), it) : new SC( it);
			}
			int t;
			while ((t=pipeNext( sc)) == -1) if (!Rest<IT>::more( *sc, *c, k)) return "STARVED";
			char ty = (char)t;
			std::string r = std::string("x") + hex( &ty, 1);
			if (t == SC::ErrorOccurred || t == SC::Exit) { fin = true; return r; }
			std::string item( sc->getItemPtr(), sc->getItemSize());
			r += hex4( (int)item.size()) + hex( item);
			Args ev; ev.push_back( "ev"); ev.push_back( "0"); ev.push_back( str( (long)t)); ev.push_back( hex( item));
			std::string s = path.op( ev);
			if (s.empty() || s[0] != 'x') return s;
			return r + s.substr( 1);
		}
		return "BADOP";
	}
};
}
#define PIPE(IN,L,IT) \
	static RegScript reg##IN##L( "pipe" #L #IN "-" STR(VATM), &runScript<PipeObj<IT,IN,VATM>,PipeCtx<IT> >);
PIPE(IsoLatin,S,tw::SrcIterator)
PIPE(UTF8,S,tw::SrcIterator)
PIPE(UTF16BE,S,tw::SrcIterator)
PIPE(UTF16LE,S,tw::SrcIterator)
PIPE(UCS2BE,S,tw::SrcIterator)
PIPE(UCS2LE,S,tw::SrcIterator)
PIPE(UCS4BE,S,tw::SrcIterator)
PIPE(UCS4LE,S,tw::SrcIterator)
PIPE(UTF8,C,tw::CStringIterator)
PIPE(UTF8,I,tw::IStreamIterator)
PIPE(UTF16LE,I,tw::IStreamIterator)
