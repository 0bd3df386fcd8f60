// documents copied: scanned and printed item by item: -DVAPP=character set of the scanner output and the printer input, -DVIO=character set of the printer output
#include "pipe.hpp"
#include "textwolf/xmlprinter.hpp"
#define STR1(x) #x
#define STR(x) STR1(x)
namespace {
template <class IT, class IN, class APP, class IO>
struct DupObj
{
	typedef tw::XMLScanner<IT,IN,APP,std::string> SC;
	typedef tw::XMLPrinter<IO,APP,std::string> PT;
	PipeCtx<IT>* c;
	SC* sc;
	std::size_t k;		// last chunk put
	PT prn;
	std::string out;
	bool fin;

	DupObj( PipeCtx<IT>& c_) :c(&c_),sc(0),k(0),prn(c_.p.n("sub")!=0),fin(false){}
	DupObj( const DupObj& o) :c(o.c),sc(o.sc?new SC(*o.sc):0),k(o.k),prn(o.prn),out(o.out),fin(o.fin){}
	DupObj& operator=( const DupObj& o)
	{
		k = o.k; fin = o.fin; out = o.out; prn = o.prn;
		if (sc && o.sc) *sc = *o.sc;
		else { SC* n = o.sc?new SC( *o.sc):0; delete sc; sc = n; }
		return *this;
	}
	~DupObj() { delete sc; }
	std::string dif( DupObj&) { return "na"; }

	// scan what was printed
	std::string scan()
	{
		typedef tw::XMLScanner<tw::SrcIterator,IO,UTF8,std::string> SC2;
		Block b( out);
		SC2 s2( tw::SrcIterator( b.p, b.n, 0));
		std::string r = "x";
		for (;;)
		{
			char t = (char)s2.nextItem();
			std::string item;
			if (t != SC2::Exit && t != SC2::ErrorOccurred) item = std::string( s2.getItemPtr(), s2.getItemSize());
			r += hex( &t, 1) + hex4( (int)item.size()) + hex( item);
			if (t == SC2::Exit || t == SC2::ErrorOccurred) return r;
		}
	}
	std::string op( const Args& a)
	{
		if (a[0] == "scan") return scan();
		if (a[0] != "next") return "BADOP";
		if (fin) return "end";
		if (!sc)
		{
			long page = c->p.n( "page");
			IT it = Rest<IT>::start( *c, k, 0);
			if (c->p.n( "ents")) sc = page ? new SC( MakeCs<IN>::make( page), it, entities()) : new SC( it, entities());
			else sc = page ? new SC( MakeCs<IN>::make( page), it) : new SC( it);
		}
		int t;
		while ((t=pipeNext( sc)) == -1) if (!Rest<IT>::more( *sc, *c, k)) return "STARVED";
		char res[2] = {(char)t, 2};
		std::size_t at = out.size();
		switch (t)
		{
			case SC::ErrorOccurred: case SC::Exit: fin = true; break;
			case SC::HeaderEnd: res[1] = prn.printHeader( 0, 0, out); break;
			case SC::OpenTag: res[1] = prn.printOpenTag( sc->getItemPtr(), sc->getItemSize(), out); break;
			case SC::CloseTag: case SC::CloseTagIm: res[1] = prn.printCloseTag( out); break;
			case SC::TagAttribName: res[1] = prn.printAttribute( sc->getItemPtr(), sc->getItemSize(), out); break;
			case SC::TagAttribValue: case SC::Content: res[1] = prn.printValue( sc->getItemPtr(), sc->getItemSize(), out); break;
			default: break;
		}
		return std::string( "x") + hex( res, 2) + hex( out.substr( at));
	}
};
}
#define DUP(IN,L,IT) \
	static RegScript reg##IN##L( "dup" #L #IN "-" STR(VAPP) "-" STR(VIO), &runScript<DupObj<IT,IN,VAPP,VIO>,PipeCtx<IT> >);
DUP(IsoLatin,S,tw::SrcIterator)
DUP(UTF8,S,tw::SrcIterator)
DUP(UTF16BE,S,tw::SrcIterator)
DUP(UTF16LE,S,tw::SrcIterator)
DUP(UCS2BE,S,tw::SrcIterator)
DUP(UCS4LE,S,tw::SrcIterator)
DUP(UTF8,C,tw::CStringIterator)
DUP(UTF8,I,tw::IStreamIterator)
