// scanning a document with one instance of the XMLScanner template
#ifndef VERIF_SCAN_HPP
#define VERIF_SCAN_HPP
#include "common.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/staticbuffer.hpp"
#include <setjmp.h>
namespace tw = textwolf;

struct Req
{
	int page;                   // IsoLatin page of the input
	std::string mode;           // letters, see below
	std::vector<long> masks;    // masks used round robin
	int ents;                   // user defined entities
	std::string doc;
	std::vector<long> cuts;     // sizes of chunks (SrcIterator, mode k/K), sizes of reads (IStream)
	long bufsize;               // IStreamIterator
	long failat;                // offset of read error or -1
	int failmode;               // see TestStream::read
};
// modes: n nextItem / i iterator ++ / j iterator it++ / b begin(false)
//        k chunks by putInput, K chunks by setSource
//        c continue with a copy after every item and every suspension, r run the original ahead before dropping it
typedef std::string (*ScanFn)( const Req& req);
std::map<std::string,ScanFn>& registry();
struct Reg { Reg( const char* n, ScanFn f) { registry()[n] = f; } };

const char* typeName( int t);
const char* errName( int e);
const char* causeName( int c);
const std::map<const char*,tw::UChar>& entityMap( int n);

extern jmp_buf g_eom;

struct TestStream :public tw::IStream
{
	TestStream( const Req& r) :doc(r.doc),pos(0),k(0),gran(r.cuts),failat(r.failat),failmode(r.failmode),err(0),failed(false){}
	virtual ~TestStream(){}
	virtual std::size_t read( void* buf, std::size_t bufsize)
	{
		std::size_t n = bufsize;
		if (!gran.empty()) { std::size_t g = (std::size_t)gran[ k++ % gran.size()]; if (g && g < n) n = g; }
		// failmode 0: bytes before the failure are delivered by a read of their own, all reads after fail
		//          1: the read reaching the failing byte fails and delivers the bytes before it, end of input after
		//          2: same, and all reads after fail
		//          3: the read reaching the failing byte fails without bytes, the next one continues
		if (failmode) err = 0;
		if (failmode && failed)
		{
			if (failmode == 1) return 0;
			if (failmode == 2) { err = 5; return 0; }
		}
		else if (failmode && failat >= 0 && pos + n > (std::size_t)failat && (std::size_t)failat < doc.size()+1)
		{
			failed = true; err = 5;
			if (failmode == 3) return 0;
			n = (std::size_t)failat > pos ? failat - pos : 0;
		}
		else if (!failmode && failat >= 0 && pos + n > (std::size_t)failat) n = (std::size_t)failat > pos ? failat - pos : 0;
		if (pos + n > doc.size()) n = doc.size() - pos;
		if (!failmode && n == 0 && failat >= 0 && pos >= (std::size_t)failat) { err = 5; return 0; }
		std::memcpy( buf, doc.c_str()+pos, n);
		pos += n;
		return n;
	}
	virtual int errorcode() const { return err; }
	std::string doc;
	std::size_t pos;
	std::size_t k;
	std::vector<long> gran;
	long failat;
	int failmode;
	int err;
	bool failed;
};
struct TestStreamBuf :public std::streambuf
{
	TestStreamBuf( const Req& r) :s(r){}
	virtual int_type underflow()
	{
		std::size_t n = s.read( buf, sizeof(buf));
		if (n == 0)
		{
			if (s.err) throw std::runtime_error( "read");
			return traits_type::eof();
		}
		setg( buf, buf, buf+n);
		return traits_type::to_int_type( *gptr());
	}
	TestStream s;
	char buf[ 16];
};

/// source access per iterator type
template <class IT> struct Source;
template <> struct Source<char*>
{
	Block b;
	Source( const Req& r) :b(r.doc,8){}
	char* itr() { return b.p; }
	template <class SC> bool more( SC&, const Req&) { return false; }
	enum {SharesInput=0};
};
template <> struct Source<tw::CStringIterator>
{
	Block b;
	Source( const Req& r) :b(r.doc){}
	tw::CStringIterator itr() { return tw::CStringIterator( b.p, b.n); }
	template <class SC> bool more( SC&, const Req&) { return false; }
	enum {SharesInput=0};
};
template <> struct Source<tw::IStreamIterator>
{
	TestStream s;
	TestStreamBuf sb;
	std::istream is;
	tw::StdInputStream* std_;
	std::size_t bufsize;
	Source( const Req& r) :s(r),sb(r),is(&sb),std_(0),bufsize(r.bufsize)
	{
		if (r.mode.find('s') != std::string::npos) std_ = new tw::StdInputStream( is);
	}
	~Source() { delete std_; }
	tw::IStreamIterator itr() { return tw::IStreamIterator( std_?(tw::IStream*)std_:(tw::IStream*)&s, bufsize); }
	template <class SC> bool more( SC&, const Req&) { return false; }
	enum {SharesInput=1};
};
template <> struct Source<tw::SrcIterator>
{
	std::vector<Block*> blocks;
	std::size_t k;
	bool chunked;
	Source( const Req& r) :k(0)
	{
		chunked = r.mode.find('k') != std::string::npos || r.mode.find('K') != std::string::npos;
		if (chunked)
		{
			std::size_t pos = 0;
			for (std::size_t i=0; i<r.cuts.size(); ++i)
			{
				blocks.push_back( new Block( r.doc.substr( pos, r.cuts[i])));
				pos += r.cuts[i];
				if (pos > r.doc.size()) pos = r.doc.size();
			}
			if (pos < r.doc.size()) blocks.push_back( new Block( r.doc.substr( pos)));
			if (blocks.empty()) blocks.push_back( new Block( ""));
		}
		else blocks.push_back( new Block( r.doc));
	}
	~Source() { for (std::size_t i=0; i<blocks.size(); ++i) delete blocks[i]; }
	tw::SrcIterator itr()
	{
		Block& b = *blocks[k++];
		return tw::SrcIterator( b.p, b.n, chunked?&g_eom:0);
	}
	template <class SC> bool more( SC& sc, const Req& r)
	{
		// (an empty last chunk without eom is the end of the input)
		static char none[1] = {0};
		const char* p = none; std::size_t n = 0; jmp_buf* eom = 0;
		if (k < blocks.size()) { p = blocks[k]->p; n = blocks[k]->n; eom = &g_eom; ++k; }
		else if (k++ > blocks.size()) return false;
		if (r.mode.find('K') != std::string::npos) sc.setSource( tw::SrcIterator( p, n, eom));
		else sc.getIterator().putInput( p, n, eom);
		return true;
	}
	enum {SharesInput=0};
};

template <class IN> struct MakeIn { static IN make( int) { return IN(); } };
template <> struct MakeIn<tw::charset::IsoLatin> { static tw::charset::IsoLatin make( int p) { return tw::charset::IsoLatin( p); } };

template <unsigned int N>
struct CutBuffer :public tw::StaticBuffer
{
	CutBuffer() :tw::StaticBuffer(N){}
};
template <class B> struct BufInfo { static std::string flag( const B&) { return ""; } };
template <unsigned int N> struct BufInfo<CutBuffer<N> > { static std::string flag( const CutBuffer<N>& b) { return b.overflow()?"ovf":"fit"; } };

/// one call, suspended by a longjmp if the chunk is exhausted
template <class SC>
int callNext( SC* sc, unsigned short mask)
{
	if (setjmp( g_eom)) return -1;
	return (int)sc->nextItem( mask);
}
template <class SC>
int callIter( SC* sc, typename SC::iterator* it, int how)
{
	if (setjmp( g_eom)) return -1;
	switch (how)
	{
		case 0: *it = sc->begin(); break;
		case 1: ++*it; break;
		case 2: { typename SC::iterator old = (*it)++; break; }
		case 3: *it = sc->begin( false); return 0;
	}
	return (int)(*it)->type();
}

template <class IT, class IN, class OUT, class BUF>
std::string scanWith( const Req& r)
{
	typedef tw::XMLScanner<IT,IN,OUT,BUF> SC;
	std::string res;
	long maxcalls = 2 * (long)r.doc.size() + 64;
	bool iter = r.mode.find_first_of( "ijb") != std::string::npos;
	bool copy = r.mode.find( 'c') != std::string::npos;
	bool ahead = r.mode.find( 'r') != std::string::npos && !Source<IT>::SharesInput;
	bool assign = r.mode.find( 'a') != std::string::npos;
	bool eommode = r.mode.find_first_of( "kK") != std::string::npos;
	try
	{
		Source<IT> src( r);
		SC* sc = 0;
		if (r.mode.find('d') != std::string::npos)
		{
			// default construction, source assigned later
			if (r.page > 1) sc = new SC( MakeIn<IN>::make( r.page)); else sc = new SC();
			sc->setSource( src.itr());
		}
		else if (r.ents) sc = r.page ? new SC( MakeIn<IN>::make( r.page), src.itr(), entityMap( r.ents)) : new SC( src.itr(), entityMap( r.ents));
		else sc = r.page ? new SC( MakeIn<IN>::make( r.page), src.itr()) : new SC( src.itr());
		SC* other = 0;
		struct Own { SC*& p; Own( SC*& p_) :p(p_){} ~Own() { delete p; } } own( sc), own2( other);
		typename SC::iterator it;
		int istate = r.mode.find('b') != std::string::npos ? 3 : 0;
		long call = 0;
		int afterexit = 0;
		for (;;)
		{
			if (++call > maxcalls) { res += " LOOP,,,,,,"; break; }
			unsigned short mask = r.masks.empty() ? 0xFFFF : (unsigned short)r.masks[ (call-1) % r.masks.size()];
			int t;
			for (;;)
			{
				if (iter)
				{
					if (istate == 3) { callIter( sc, &it, 3); istate = 1; }
					t = callIter( sc, &it, istate ? (r.mode.find('j') != std::string::npos ? 2 : 1) : 0);
				}
				else t = callNext( sc, mask);
				if (copy && !iter)
				{
					SC* cp = new SC( *sc);
					if (ahead && t != SC::Exit && t != SC::ErrorOccurred && !eommode) { sc->nextItem(); sc->nextItem(); }
					delete sc;
					sc = cp;
				}
				if (assign && !iter)
				{
					// continue on an object in an older state that gets the current one assigned
					if (!other) other = new SC( *sc); else *other = *sc;
					std::swap( other, sc);
					if (ahead && t != SC::Exit && t != SC::ErrorOccurred && !eommode) { other->nextItem(); other->nextItem(); }
				}
				if (t != -1) break;
				if (!src.more( *sc, r)) { res += " STARVED,,,,,,"; return res; }
			}
			if (iter) istate = 1;
			std::string content;
			std::string msg = BufInfo<BUF>::flag( sc->getItem());
			const char* err = "";
			if (t == SC::ErrorOccurred)
			{
				if (iter)
				{
					const char* m = it->error();
					msg = m?m:"(null)";
					if (it->content() && m && std::string( it->content(), it->size()) != m) msg += "/content differs";
					if (it->valid()) msg += "/valid";
					if (it == sc->end() || !(it != sc->end()) || sc->end() == it) msg += "/end";
					if (std::string( it->name()) != typeName( t)) msg += "/name";
				}
				const char* m = 0;
				err = errName( sc->getError( &m));
				if (!iter) msg = m?m:"(null)";
				for (std::size_t i=0; i<msg.size(); ++i) if (msg[i] == ' ' || msg[i] == ',') msg[i] = '_';
			}
			else if (iter)
			{
				content = std::string( it->content(), it->size());
				if (it->error()) msg = "error_set";
				if ((t != SC::Exit) != it->valid()) msg = "valid_wrong";
				if (std::string( it->name()) != typeName( t)) msg = std::string("name_") + it->name();
				if ((it == sc->end()) != (t == SC::Exit) || (it != sc->end()) == (t == SC::Exit)) msg = "end_wrong";
			}
			else
			{
				content = std::string( sc->getItemPtr(), sc->getItemSize());
				if (sc->getItemSize() != sc->getItem().size()) msg = "size_differs";
			}
			res += std::string(" ") + typeName( t) + "," + hex( content) + "," + str( (long)sc->getPosition()) + ","
				+ str( (long)sc->getTokenPosition()) + "," + err + "," + msg;
			if (t == SC::ErrorOccurred) break;
			if (t == SC::Exit && ++afterexit == 3) break;
		}
	}
	catch (const tw::exception& e)
	{
		res += std::string(" EXC,,,,") + causeName( e.cause) + "," + e.what();
	}
	return res;
}
#endif
