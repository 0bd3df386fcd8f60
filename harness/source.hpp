// sources of bytes: context and factory per iterator type
#ifndef VERIF_SOURCE_HPP
#define VERIF_SOURCE_HPP
#include "ops.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
extern __thread jmp_buf g_eom;

struct ScriptStream :public tw::IStream
{
	ScriptStream( const Params& p) :doc(p.h("doc")),pos(0),k(0),gran(p.l("cuts")),failat(p.n("fail",-1)),failmode((int)p.n("failmode",0)),err(0),failed(false){}
	virtual ~ScriptStream(){}
	virtual std::size_t read( void* buf, std::size_t bufsize)
	{
		std::size_t n = bufsize;
		if (!gran.empty()) { std::size_t g = (std::size_t)gran[ k++ % gran.size()]; if (g && g < n) n = g; }
		// failmode 0: bytes before the failure are delivered by a read of their own, all reads after fail
		//          1: the read reaching the failing byte fails and delivers the bytes before it, end of input after
		//          2: same, and all reads after fail
		//          3: the read reaching the failing byte fails without bytes, the next one continues
		if (failmode) err = 0;
		if (failmode && failed)
		{
			if (failmode == 1) return 0;
			if (failmode == 2) { err = 5; return 0; }
		}
		else if (failmode && failat >= 0 && pos + n > (std::size_t)failat && (std::size_t)failat < doc.size()+1)
		{
			failed = true; err = 5;
			if (failmode == 3) return 0;
			n = (std::size_t)failat > pos ? failat - pos : 0;
		}
		else if (!failmode && failat >= 0 && pos + n > (std::size_t)failat) n = (std::size_t)failat > pos ? failat - pos : 0;
		if (pos + n > doc.size()) n = doc.size() - pos;
		if (!failmode && n == 0 && failat >= 0 && pos >= (std::size_t)failat) { err = 5; return 0; }
		std::memcpy( buf, doc.c_str()+pos, n);
		pos += n;
		return n;
	}
	virtual int errorcode() const { return err; }
	std::string doc; std::size_t pos; std::size_t k; std::vector<long> gran; long failat; int failmode; int err; bool failed;
};
struct ScriptStreamBuf :public std::streambuf
{
	ScriptStreamBuf( const Params& p) :s(p){}
	virtual int_type underflow()
	{
		std::size_t n = s.read( buf, sizeof(buf));
		if (n == 0) { if (s.err) throw std::runtime_error( "read"); return traits_type::eof(); }
		setg( buf, buf, buf+n);
		return traits_type::to_int_type( *gptr());
	}
	ScriptStream s; char buf[ 16];
};
template <class IT> struct Feed;
template <> struct Feed<char*>
{
	Block b;
	Feed( const Params& p) :b(p.h("doc"),p.n("pad",8)){}
	char* make() { return b.p; }
	static bool put( Feed&, char*&, std::size_t&) { return false; }
};
template <> struct Feed<tw::CStringIterator>
{
	Block b; std::string s; long how;
	Feed( const Params& p) :b(p.h("doc"),p.n("ctor")==1?1:0),s(p.h("doc")),how(p.n("ctor")){}
	tw::CStringIterator make()
	{
		if (how == 1) return tw::CStringIterator( (const char*)b.p);
		if (how == 2) return tw::CStringIterator( s);
		return tw::CStringIterator( b.p, b.n);
	}
	static bool put( Feed&, tw::CStringIterator&, std::size_t&) { return false; }
};
template <> struct Feed<tw::IStreamIterator>
{
	ScriptStream s; ScriptStreamBuf sb; std::istream is; tw::StdInputStream* sd; long bufsize;
	Feed( const Params& p) :s(p),sb(p),is(&sb),sd(0),bufsize(p.n("bufsize",8192))
	{
		if (p.n("ctor") == 1) sd = new tw::StdInputStream( is);
		if (p.n("ctor") == 2) { tw::StdInputStream orig( is); sd = new tw::StdInputStream( orig); }
	}
	~Feed() { delete sd; }
	tw::IStreamIterator make() { return tw::IStreamIterator( sd?(tw::IStream*)sd:(tw::IStream*)&s, bufsize); }
	static bool put( Feed&, tw::IStreamIterator&, std::size_t&) { return false; }
private:
	Feed( const Feed&);
	void operator=( const Feed&);
};
template <> struct Feed<tw::SrcIterator>
{
	std::vector<Block*> blocks; bool chunked;
	Feed( const Params& p)
	{
		std::string doc = p.h("doc");
		chunked = p.n("ctor") == 1;
		if (chunked)
		{
			std::vector<long> cuts = p.l("cuts");
			std::size_t pos = 0;
			for (std::size_t i=0; i<cuts.size(); ++i)
			{
				if (pos > doc.size()) pos = doc.size();
				blocks.push_back( new Block( doc.substr( pos, cuts[i])));
				pos += cuts[i];
			}
			if (pos < doc.size()) blocks.push_back( new Block( doc.substr( pos)));
			if (blocks.empty()) blocks.push_back( new Block( ""));
		}
		else blocks.push_back( new Block( doc));
	}
	~Feed() { for (std::size_t i=0; i<blocks.size(); ++i) delete blocks[i]; }
	tw::SrcIterator make() { return tw::SrcIterator( blocks[0]->p, blocks[0]->n, chunked?&g_eom:0); }
	/// k: number of chunks put before
	static bool put( Feed& f, tw::SrcIterator& it, std::size_t& k)
	{
		static char none[1] = {0};
		++k;
		if (k < f.blocks.size()) it.putInput( f.blocks[k]->p, f.blocks[k]->n, &g_eom);
		else it.putInput( none, 0);
		return true;
	}
private:
	Feed( const Feed&);
	void operator=( const Feed&);
};
#endif
