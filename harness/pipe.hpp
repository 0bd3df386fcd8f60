// common part of the scripts that compose components: sources fed chunk by chunk, entities, the next item
#ifndef PIPE_HPP
#define PIPE_HPP
#include "pathobj.hpp"
#include "source.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlhdrparser.hpp"
namespace {
template <class CS> struct MakeCs { static CS make( int) { return CS(); } };
template <> struct MakeCs<IsoLatin> { static IsoLatin make( int p) { return p?IsoLatin(p):IsoLatin(); } };

// the chunks of the document that were not put to the scanner on creation
template <class IT> struct Rest
{
	template <class CTX> static IT start( CTX& c, std::size_t&, const std::string*) { return c.feed.make(); }
	template <class SC,class CTX> static bool more( SC&, CTX&, std::size_t&) { return false; }
	template <class CTX> static bool chunk( CTX&, std::size_t, std::string&) { return false; }
};
template <> struct Rest<tw::SrcIterator>
{
	template <class CTX> static tw::SrcIterator start( CTX& c, std::size_t& k, const std::string* consumed)
	{
		if (!consumed) { k = 0; return c.feed.make(); }
		// what the header parser consumed is put first
		c.own.reserve( c.own.size()+1);
		Block* b = new Block( *consumed);
		c.own.push_back( b);
		return tw::SrcIterator( b->p, b->n, c.feed.chunked?&g_eom:0);
	}
	template <class SC,class CTX> static bool more( SC& sc, CTX& c, std::size_t& k)
	{
		if (!c.feed.chunked || k > c.feed.blocks.size()) return false;
		tw::SrcIterator& it = sc.getIterator();
		return Feed<tw::SrcIterator>::put( c.feed, it, k);
	}
	template <class CTX> static bool chunk( CTX& c, std::size_t k, std::string& b)
	{
		if (k >= c.feed.blocks.size()) return false;
		b = std::string( c.feed.blocks[k]->p, c.feed.blocks[k]->n);
		return true;
	}
};
typedef std::map<const char*,tw::UChar> Ents;
struct MakeEnts
{
	Ents m;
	MakeEnts() { m["uuml"] = 252; m["eur"] = 0x20ac; m["x"] = 'x'; m["quot2"] = '"'; m["nl"] = 10; }
};
const MakeEnts g_ents;
const Ents& entities() { return g_ents.m; }
template <class SC>
int pipeNext( SC* sc)
{
	if (setjmp( g_eom)) return -1;
	return (int)sc->nextItem();
}

template <class IT>
struct PipeCtx
{
	Params p;
	PathCtx path;
	Feed<IT> feed;
	std::vector<Block*> own;
	PipeCtx( const Params& p_) :p(p_),path(p_),feed(p_){}
	~PipeCtx() { for (std::size_t i=0; i<own.size(); ++i) delete own[i]; }
};
}
#endif
