// objects that define path expressions and select
#ifndef VERIF_PATHOBJ_HPP
#define VERIF_PATHOBJ_HPP
#include "ops.hpp"
#include <deque>
#include <typeinfo>
#include <algorithm>
#include "textwolf/charset.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathselect.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
using namespace textwolf::charset;
namespace {
template <typename E> struct DequeStack :public std::deque<E> {};

inline int num4( const std::string& h) { std::string b = unhex( h); unsigned int v = 0; for (std::size_t i=0; i<b.size(); ++i) v = v*256 + (unsigned char)b[i]; return (int)v; }
inline std::string hex4( int t) { unsigned int v = (unsigned int)t; char b[4] = {(char)(v>>24),(char)(v>>16),(char)(v>>8),(char)v}; return hex( b, 4); }

struct PathCtx
{
	long it, alt, push, share;
	PathCtx( const Params& p) :it(p.n("it")),alt(p.n("alt")),push(p.n("push")),share(p.n("share")){}
};
/// exactly sized copies of the names and values given to the operators
struct Name
{
	Block b;
	Name( const std::string& h) :b( unhex( h),4){}
	operator const char*() const { return b.p; }
};
template <class SEL, class EV>
std::string results( SEL& sel, const EV& first, long it)
{
	std::vector<int> r;
	EV i( first), e = sel.end();
	switch (it)
	{
		case 0: for (; i!=e; ++i) r.push_back( *i); break;
		case 1: for (; !(i==e); i++) r.push_back( *i.operator->()); break;
		case 2: while (*i) { EV k( i); r.push_back( *k); ++k; i = k; } break;
		case 3: while (i!=e) { r.push_back( *i++); } ++i; break;
		case 4: for (; i!=e; ++i) r.push_back( *i); ++i; ++i; break;
	}
	std::string res = "x";
	for (std::size_t k=0; k<r.size(); ++k) res += hex4( r[k]);
	return res;
}
template <class ATM, class CS, template <typename> class STK>
struct PathObj
{
	typedef tw::XMLPathSelect<CS,STK> Sel;
	typedef typename tw::XMLPathSelectAutomaton<CS>::PathElement PE;
	PathCtx* c;
	ATM atm;			// used for definitions
	// automaton of the selection, shared by its copies
	struct Own
	{
		ATM a; int n; const bool shared;
		Own( const ATM& a_, bool s=false) :a(a_),n(0),shared(s){}
		static void* create( const void* a) { return new Own( *(const ATM*)a, true); }
		static void destroy( void* o) { delete (Own*)o; }
	};
	struct OwnRef
	{
		Own* o;
		OwnRef() :o(0){}
		OwnRef( const OwnRef& r) :o(r.o) { if (o && !o->shared) ++o->n; }
		void set( Own* x) { if (x && !x->shared) ++x->n; if (o && !o->shared && --o->n == 0) delete o; o = x; }
		OwnRef& operator=( const OwnRef& r) { set( r.o); return *this; }
		~OwnRef() { set( 0); }
	};
	std::string defs;		// the definitions (shared automatons)
	OwnRef own, next;	// next: kept while an assignment is not completed
	Sel* sel;
	PathObj( PathCtx& c_) :c(&c_),sel(0){}
	PathObj( const PathObj& o) :c(o.c),atm(o.atm),defs(o.defs),own(o.own),next(o.next),sel(o.sel?new Sel( *o.sel):0){}
	PathObj& operator=( const PathObj& o)
	{
		if (this == &o) { atm = o.atm; if (sel) *sel = *o.sel; return *this; }
		atm = o.atm;
		if (c->share) defs = o.defs;
		next = o.own;
		if (sel && o.sel) *sel = *o.sel;
		else { Sel* n = o.sel?new Sel( *o.sel):0; delete sel; sel = n; }
		own = next;
		return *this;
	}
	~PathObj() { delete sel; }
	std::string dif( PathObj&) { return "na"; }
	void def( PE& p, const Args& a)
	{
		long alt = c->alt;
		for (std::size_t j=2; j<a.size();)
		{
			char o = unhex( a[j])[0];
			switch (o)
			{
				case 'd': if (alt) p.forAllDescendants(); else p--; j += 1; break;
				case 't': { Name n( a[j+1]); if (alt) p.selectTag( n); else p[ (const char*)n]; j += 2; break; }
				case 'T': if (alt) p.selectTag( 0); else p[ (const char*)0]; j += 1; break;
				case 'c': p.selectCloseTag(); j += 1; break;
				case 'a': { Name n( a[j+1]); if (alt) p.selectAttribute( n); else p( (const char*)n); j += 2; break; }
				case 'A': if (alt) p.selectAttribute( 0); else p( (const char*)0); j += 1; break;
				case 'i': { Name n( a[j+1]), v( a[j+2]); if (alt) p.ifAttribute( n, v); else p( n, v); j += 3; break; }
				case 'I': { Name v( a[j+1]); if (alt) p.ifAttribute( 0, v); else p( (const char*)0, v); j += 2; break; }
				case 'j': { Name n( a[j+1]); if (alt) p.ifAttribute( n, 0); else p( n, (const char*)0); j += 2; break; }
				case 'o': if (alt) p.selectContent(); else p(); j += 1; break;
				case 'f': p.FROM( std::strtol( a[j+1].c_str(), 0, 10)); j += 2; break;
				case 'u': p.TO( std::strtol( a[j+1].c_str(), 0, 10)); j += 2; break;
				case 'r': p.RANGE( std::strtol( a[j+1].c_str(), 0, 10), std::strtol( a[j+2].c_str(), 0, 10)); j += 3; break;
				case 'x': p.INDEX( std::strtol( a[j+1].c_str(), 0, 10)); j += 2; break;
				case '=': if (alt) p.assignType( num4( a[j+1])); else p = num4( a[j+1]); j += 2; break;
				default: j = a.size();
			}
		}
	}
	std::string add( tw::XMLPathSelectAutomaton<CS>&, int, const Block&) { return "BADOP"; }
	template <class SRC>
	std::string add( tw::XMLPathSelectAutomatonParser<SRC,CS>& m, int t, const Block& b) { return str( (long)m.addExpression( t, b.p, b.n)); }
	std::string op( const Args& a)
	{
		if (c->share && (a[0] == "def" || a[0] == "add")) for (std::size_t j=0; j<a.size(); ++j) if (j != 1) defs += a[j] + " ";
		if (a[0] == "def")
		{
			PE p = *atm;
			if (c->alt == 2) { PE q( p); def( q, a); } else def( p, a);
			return "ok";
		}
		if (a[0] == "add") { Block b( unhex( a[2])); return add( atm, num4( a[3]), b); }
		if (a[0] == "str") { std::string t( atm.tostring()); return "x" + hex( t.c_str(), t.size()); }
		if (a[0] == "ev" || a[0] == "look")
		{
			if (!sel) { if (!own.o) own.set( c->share ? (Own*)sharedObject( std::string( typeid(Own).name()) + " " + defs, &Own::create, &atm, &Own::destroy) : new Own( atm)); sel = new Sel( &own.o->a); }
			if (a[0] == "look")
			{
				// the types given by the elements of the second type directly behind any element of the first type
				std::vector<unsigned int> st;
				std::vector<int> ty;
				sel->getTokenTypeMatchingStates( (tw::XMLScannerBase::ElementType)std::strtol( a[2].c_str(), 0, 10), a[3] == "1", st);
				for (std::size_t j=0; j<st.size(); ++j) own.o->a.getEmmitedTokens( st[j], (tw::XMLScannerBase::ElementType)std::strtol( a[4].c_str(), 0, 10), ty);
				std::string res = "x";
				for (std::size_t j=0; j<ty.size(); ++j) res += hex4( ty[j]);
				return res;
			}
			Block k( unhex( a.size()>3?a[3]:""));
			tw::XMLScannerBase::ElementType t = (tw::XMLScannerBase::ElementType)std::strtol( a[2].c_str(), 0, 10);
			if (c->push) return results( *sel, sel->push( t, std::string( k.p, k.n)), c->it);
			return results( *sel, sel->push( t, k.p, (int)k.n), c->it);
		}
		return "BADOP";
	}
};
}
#endif
