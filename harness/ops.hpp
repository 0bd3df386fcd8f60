// scripts of operations on objects (originals, copies) of one component
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "common.hpp"
#include "textwolf/exception.hpp"
#include <setjmp.h>
namespace tw = textwolf;

typedef std::vector<std::string> Args;	// args[0] the operation, args[1] the slot, args[2..] arguments
/// parameters of a script, by name
struct Params
{
	std::map<std::string,std::string> m;
	Params( const std::string& s)
	{
		std::vector<std::string> p = split( s, ',');
		for (std::size_t i=0; i<p.size(); ++i) { std::size_t e = p[i].find('='); if (e != std::string::npos) m[ p[i].substr(0,e)] = p[i].substr(e+1); }
	}
	std::string s( const char* n) const { std::map<std::string,std::string>::const_iterator i = m.find(n); return i == m.end() ? std::string() : i->second; }
	long n( const char* n_, long d=0) const { std::string v = s(n_); return v.empty() ? d : std::strtol( v.c_str(), 0, 10); }
	std::string h( const char* n_) const { return unhex( s(n_)); }
	std::vector<long> l( const char* n_) const
	{
		std::vector<long> rt; std::string v = s(n_); if (v.empty()) return rt;
		std::vector<std::string> p = split( v, '.');
		for (std::size_t i=0; i<p.size(); ++i) rt.push_back( std::strtol( p[i].c_str(), 0, 10));
		return rt;
	}
};
const char* causeName( int c);
inline std::string exc( const tw::exception& e)
{
	return std::string("EXC/") + causeName( e.cause) + "/" + e.what();
}

#ifdef MEM
// memory: allocations may be made to fail while in a call
extern long g_arm;		// number of allocations until the one that fails, 0: none
extern bool g_armall;		// all following fail too
extern bool g_in;		// in a call
struct In { In() { g_in = true; } ~In() { g_in = false; } };
#endif
typedef std::string (*ScriptFn)( const Params& p, const std::vector<std::string>& ops);
std::map<std::string,ScriptFn>& scripts();
struct RegScript { RegScript( const std::string& n, ScriptFn f) { scripts()[n] = f; } };

/// wait for the turn of this thread
void turn();

/// objects only read, shared by all scripts of a request
void* sharedObject( const std::string& key, void* (*create)( const void*), const void* arg, void (*destroy)( void*));

/// O: object with copy constructor and assignment and op( args), C: the context shared by all objects of a script
template <class O, class C>
std::string runScript( const Params& p, const std::vector<std::string>& ops)
{
	C ctx( p);
	std::vector<O*> slot( 8, (O*)0);
	struct Clean { std::vector<O*>& s; Clean( std::vector<O*>& s_) :s(s_){} ~Clean() { for (std::size_t i=0; i<s.size(); ++i) delete s[i]; } } clean( slot);
	std::string res;
	for (std::size_t i=0; i<ops.size(); ++i)
	{
		turn();
		Args a = split( ops[i], ',');
		std::string r = "ok";
		std::size_t k = a.size() > 1 ? (std::size_t)std::strtol( a[1].c_str(), 0, 10) : 0;
		try
		{
#ifdef MEM
			if (a[0] == "arm") { g_arm = std::strtol( a[2].c_str(), 0, 10); g_armall = a.size() > 3; if (i) res += ";"; res += "ok"; continue; }
			if (a[0] != "new" && a[0] != "rm" && !(a[0] == "cp"?slot[ std::strtol( a[2].c_str(), 0, 10)]:slot[k]?a[0]=="as"?slot[ std::strtol( a[2].c_str(), 0, 10)]:slot[k]:0)) { if (i) res += ";"; res += "none"; continue; }
			In in;
#endif
			if (a[0] == "new") { delete slot[k]; slot[k] = 0; slot[k] = new O( ctx); }
			else if (a[0] == "cp") { O* o = new O( *slot[ std::strtol( a[2].c_str(), 0, 10)]); delete slot[k]; slot[k] = o; }
			else if (a[0] == "as") { *slot[k] = *slot[ std::strtol( a[2].c_str(), 0, 10)]; }
			else if (a[0] == "rm") { delete slot[k]; slot[k] = 0; }
			else if (a[0] == "dif") { r = slot[k]->dif( *slot[ std::strtol( a[2].c_str(), 0, 10)]); }
			else r = slot[k]->op( a);
		}
#ifdef MEM
		catch (const tw::exception& e) { r = e.cause == tw::throws_exception::OutOfMem ? std::string("OOM") : exc( e); }
		catch (const std::bad_alloc&) { r = "OOM"; }
#else
		catch (const tw::exception& e) { r = exc( e); }
#endif
		if (i) res += ";";
		res += r;
	}
	return res;
}
#endif
