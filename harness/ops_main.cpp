// harness for scripts of operations on the components: 'ops KIND PARAMS SCRIPT'
#include "ops.hpp"
#include <pthread.h>

std::map<std::string,ScriptFn>& scripts() { static std::map<std::string,ScriptFn> m; return m; }
__thread jmp_buf g_eom;

const char* causeName( int c)
{
	typedef tw::throws_exception T;
	switch (c)
	{
		case T::Unknown: return "Unknown";
		case T::DimOutOfRange: return "DimOutOfRange";
		case T::StateNumbersNotAscending: return "StateNumbersNotAscending";
		case T::InvalidParamState: return "InvalidParamState";
		case T::InvalidParamChar: return "InvalidParamChar";
		case T::DuplicateStateTransition: return "DuplicateStateTransition";
		case T::InvalidState: return "InvalidState";
		case T::IllegalParam: return "IllegalParam";
		case T::IllegalAttributeName: return "IllegalAttributeName";
		case T::OutOfMem: return "OutOfMem";
		case T::ArrayBoundsReadWrite: return "ArrayBoundsReadWrite";
		case T::NotAllowedOperation: return "NotAllowedOperation";
		case T::FileReadError: return "FileReadError";
		case T::IllegalXmlHeader: return "IllegalXmlHeader";
		case T::InvalidTagOffset: return "InvalidTagOffset";
		case T::CorruptTagStack: return "CorruptTagStack";
		case T::CodePageIndexNotSupported: return "CodePageIndexNotSupported";
	}
	return "?";
}
#ifdef MEM
long g_live, g_arm;
bool g_armall, g_in;
static bool refused()
{
	if (!g_in || g_arm <= 0) return false;
	if (g_arm == 1) { if (!g_armall) g_arm = 0; return true; }
	--g_arm;
	return false;
}
extern "C" void* __real_malloc( std::size_t n);
extern "C" void* __real_calloc( std::size_t n, std::size_t m);
extern "C" void* __real_realloc( void* p, std::size_t n);
extern "C" void __real_free( void* p);
extern "C" void* __wrap_malloc( std::size_t n) { if (refused()) return 0; void* p = __real_malloc( n); if (p) ++g_live; return p; }
extern "C" void* __wrap_calloc( std::size_t n, std::size_t m) { if (refused()) return 0; void* p = __real_calloc( n, m); if (p) ++g_live; return p; }
extern "C" void* __wrap_realloc( void* p, std::size_t n) { if (refused()) return 0; void* q = __real_realloc( p, n); if (q && !p) ++g_live; return q; }
extern "C" void __wrap_free( void* p) { if (p) --g_live; __real_free( p); }
#if __cplusplus < 201103L
#define THROWS throw(std::bad_alloc)
#else
#define THROWS
#endif
void* operator new( std::size_t n) THROWS { if (refused()) throw std::bad_alloc(); void* p = __real_malloc( n?n:1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[]( std::size_t n) THROWS { return operator new( n); }
void operator delete( void* p) throw() { if (p) --g_live; __real_free( p); }
void operator delete[]( void* p) throw() { operator delete( p); }
void operator delete( void* p, std::size_t) throw() { operator delete( p); }
void operator delete[]( void* p, std::size_t) throw() { operator delete( p); }

// 'mem KIND PARAMS SCRIPT': as 'ops', finally the number of blocks not freed
static std::string memHandler( ScriptFn f, const std::vector<std::string>& req)
{
	std::vector<std::string> ops = split( req[3], ';'), warm;
	for (std::size_t i=0; i<ops.size(); ++i) if (ops[i].compare( 0, 3, "arm") != 0) warm.push_back( ops[i]);
	g_arm = 0;
	{ std::string w = f( Params( req[2]), warm); }
	std::string ans;
	ans.reserve( 64);
	Params p( req[2]);
	long live = g_live;
	std::string r = f( p, ops);
	g_arm = 0;
	live = g_live - live - (r.capacity() > 15 ? 1 : 0);
	return r + ";" + str( live);
}
#endif
// 'par SCHEDULE (KIND PARAMS SCRIPT)+': scripts on threads of their own, their operations in the order of the schedule, or free
struct Baton
{
	pthread_mutex_t m; pthread_cond_t c; pthread_barrier_t bar; std::vector<long> sched; std::size_t pos; bool free;
};
static Baton g_baton;
static __thread int g_lane = -1;
static __thread bool g_hold = false;
void turn()
{
	if (g_lane < 0 || g_baton.free) return;
	pthread_mutex_lock( &g_baton.m);
	if (g_hold) { ++g_baton.pos; pthread_cond_broadcast( &g_baton.c); }
	g_hold = true;
	while (g_baton.pos < g_baton.sched.size() && g_baton.sched[ g_baton.pos] != g_lane) pthread_cond_wait( &g_baton.c, &g_baton.m);
	pthread_mutex_unlock( &g_baton.m);
}
struct Shared { void* p; void (*destroy)( void*); };
static std::map<std::string,Shared> g_shared;
static pthread_mutex_t g_sharedLock = PTHREAD_MUTEX_INITIALIZER;
void* sharedObject( const std::string& key, void* (*create)( const void*), const void* arg, void (*destroy)( void*))
{
	pthread_mutex_lock( &g_sharedLock);
	Shared& s = g_shared[ key];
	if (!s.p) { s.p = create( arg); s.destroy = destroy; }
	void* rt = s.p;
	pthread_mutex_unlock( &g_sharedLock);
	return rt;
}
static void clearShared()
{
	for (std::map<std::string,Shared>::iterator i=g_shared.begin(); i!=g_shared.end(); ++i) if (i->second.p) i->second.destroy( i->second.p);
	g_shared.clear();
}
struct Lane { int n; ScriptFn f; std::string params; std::vector<std::string> ops; std::string ans; };
static void* runLane( void* p)
{
	Lane* l = (Lane*)p;
	g_lane = l->n; g_hold = false;
	pthread_barrier_wait( &g_baton.bar);
	try { l->ans = l->f( Params( l->params), l->ops); }
	catch (const tw::exception& e) { l->ans = exc( e); }
	catch (const std::exception& e) { l->ans = std::string("EXC ") + e.what(); }
	if (!g_baton.free)
	{
		pthread_mutex_lock( &g_baton.m);
		if (g_hold) { ++g_baton.pos; pthread_cond_broadcast( &g_baton.c); }
		g_hold = false;
		pthread_mutex_unlock( &g_baton.m);
	}
	return 0;
}
static std::string parHandler( const std::vector<std::string>& req)
{
	std::vector<Lane> lanes;
	for (std::size_t i=2; i+2<req.size(); i+=3)
	{
		std::map<std::string,ScriptFn>::const_iterator f = scripts().find( req[i]);
		if (f == scripts().end()) return "NOKIND";
		Lane l; l.n = (int)lanes.size(); l.f = f->second; l.params = req[i+1]; l.ops = split( req[i+2], ';');
		lanes.push_back( l);
	}
	g_baton.free = req[1] == "free";
	g_baton.pos = 0;
	g_baton.sched.clear();
	if (!g_baton.free) { std::vector<std::string> s = split( req[1], '.'); for (std::size_t i=0; i<s.size(); ++i) g_baton.sched.push_back( std::strtol( s[i].c_str(), 0, 10)); }
	pthread_mutex_init( &g_baton.m, 0);
	pthread_cond_init( &g_baton.c, 0);
	pthread_barrier_init( &g_baton.bar, 0, lanes.size());
	std::vector<pthread_t> th( lanes.size());
	for (std::size_t i=0; i<lanes.size(); ++i) if (pthread_create( &th[i], 0, &runLane, &lanes[i])) std::abort();
	for (std::size_t i=0; i<lanes.size(); ++i) pthread_join( th[i], 0);
	pthread_barrier_destroy( &g_baton.bar);
	pthread_cond_destroy( &g_baton.c);
	pthread_mutex_destroy( &g_baton.m);
	clearShared();
	std::string ans;
	for (std::size_t i=0; i<lanes.size(); ++i) { if (i) ans += " "; ans += lanes[i].ans; }
	return ans;
}
static std::string handler( const std::vector<std::string>& req)
{
	if (req[0] == "causes")
	{
		std::string r;
		for (int c=0; c<=(int)tw::throws_exception::CodePageIndexNotSupported; ++c)
		{
			tw::exception e( (tw::throws_exception::Cause)c);
			tw::exception f( e);
			tw::exception g( tw::throws_exception::Unknown);
			g = f;
			r += std::string(c?";":"") + causeName( c) + "/" + e.what() + "/" + f.what() + "/" + g.what();
		}
		return r;
	}
	if (req[0] == "par" && req.size() > 4) return parHandler( req);
	if (req.size() < 4 || req[0] != "ops") return "BADREQ";
	std::map<std::string,ScriptFn>::const_iterator f = scripts().find( req[1]);
	if (f == scripts().end()) return "NOKIND";
#ifdef MEM
	return memHandler( f->second, req);
#endif
	try { return f->second( Params( req[2]), split( req[3], ';')); }
	catch (const tw::exception& e) { return exc( e); }
}
int main() { return serve( handler); }
