// common parts of the harness programs: line protocol, hex, watchdog
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <new>
#include <unistd.h>
#include <signal.h>

inline std::string hex( const char* p, std::size_t n)
{
	static const char* H = "0123456789abcdef";
	std::string rt;
	for (std::size_t i=0; i<n; ++i) { rt += H[((unsigned char)p[i])>>4]; rt += H[((unsigned char)p[i])&15]; }
	return rt;
}
inline std::string hex( const std::string& s) { return hex( s.c_str(), s.size()); }
inline int hexv( char c) { return c<='9'?c-'0':(c|32)-'a'+10; }
inline std::string unhex( const std::string& s)
{
	std::string rt;
	for (std::size_t i=0; i+1<s.size(); i+=2) rt += (char)(hexv(s[i])*16+hexv(s[i+1]));
	return rt;
}
inline std::vector<std::string> split( const std::string& s, char d)
{
	std::vector<std::string> rt;
	std::string cur;
	for (std::size_t i=0; i<s.size(); ++i) { if (s[i]==d) { rt.push_back( cur); cur.clear(); } else cur += s[i]; }
	rt.push_back( cur);
	return rt;
}
inline std::vector<long> nums( const std::string& s)
{
	std::vector<long> rt;
	if (s.empty() || s == "-") return rt;
	std::vector<std::string> p = split( s, ',');
	for (std::size_t i=0; i<p.size(); ++i) rt.push_back( std::strtol( p[i].c_str(), 0, 10));
	return rt;
}
inline std::string str( long v) { char b[32]; std::sprintf( b, "%ld", v); return b; }

/// exact size heap copy of a block, so that the address sanitizer sees every access outside of it
struct Block
{
	char* p;
	std::size_t n;
	explicit Block( const std::string& s, std::size_t pad=0) :p((char*)std::malloc( s.size()+pad?s.size()+pad:1)),n(s.size())
	{
		if (!p) throw std::bad_alloc();
		std::memcpy( p, s.c_str(), s.size());
		std::memset( p+s.size(), 0, pad);
	}
	~Block() { std::free( p); }
private:
	Block( const Block&);
	void operator=( const Block&);
};

/// the limit of a request counts the time used by the process; a machine that is busy gets six times as much
struct Limit { double cpu; unsigned int sec; int rounds; };
inline Limit& limitOf() { static Limit l; return l; }
inline double cpuTime() { struct timespec t; return ::clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &t)?0.0:t.tv_sec + t.tv_nsec * 1e-9; }
inline void onAlarm( int)
{
	Limit& l = limitOf();
	if (cpuTime() - l.cpu < l.sec * 0.5 && ++l.rounds < 6) { ::alarm( l.sec); return; }
	static const char m[] = "HANG\n"; if (::write( 2, m, 5)) {} ::_exit( 98);
}

typedef std::string (*Handler)( const std::vector<std::string>& req);

inline int serve( Handler h, unsigned int limit=10)
{
	::signal( SIGALRM, onAlarm);
	std::string line;
	while (std::getline( std::cin, line))
	{
		limitOf().cpu = cpuTime(); limitOf().sec = limit; limitOf().rounds = 0;
		::alarm( limit);
		std::string res;
		try
		{
			res = h( split( line, ' '));
		}
		catch (const std::exception& e)
		{
			res = std::string("EXC ") + e.what();
		}
		::alarm( 0);
		std::fwrite( res.c_str(), 1, res.size(), stdout);
		std::fputc( '\n', stdout);
		std::fflush( stdout);
	}
	return 0;
}
#endif
