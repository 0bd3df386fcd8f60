// all source iterators for some encodings, static output buffers
#include "scan.hpp"
using namespace textwolf::charset;
#define S1(x) #x
#define S(x) S1(x)
static Reg r1( S(VIN) "/" S(VOUT) "/P", &scanWith<char*,VIN,VOUT,std::string>);
static Reg r2( S(VIN) "/" S(VOUT) "/C", &scanWith<tw::CStringIterator,VIN,VOUT,std::string>);
static Reg r3( S(VIN) "/" S(VOUT) "/I", &scanWith<tw::IStreamIterator,VIN,VOUT,std::string>);
#ifdef SRC
static Reg r4( S(VIN) "/" S(VOUT) "/S", &scanWith<tw::SrcIterator,VIN,VOUT,std::string>);
#endif
#ifdef CUT
static Reg r5( S(VIN) "/" S(VOUT) "/S1", &scanWith<tw::SrcIterator,VIN,VOUT,CutBuffer<1> >);
static Reg r6( S(VIN) "/" S(VOUT) "/S5", &scanWith<tw::SrcIterator,VIN,VOUT,CutBuffer<5> >);
static Reg r7( S(VIN) "/" S(VOUT) "/S16", &scanWith<tw::SrcIterator,VIN,VOUT,CutBuffer<16> >);
#endif
