// all output encodings for the input encoding IN, source iterator over blocks
#include "scan.hpp"
using namespace textwolf::charset;
#define S1(x) #x
#define S(x) S1(x)
#define R(OUT) static Reg r_##OUT( S(VIN) "/" #OUT "/S", &scanWith<tw::SrcIterator,VIN,OUT,std::string>);
#ifdef HALF1
R(IsoLatin) R(UTF8) R(UTF16BE) R(UTF16LE)
#else
R(UCS2BE) R(UCS2LE) R(UCS4BE) R(UCS4LE)
#endif
