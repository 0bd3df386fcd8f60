// path selection: -DVATM=character set of the automaton
#include "pathobj.hpp"
#define STR1(x) #x
#define STR(x) STR1(x)
#define KIND(SRC,ATM) \
	static RegScript reg##SRC( "path" #SRC "-" STR(VATM), &runScript<PathObj<tw::XMLPathSelectAutomatonParser<SRC,VATM>,VATM,tw::DefaultStackType>,PathCtx>);
KIND(IsoLatin,VATM)
KIND(UTF8,VATM)
KIND(UTF16BE,VATM)
KIND(UTF16LE,VATM)
KIND(UCS2BE,VATM)
KIND(UCS2LE,VATM)
KIND(UCS4BE,VATM)
KIND(UCS4LE,VATM)
static RegScript regP( "pathP-" STR(VATM), &runScript<PathObj<tw::XMLPathSelectAutomaton<VATM>,VATM,tw::DefaultStackType>,PathCtx>);
static RegScript regD( "pathD-" STR(VATM), &runScript<PathObj<tw::XMLPathSelectAutomaton<VATM>,VATM,DequeStack>,PathCtx>);
