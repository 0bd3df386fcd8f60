From 31f2a1baf47844b85db6af00d6a57d6e3f9cb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 01/44] fix: report unexpected end of text in unterminated
 comments, PIs, DOCTYPE subsets and CDATA instead of skipping it forever

---
 include/textwolf/xmlscanner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..a7a7a2a 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -77,7 +77,7 @@ private:
 		size++;
 	}
 
-	/// \brief Define a transition for all control character types not firing yet in the last state defined
+	/// \brief Define a transition for all control character types (except the end of text) not firing yet in the last state defined
 	/// \param [in] nextState the follow state index defined for these transitions
 	void addOtherTransition( int nextState)
 	{
@@ -85,6 +85,7 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
+			if (inputchr == EndOfText) continue; //... the end of text must never be skipped
 			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
-- 
2.43.0


From 518ee152228f99b0dbbe598780d795058375d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 02/44] fix: terminate a CDATA section ended by more than two
 closing brackets ']]]>'

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a7a7a2a..e41b07a 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -354,7 +354,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From 3ce76cd2e9c96e3a14544253b122583d41c201e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 03/44] fix: accept a question mark not followed by '>' inside
 of a processing instruction

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index e41b07a..63dbe23 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -312,7 +312,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From b22faaef4ee789ae4ffac5050efff80156d03616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 04/44] fix: return only one immediate close tag event for '<a/
 >'

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 63dbe23..5c9a6dc 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -339,7 +339,7 @@ public:
 			[ TAGAVSQ  ].action(ReturnSQString,TagAttribValue)(Sq,TAGAVQE).miss(ErrStringNotTerminated)
 			[ TAGAVDQ  ].action(ReturnDQString,TagAttribValue)(Dq,TAGAVQE).miss(ErrStringNotTerminated)
 			[ TAGAVQE  ](EndOfLine,Cntrl,Space,TAGAISK)(Slash,TAGCLIM)(Gt,CONTENT).miss(ErrExpectedTagAttribute)
-			[ TAGCLIM  ].action(Return,CloseTagIm)(EndOfLine)(Cntrl)(Space)(Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ TAGCLIM  ].action(Return,CloseTagIm)(EndOfLine,Cntrl,Space,TAGCLSK)(Gt,CONTENT).miss(ErrExpectedTagEnd)
 			[ ENTITYSL ](Osb,CDATA)(Dash,COMDASH2).fallback(ENTITY)
 			[ ENTITY   ](Gt,ENTITYE)(EndOfLine)(Cntrl)(Space)(Dq,ENTITYDQ)(Sq,ENTITYSQ)(Osb,ENTITYLC).fallback(ENTITYID)
 			[ ENTITYE  ].action(Return,DocAttribEnd).fallback(SEEKTOK)
-- 
2.43.0


From be0e723eec47eafe411ee55b19a5e6fb8f4974b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 05/44] fix: look up user defined entities by name and not by
 the address of the name

---
 include/textwolf/xmlscanner.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 5c9a6dc..64a90bd 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -951,7 +952,9 @@ private:
 		}
 		else if (m_entityMap)
 		{
-			EntityMap::const_iterator itr = m_entityMap->find( str);
+			//... the map is ordered by the addresses of the names, so we have to compare all of them:
+			EntityMap::const_iterator itr = m_entityMap->begin();
+			while (itr != m_entityMap->end() && std::strcmp( itr->first, str) != 0) ++itr;
 			if (itr == m_entityMap->end())
 			{
 				error = ErrUndefinedCharacterEntity;
-- 
2.43.0


From adae2c7a6fea2115d49e7aa054e8416387d5812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 06/44] fix: print numeric character entities that could not be
 mapped as they are ('x' lost, ';' doubled)

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 64a90bd..b3c535c 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -583,6 +583,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
@@ -644,7 +645,6 @@ private:
 			{
 				if (tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From 69960120da735b2d5f60580057e3b382e7fb4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 07/44] fix: return the error string with the error element of
 the XML scanner iterator

---
 include/textwolf/xmlscanner.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index b3c535c..a0e5b12 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1262,8 +1262,17 @@ public:
 			if (input != 0)
 			{
 				element.m_type = input->nextItem(mask);
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				if (element.m_type == ErrorOccurred)
+				{
+					const char* errstr = getErrorString( input->error);
+					element.m_content = errstr?errstr:"";
+					element.m_size = std::strlen( element.m_content);
+				}
+				else
+				{
+					element.m_content = input->getItemPtr();
+					element.m_size = input->getItemSize();
+				}
 			}
 			return *this;
 		}
@@ -1301,9 +1310,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				skip();
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From 91dd0d02c584d5d6108434fd54a64b9ded118954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 08/44] fix: exception cause names following
 NotAllowedOperation were shifted

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From b98ad5b5012e93607177897854fdb4df938cd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 09/44] fix: map characters beyond 255 to their IsoLatin code
 page position

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..88e70e9 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From e9c4dd3309639ace22f381d831e6268a5f2b64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 10/44] fix: IsoLatin-3 tables were shifted behind every
 undefined position of the code page

---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index 88e70e9..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From 343d3b99d0fca000388c42920c3848202e5d5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 11/44] fix: reject low surrogates below 0xDC00 when decoding
 UTF-16

---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..f4bc940 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -128,7 +128,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From af4ff6e3155e42d4da1fa8dc549c0375995af354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 12/44] fix: report a failed read of an input stream as error
 also if errno is not set

---
 include/textwolf/istreamiterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..fae9b5c 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -68,13 +68,13 @@ public:
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno?errno:EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno?errno:EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From ec25365c776eb59516896444c172fd973219e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 13/44] fix: default construction and assignment of
 IStreamIterator freed memory not owned

---
 include/textwolf/istreamiterator.hpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index fae9b5c..73a40a4 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -116,10 +117,30 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o iterator to copy
 	IStreamIterator( const IStreamIterator& o)
-		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
+		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize?o.m_bufsize:1)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (o.m_readsize) std::memcpy( m_buf, o.m_buf, o.m_readsize);
+	}
+
+	/// \brief Assignment operator
+	/// \param [in] o iterator to copy
+	IStreamIterator& operator=( const IStreamIterator& o)
+	{
+		if (this != &o)
+		{
+			char* buf = (char*)std::malloc(o.m_bufsize?o.m_bufsize:1);
+			if (!buf) throw std::bad_alloc();
+			if (o.m_readsize) std::memcpy( buf, o.m_buf, o.m_readsize);
+			std::free(m_buf);
+			m_input = o.m_input;
+			m_buf = buf;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
 	}
 
 	/// \brief Element access
@@ -156,6 +177,7 @@ public:
 private:
 	bool fillbuf()
 	{
+		if (!m_input) return false;
 		m_abspos += m_readsize;
 		m_readsize = m_input->read( m_buf, m_bufsize);
 		m_readpos = 0;
-- 
2.43.0


From b6505286d9e0866ca455cc50e3ebece460fc1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 14/44] fix: assignment of a tag stack (XMLPrinter) shared and
 freed the buffer twice

---
 include/textwolf/xmltagstack.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..4e06a70 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -43,6 +43,21 @@ public:
 		if ((m_ptr=(char*)std::malloc( m_size)) == 0) throw std::bad_alloc();
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
+	/// \brief Assignment operator
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_size);
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = xx;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
 
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
-- 
2.43.0


From 0d8d41209af0a53679bea9eb4a7668f1a33dc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 15/44] fix: copies of a StaticBuffer own their memory (leak on
 copy, double free on assignment)

---
 include/textwolf/staticbuffer.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..7bc71b5 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
@@ -53,6 +53,24 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* ar = (char*)std::malloc( o.m_size?o.m_size:1);
+			if (!ar) throw std::bad_alloc();
+			std::memcpy( ar, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free(m_ar);
+			m_ar = ar;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From 10d96ec7d2808b971afe47743ec5ebfa3b324172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 16/44] fix: StaticBuffer element access one beyond the last
 element was not rejected

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 7bc71b5..cc9121d 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -141,7 +141,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -150,7 +150,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From 8c11cfc40b0f41cbae1a49fc7c6cb063161e799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 17/44] fix: copy of an XML scanner lost the state of the
 interrupted token

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a0e5b12..752cc31 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1021,11 +1021,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From dacc6f37d9e9ec564175970f240af2fef2886701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 18/44] fix: copy of a path selection lost the current scope

---
 include/textwolf/xmlpathselect.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..0323a0f 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -64,7 +64,7 @@ private:
 		unsigned int scope_iter;		//< position of currently visited token in the active scope
 
 		/// \brief Constructor
-		Context()				:type(XMLScannerBase::Content),key(0),keysize(0) {}
+		Context()				:type(XMLScannerBase::Content),key(0),keysize(0),scope_iter(0) {}
 
 		/// \brief Initialization
 		/// \param [in] p_type type of the current element processed
@@ -333,7 +333,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From a6c376ee546693ce653107b604b788d5dc071008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 19/44] fix: copy of a XML header parser lost the encoding and
 the last error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From b01de7075abb137cffa87e0633401ce4150f49c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 20/44] fix: content selected by another expression stopped the
 search for attributes of descendants

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 0323a0f..12e9a61 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -234,7 +234,7 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (tk->core.mask.rejects( context.type) && !(tk->core.follow && context.type == XMLScannerBase::Content))
 			{
 				//The token must not match anymore after encountering a reject item
 				tk->core.mask.reset();
-- 
2.43.0


From 18e9c54cb7c2de899836090fa5d12b12f36ed45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 21/44] fix: copies of a path selection iterator
 (postincrement) closed the scope of a close tag several times

---
 include/textwolf/xmlpathselect.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 12e9a61..26052b5 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -116,6 +116,7 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		closeProcessElement(); //... if not all results of the previous element have been fetched
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -146,6 +147,7 @@ private:
 				follows.resize( context.scope.range.followidx);
 				tokens.resize( context.scope.range.tokenidx_to);
 			}
+			context.type = XMLScannerBase::None; //... the scope must be closed only once
 		}
 	}
 
@@ -276,6 +278,7 @@ private:
 					{
 						context.key = 0;
 						context.keysize = 0;
+						closeProcessElement();
 						return 0; //end of all candidates
 					}
 				}
@@ -285,6 +288,7 @@ private:
 		{
 			context.key = 0;
 			context.keysize = 0;
+			closeProcessElement();
 		}
 		return type;
 	}
@@ -401,11 +405,6 @@ public:
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
 			:element(0),input(0) {}
-- 
2.43.0


From ff44b70239a34eb3542f04913654dfb4c97aaa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 22/44] fix: index ranges of path expressions counted every
 match twice

---
 include/textwolf/xmlpathselect.hpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 26052b5..bf3b956 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -157,28 +157,11 @@ private:
 	void produce( unsigned int tokenidx, const State& st)
 	{
 		const Token& tk = tokens[ tokenidx];
-		if (tk.core.cnt_end == -1)
+		if (tk.core.cnt_end != 0)
 		{
+			//... the counters are decremented in match when the element type is assigned
 			expand( st.next);
 		}
-		else
-		{
-			if (tk.core.cnt_end > 0)
-			{
-				if (--tokens[ tokenidx].core.cnt_end == 0)
-				{
-					tokens[ tokenidx].core.mask.reset();
-				}
-				if (tk.core.cnt_start <= 0)
-				{
-					expand( st.next);
-				}
-				else
-				{
-					--tokens[ tokenidx].core.cnt_start;
-				}
-			}
-		}
 	}
 
 	/// \brief check if an active token addressed by index matches to the currently processed element
-- 
2.43.0


From b72467898aef7b08d9536cf7cda55a39c51cec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 23/44] fix: attribute value conditions were cut at the first
 character not allowed in a tag name

---
 include/textwolf/xmlpathautomaton.hpp | 11 ++++++++++-
 include/textwolf/xmlscanner.hpp       | 12 +++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..d9423e6 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -582,6 +582,11 @@ public:
 		PathElement& doSelect( Operation op, const char* value)
 		{
 			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			struct IsValueCharMap :public XMLScannerBase::IsContentCharMap
+			{
+				IsValueCharMap()	{(*this)(Lt,true);}
+			};
+			static IsValueCharMap isValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -590,7 +595,11 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					const XMLScannerBase::IsTokenCharMap& isTokenCharMap
+						= (op == ThisAttributeValue || op == AttributeValue)
+						? (const XMLScannerBase::IsTokenCharMap&)isValueCharMap
+						: (const XMLScannerBase::IsTokenCharMap&)isTagCharMap;
+					if (!StaticXMLScanner::parseStaticToken( isTokenCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 752cc31..f8a4590 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -824,7 +824,17 @@ public:
 				}
 				else if (ch == Amp)
 				{
-					pc = parseStaticNumericEntityValue( ir);
+					InputReader entir( ir);
+					entir.skip();
+					pc = parseStaticNumericEntityValue( entir);
+					if (pc)
+					{
+						ir = entir;
+					}
+					else
+					{
+						pc = ir.chr();
+					}
 				}
 				else
 				{
-- 
2.43.0


From 24d01efbc3bf3a46b6cdc8bfabd9f2c78b79109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 24/44] fix: accept '-' and all non ASCII characters in
 identifiers of path expressions

---
 include/textwolf/xmlpathautomatonparse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..32baa2e 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -279,10 +279,10 @@ private:
 
 	static bool isIdentifierChar( SrcScanner& src)
 	{
-		if (src.control() == Undef || src.control() == Any)
+		if (src.control() == Undef || src.control() == Any || src.control() == Dash)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			return (*src > 127 || 0==std::strchr( opchr, (char)*src));
 		}
 		return false;
 	}
-- 
2.43.0


From ad9d47f21789290f387a0246f518b5565d021bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 25/44] fix: identifiers of path expressions were not null
 terminated for wide character sets

---
 include/textwolf/xmlpathautomatonparse.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 32baa2e..875275c 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -301,7 +301,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
-			return idlist.back().c_str();
+			return terminateString( idlist.back());
 		}
 		const char* parseValue( SrcScanner& src)
 		{
@@ -314,7 +314,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
-				return idlist.back().c_str();
+				return terminateString( idlist.back());
 			}
 			else if (isIdentifierChar(src))
 			{
@@ -341,6 +341,14 @@ private:
 			return rt;
 		}
 
+	private:
+		// terminate the string with a null character of the character set of the automaton
+		static const char* terminateString( std::string& str)
+		{
+			str.append( 4, '\0');
+			return str.c_str();
+		}
+
 	private:
 		const AtmCharSet* atmcharset;
 		std::list<std::string> idlist;
-- 
2.43.0


From 7a855ed2b54d1e439d0024a7a93cdde260e518a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 26/44] fix: the printer must not leave a tag with an attribute
 without value

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..74619a2 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -241,6 +241,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "printed attribute name without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
-- 
2.43.0


From b79cc5670021024c9986a03d7a28233821796e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 27/44] fix: the printer must not print the DOCTYPE inside of a
 tag

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 74619a2..6a91561 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -194,6 +194,11 @@ public:
 	/// \return true on success, false if failed (check lasterror())
 	bool printDoctype( const char* rootid, const char* publicid, const char* systemid, BufferType& buf)
 	{
+		if (m_state == TagElement || m_state == TagAttribute)
+		{
+			m_lasterror = "printing DOCTYPE inside of a tag definition";
+			return false;
+		}
 		if (rootid)
 		{
 			if (publicid)
-- 
2.43.0


From 84aa8a033a2ede3425aa1e22ab765f148311b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 28/44] fix: carriage return printed as content was lost when
 reading it back

---
 include/textwolf/xmlprinter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 6a91561..5f96e3b 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -116,9 +116,9 @@ public:
 	/// \param [in,out] buf buffer to print to
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
-		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		enum {nof_echr = 7};
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From dcebd0dd6553ecc5203522ce22883308d7a22389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 29/44] fix: numeric character entity without digits ('&#;')
 was replaced by a null character

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index f8a4590..9bcfc2e 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -643,7 +643,7 @@ private:
 			ch = m_src.ascii();
 			if (ch == ';')
 			{
-				if (tokstate.value > 0xFFFFFFFF)
+				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
 				{
 					fallbackEntity();
 					return true;
-- 
2.43.0


From 913d1e4950cf7117f5bb88dcf6c919c4baae33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 30/44] fix: XML header and DOCTYPE were garbled by printers
 with a 16 or 32 bit application encoding

The markup and the null terminated arguments were decoded as strings in the
application character set encoding.
---
 include/textwolf/xmlprinter.hpp | 57 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 5f96e3b..711d037 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -130,6 +130,21 @@ public:
 		m_output.print( (textwolf::UChar)(unsigned char)ch, buf);
 	}
 
+	/// \brief Prints a null terminated string to an STL back insertion sequence buffer in the IO character set encoding
+	/// \param [in] src null terminated string to print (in the application character set encoding if that is based on single bytes, else ASCII)
+	/// \param [in,out] buf buffer to print to
+	void printStringToBuffer( const char* src, BufferType& buf) const
+	{
+		if ((int)AppCharset::UnitSize == 1)
+		{
+			printToBuffer( src, std::strlen( src), buf);
+		}
+		else
+		{
+			for (; *src; ++src) printToBuffer( *src, buf);
+		}
+	}
+
 public:
 	/// \brief Default constructor
 	/// \param[in] subDocument do not require an Xml header to be printed if set to true
@@ -170,17 +185,17 @@ public:
 			return false;
 		}
 		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
-		printToBuffer( enc.c_str(), enc.size(), buf);
+		printStringToBuffer( "<?xml version=\"1.0\" encoding=\"", buf);
+		printStringToBuffer( enc.c_str(), buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
-			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
+			printStringToBuffer( "\" standalone=\"", buf);
+			printStringToBuffer( standalone, buf);
+			printStringToBuffer( "\"?>\n", buf);
 		}
 		else
 		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printStringToBuffer( "\"?>\n", buf);
 		}
 		m_state = Content;
 		return true;
@@ -208,27 +223,27 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
-				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
-				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
-				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printStringToBuffer( "<!DOCTYPE ", buf);
+				printStringToBuffer( rootid, buf);
+				printStringToBuffer( " PUBLIC \"", buf);
+				printStringToBuffer( publicid, buf);
+				printStringToBuffer( "\" \"", buf);
+				printStringToBuffer( systemid, buf);
+				printStringToBuffer( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
-				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
-				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printStringToBuffer( "<!DOCTYPE ", buf);
+				printStringToBuffer( rootid, buf);
+				printStringToBuffer( " SYSTEM \"", buf);
+				printStringToBuffer( systemid, buf);
+				printStringToBuffer( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
-				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printStringToBuffer( "<!DOCTYPE ", buf);
+				printStringToBuffer( rootid, buf);
+				printStringToBuffer( ">", buf);
 			}
 		}
 		return true;
-- 
2.43.0


From 2a2905ed57d5f3995ff6b672fead5a8a8624d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 31/44] fix: copying an UTF-16 character not asked for before
 lost its low surrogate

---
 include/textwolf/charset_utf16.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index f4bc940..ec096ae 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -54,17 +54,11 @@ public:
 	template <class Iterator>
 	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		if (bufpos<2)
+		unsigned int bufsize = size( buf, bufpos, itr);
+		for (;bufpos < bufsize; ++bufpos)
 		{
-			if (bufpos<1)
-			{
-				buf[0] = *itr;
-				++itr;
-				++bufpos;
-			}
-			buf[1] = *itr;
+			buf[bufpos] = *itr;
 			++itr;
-			++bufpos;
 		}
 	}
 
@@ -75,8 +69,11 @@ public:
 	template <class Iterator>
 	static inline unsigned int size( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		fetchbytes( buf, bufpos, itr);
-
+		for (;bufpos < 2; ++bufpos)
+		{
+			buf[bufpos] = *itr;
+			++itr;
+		}
 		UChar rt = (unsigned char)buf[ MSB];
 		if ((rt - 0xD8) > 0x03)
 		{
-- 
2.43.0


From 89df42ada357a0405b925f826e7b4bff8789370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 32/44] fix: skipping a character at the end of a chunk skipped
 bytes beyond the chunk

---
 include/textwolf/charset_isolatin.hpp | 1 +
 include/textwolf/charset_ucs.hpp      | 2 ++
 include/textwolf/charset_utf16.hpp    | 1 +
 include/textwolf/charset_utf8.hpp     | 1 +
 4 files changed, 5 insertions(+)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..7e93978 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -39,6 +39,7 @@ struct IsoLatin :public IsoLatinCodePage
 	{
 		if (bufpos==0)
 		{
+			(void)*itr; //... signals the end of the chunk
 			++itr;
 			++bufpos;
 		}
diff --git a/include/textwolf/charset_ucs.hpp b/include/textwolf/charset_ucs.hpp
index 8418ccb..4299d47 100644
--- a/include/textwolf/charset_ucs.hpp
+++ b/include/textwolf/charset_ucs.hpp
@@ -45,6 +45,7 @@ struct UCS2
 	{
 		for (;bufpos < 2; ++bufpos)
 		{
+			(void)*itr; //... signals the end of the chunk
 			++itr;
 		}
 	}
@@ -170,6 +171,7 @@ struct UCS4
 	{
 		for (;bufpos < 4; ++bufpos)
 		{
+			(void)*itr; //... signals the end of the chunk
 			++itr;
 		}
 	}
diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index ec096ae..7595a3a 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -92,6 +92,7 @@ public:
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
 		{
+			(void)*itr; //... signals the end of the chunk
 			++itr;
 		}
 	}
diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index ac781ec..1383fb0 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -94,6 +94,7 @@ struct UTF8
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
 		{
+			(void)*itr; //... signals the end of the chunk
 			++itr;
 		}
 	}
-- 
2.43.0


From 477754ad572152f52f4a3701105d03b6f8d46c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 33/44] fix: the printer accepted a DOCTYPE before the XML
 header

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 711d037..81cf5d2 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -216,6 +216,11 @@ public:
 		}
 		if (rootid)
 		{
+			if (m_state == Init)
+			{
+				m_lasterror = "printing DOCTYPE before the xml header";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
-- 
2.43.0


From 36a8f4fd44c814fef2d04ac1f0b2e7ccd16d0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 34/44] fix: assignment of a path automaton shared and freed
 the keys twice

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index d9423e6..006319b 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -236,6 +236,21 @@ public:
 			defineKey( orig.keysize, orig.key, orig.srckey);
 		}
 
+		///\brief Assignment
+		///\param [in] orig element to copy
+		State& operator=( const State& orig)
+		{
+			if (this != &orig)
+			{
+				core = orig.core;
+				keysize = orig.keysize;
+				next = orig.next;
+				link = orig.link;
+				defineKey( orig.keysize, orig.key, orig.srckey);
+			}
+			return *this;
+		}
+
 		///\brief Destructor
 		~State()
 		{
-- 
2.43.0


From b2c65ed60b25fb3ee286c8dd9c1878cf129853a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 35/44] fix: names and values of path expressions were cut
 after 1024 bytes

---
 include/textwolf/xmlpathautomaton.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 006319b..4ca3575 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -606,10 +606,9 @@ public:
 			{
 				if (value)
 				{
-					char buf[ 1024];
-					StaticBuffer pb( buf, sizeof(buf));
+					std::string pb;
 					char* itr = const_cast<char*>(value);
-					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
+					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
 					const XMLScannerBase::IsTokenCharMap& isTokenCharMap
 						= (op == ThisAttributeValue || op == AttributeValue)
 						? (const XMLScannerBase::IsTokenCharMap&)isValueCharMap
@@ -618,7 +617,7 @@ public:
 					{
 						throw exception( IllegalAttributeName);
 					}
-					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
+					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.c_str(), value, follow);
 				}
 				else
 				{
-- 
2.43.0


From 40a005cb0acaa46da6e7ce255cc1ff51363c591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 36/44] fix: the lower bound of an index range without upper
 bound was ignored

---
 include/textwolf/xmlpathautomaton.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 4ca3575..5ad2fcd 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -642,6 +642,11 @@ public:
 		///\return *this
 		PathElement& doRange( int p_start, int p_end)
 		{
+			if (p_end == -1)
+			{
+				//... unlimited
+				p_end = std::numeric_limits<int>::max();
+			}
 			if (range.end == -1)
 			{
 				range = Range( p_start, p_end);
-- 
2.43.0


From b0f4715d63d9a32f915824ec9d365a41e0df16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 37/44] fix: only one bound of an index range was restricted by
 a second range

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 5ad2fcd..849d700 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -651,13 +651,16 @@ public:
 			{
 				range = Range( p_start, p_end);
 			}
-			else if (p_end < range.end)
-			{
-				range.end = p_end;
-			}
-			else if (p_start > range.start)
+			else
 			{
-				range.start = p_start;
+				if (p_end < range.end)
+				{
+					range.end = p_end;
+				}
+				if (p_start > range.start)
+				{
+					range.start = p_start;
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From 40d1ae669d226224ae78bf74695dac2a65572d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 38/44] fix: '::' in path expressions was searched bytewise
 also in wide character sets

---
 include/textwolf/xmlpathautomatonparse.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 875275c..8dd8580 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,12 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		SrcScanner nssrc( m_srccharset, CStringIterator( esrc, esrcsize));
+		UChar prevchr = 0;
+		for (; *nssrc; ++nssrc)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
-			{
-				return xpos+1;
-			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
+			if (prevchr == ':' && *nssrc == ':') return nssrc.getPosition();
+			prevchr = *nssrc;
 		}
 
 		// Parse the expression:
-- 
2.43.0


From 6a080271e4d173043a3658820b407a062590e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 39/44] fix: tag stack wrote beyond its memory after a failed
 allocation

---
 include/textwolf/xmltagstack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 4e06a70..89afe03 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -68,11 +68,13 @@ public:
 		std::size_t ofs = nn + align + sizeof( std::size_t);
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
+			std::size_t newsize = m_size;
+			while (m_pos + ofs > newsize) newsize *= 2;
+			if (m_pos + ofs > newsize) throw std::bad_alloc();
 			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			char* xx = (char*)std::realloc( m_ptr, newsize);
 			if (!xx) throw std::bad_alloc();
+			m_size = newsize;
 			m_ptr = xx;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
-- 
2.43.0


From 1209618a4c88427dc579707bb0fbc5c3ad951d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 40/44] fix: running out of memory when creating an exception
 terminated the program

---
 include/textwolf/exception.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 4ee5f25..42bf378 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -52,11 +52,12 @@ struct exception	:public std::runtime_error
 
 	/// \brief Constructor
 	/// \return exception object
-	exception (Cause p_cause) throw()
+	/// \remark Throws std::bad_alloc if there is no memory for the exception object
+	exception (Cause p_cause)
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-		:std::runtime_error("textwolf error in XML"), cause(orig.cause) {}
+		:std::runtime_error(orig), cause(orig.cause) {}
 	/// \brief Destructor
 	virtual ~exception() throw() {}
 
-- 
2.43.0


From ef4f7b37daea4c0d14e3e1d804c180f5ca238f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 41/44] fix: automaton states were left linked or defined
 without target, or leaked, after a failed allocation

---
 include/textwolf/xmlpathautomaton.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 849d700..399333a 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -233,7 +233,15 @@ public:
 		State( const State& orig)
 			:core(orig.core),keysize(orig.keysize),key(0),srckey(0),next(orig.next),link(orig.link)
 		{
-			defineKey( orig.keysize, orig.key, orig.srckey);
+			try
+			{
+				defineKey( orig.keysize, orig.key, orig.srckey);
+			}
+			catch (...)
+			{
+				delete [] key;
+				throw;
+			}
 		}
 
 		///\brief Assignment
@@ -302,8 +310,8 @@ public:
 		///\param[in] p_follow true if the search reaches all included follow scopes of the definition scope
 		void defineNext( Operation op, unsigned int p_keysize, const char* p_key, const char* p_srckey, int p_next, bool p_follow=false)
 		{
-			core.mask.seekop( op);
 			defineKey( p_keysize, p_key, p_srckey);
+			core.mask.seekop( op);
 			next = p_next;
 			core.follow = p_follow;
 		}
@@ -482,9 +490,9 @@ private:
 				{
 					stateidx = states[ stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 			}
 			states.push_back( state);
 			unsigned int lastidx = states.size()-1;
@@ -527,9 +535,9 @@ private:
 				{
 					stateidx = states[stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 				
 			}
 			states[ stateidx].defineOutput( printOpMask, typeidx, follow, start, end);
-- 
2.43.0


From c5527ad53c259b7296fee98d96545c6e5ebd7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 42/44] fix: description of an automaton printed an address
 into index ranges

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 399333a..cc6161d 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -360,7 +360,7 @@ public:
 			}
 			if (core.cnt_end > 0)
 			{
-				rt << '[' << core.cnt_start << ',' << rt << core.cnt_end << ']';
+				rt << '[' << core.cnt_start << ',' << core.cnt_end << ']';
 			}
 			if (core.typeidx)
 			{
-- 
2.43.0


From c5c66579e03c6f82ee00f1d9442e3487a3106f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 43/44] fix: state machine definition accepted states out of
 range

---
 include/textwolf/xmlscanner.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 9bcfc2e..c00c74a 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -61,7 +61,7 @@ public:
 	/// \return state defintion reference
 	Element* get( int stateIdx)
 	{
-		if ((unsigned int)stateIdx>size) throw exception(InvalidState);
+		if ((unsigned int)stateIdx >= size) throw exception(InvalidState);
 		return tab + stateIdx;
 	}
 
@@ -83,7 +83,7 @@ private:
 	void addOtherTransition( int nextState)
 	{
 		if (size == 0) throw exception( InvalidState);
-		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
+		if (nextState < 0 || nextState >= MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
 			if (inputchr == EndOfText) continue; //... the end of text must never be skipped
@@ -99,7 +99,7 @@ private:
 	{
 		if (size == 0) throw exception( InvalidState);
 		if ((int)inputchr >= (int)NofControlCharacter) throw exception( InvalidParamChar);
-		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
+		if (nextState < 0 || nextState >= MaxNofStates) throw exception( InvalidParamState);
 		if (tab[ size-1].next[ inputchr] != -1) throw exception( DuplicateStateTransition);
 		tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		tab[ size-1].nofnext += 1;
@@ -138,7 +138,7 @@ private:
 	{
 		if (size == 0) throw exception( InvalidState);
 		if (tab[ size-1].fallbackState != -1) throw exception( InvalidState);
-		if (stateIdx < 0 || stateIdx > MaxNofStates) throw exception( InvalidParamState);
+		if (stateIdx < 0 || stateIdx >= MaxNofStates) throw exception( InvalidParamState);
 		tab[ size-1].fallbackState = stateIdx;
 	}
 public:
-- 
2.43.0


From 47d2ab5a8e166368df840ce5c98cf309d57b7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 44/44] fix: null character printed as broken reference in
 IsoLatin

---
 include/textwolf/charset_interface.hpp | 3 ++-
 include/textwolf/charset_isolatin.hpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/charset_interface.hpp b/include/textwolf/charset_interface.hpp
index 0eec13c..02205ef 100644
--- a/include/textwolf/charset_interface.hpp
+++ b/include/textwolf/charset_interface.hpp
@@ -32,11 +32,12 @@ struct Encoder
 		StaticBuffer buf( bufptr, bufsize);
 		char bb[ 32];
 		unsigned int ii=0;
-		while (chr > 0)
+		do
 		{
 			bb[ii++] = HEX[ chr & 0xf];
 			chr /= 16;
 		}
+		while (chr > 0);
 		buf.push_back( '&');
 		buf.push_back( '#');
 		buf.push_back( 'x');
diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 7e93978..ec9c95b 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -78,7 +78,7 @@ struct IsoLatin :public IsoLatinCodePage
 	void print( UChar chr, Buffer_& buf) const
 	{
 		char chr_ = invcode( chr);
-		if (chr_ == 0)
+		if (chr_ == 0 && chr != 0)
 		{
 			char tb[ 32];
 			char* cc = tb;
-- 
2.43.0

