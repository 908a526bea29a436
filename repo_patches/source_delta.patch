From 604dc55704c03bc954f584e1fc221cfcb140a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 01/48] fix: ISO-8859-3 code page tables skip the undefined
 bytes instead of shifting

---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..e2c6c3e 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From 0b83d99633e4393d2efac5cac18a7c762ab06acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 02/48] fix: characters of a code page beyond 255 are found in
 the inverse map

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index e2c6c3e..c593f60 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch >= (1<<(8*sizeof(unsigned short)))) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From 4188324416a04054e628f0d17a85184886538cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 03/48] fix: encoding of the null character is a null byte in
 ISO-8859 and never an empty reference

---
 include/textwolf/charset_interface.hpp | 3 ++-
 include/textwolf/charset_isolatin.hpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/charset_interface.hpp b/include/textwolf/charset_interface.hpp
index 0eec13c..02205ef 100644
--- a/include/textwolf/charset_interface.hpp
+++ b/include/textwolf/charset_interface.hpp
@@ -32,11 +32,12 @@ struct Encoder
 		StaticBuffer buf( bufptr, bufsize);
 		char bb[ 32];
 		unsigned int ii=0;
-		while (chr > 0)
+		do
 		{
 			bb[ii++] = HEX[ chr & 0xf];
 			chr /= 16;
 		}
+		while (chr > 0);
 		buf.push_back( '&');
 		buf.push_back( '#');
 		buf.push_back( 'x');
diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..ddc9331 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -77,7 +77,7 @@ struct IsoLatin :public IsoLatinCodePage
 	void print( UChar chr, Buffer_& buf) const
 	{
 		char chr_ = invcode( chr);
-		if (chr_ == 0)
+		if (chr_ == 0 && chr != 0)
 		{
 			char tb[ 32];
 			char* cc = tb;
-- 
2.43.0


From 2d76915e575f7fe32e0718fb15442d291fff7636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 04/48] fix: UTF-16 high surrogate followed by a unit below the
 low surrogates is malformed

---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..f4bc940 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -128,7 +128,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From ab8632f1f551d50609ef7795a09df5ddbe474100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 05/48] fix: UTF-8 sequences starting with 0xFE or 0xFF do not
 alias valid characters

---
 include/textwolf/charset_utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index ac781ec..369eae8 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -139,7 +139,7 @@ struct UTF8
 		if (res > 127)
 		{
 			int gg = bufpos-2;
-			if (gg < 0) return MaxChar;
+			if (gg < 0 || gg > 4) return MaxChar;
 
 			res = ((unsigned char)buf[0])&(B00011111>>gg);
 			for (int ii=0; ii<=gg; ii++)
-- 
2.43.0


From a5401f5a976639dd99cda9cc670c2cb151f71c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 06/48] fix: overlong UTF-8 sequences are not decoded to the
 character of the shorter sequence

---
 include/textwolf/charset_utf8.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index 369eae8..6cd4560 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -151,6 +151,8 @@ struct UTF8
 					return MaxChar;
 				}
 			}
+			// ... overlong encodings are not characters
+			if (res < (UChar)(1 << ((gg == 0)?7:(5*gg+6)))) return MaxChar;
 		}
 		return res;
 	}
-- 
2.43.0


From eaea87860e0d42a42e900ba4fd728c8443f244b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 07/48] fix: UTF-8 characters cut by the end of a chunk are not
 skipped blindly

---
 include/textwolf/charset_utf8.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index 6cd4560..e79c1d0 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -102,12 +102,8 @@ struct UTF8
 	template <class Iterator>
 	static inline signed char asciichar( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		if (bufpos==0)
-		{
-			buf[0] = *itr;
-			++itr;
-			++bufpos;
-		}
+		// ... all bytes are fetched here, because skip does not check if the bytes it skips are available
+		fetchbytes( buf, bufpos, itr);
 		return ((unsigned char)(buf[0])>127)?-1:buf[0];
 	}
 
-- 
2.43.0


From a7f4130bc6d51112ab80146904b32a7cad67faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 08/48] fix: UTF-16 fetchbytes fetches both units of a
 surrogate pair

---
 include/textwolf/charset_utf16.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index f4bc940..0339be6 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -54,15 +54,10 @@ public:
 	template <class Iterator>
 	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		if (bufpos<2)
+		unsigned int bufsize = size( buf, bufpos, itr);
+		while (bufpos < bufsize)
 		{
-			if (bufpos<1)
-			{
-				buf[0] = *itr;
-				++itr;
-				++bufpos;
-			}
-			buf[1] = *itr;
+			buf[bufpos] = *itr;
 			++itr;
 			++bufpos;
 		}
@@ -75,8 +70,13 @@ public:
 	template <class Iterator>
 	static inline unsigned int size( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		fetchbytes( buf, bufpos, itr);
-
+		// ... the first two bytes tell the size of the character
+		while (bufpos < 2)
+		{
+			buf[bufpos] = *itr;
+			++itr;
+			++bufpos;
+		}
 		UChar rt = (unsigned char)buf[ MSB];
 		if ((rt - 0xD8) > 0x03)
 		{
-- 
2.43.0


From 2c3718678e1f3668833124a720683256cb333da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 09/48] fix: end of input inside of a comment, processing
 instruction, CDATA section or internal subset is an error

---
 include/textwolf/xmlscanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..bd91a9d 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -85,6 +85,8 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
+			// ... the end of input is never skipped, it is an error if there is no explicit transition for it
+			if (inputchr == (unsigned int)EndOfText) continue;
 			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
-- 
2.43.0


From d926fac8b0ca34242e011ba300d66160200216a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 10/48] fix: CDATA section ending with more than two closing
 brackets

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index bd91a9d..3706e0f 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -355,7 +355,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From ba1156f376a27c8f33eee10ac78f019d65cc6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 11/48] fix: question mark inside of a processing instruction

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 3706e0f..60a96c1 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -313,7 +313,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From bd70d5541ea27989f4ab995a21dc82957dfdfef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 12/48] fix: comment ending with more than two dashes

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 60a96c1..a0607e6 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -351,7 +351,7 @@ public:
 			[ COMDASH2 ](Dash,COMSEEKE).miss(ErrExpectedDash2)
 			[ COMSEEKE ](Dash,COMENDD2).other(COMSEEKE)
 			[ COMENDD2 ](Dash,COMENDCL).other(COMSEEKE)
-			[ COMENDCL ](Gt,SEEKTOK)(Dash,COMENDD2).other(COMSEEKE)
+			[ COMENDCL ](Gt,SEEKTOK)(Dash).other(COMSEEKE)
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-- 
2.43.0


From 4045586b94f49dd0e6937db5d6bf8f5de22d2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 13/48] fix: immediate close tag is reported once, spaces
 between slash and closing bracket are an error

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a0607e6..f0844a1 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -340,7 +340,7 @@ public:
 			[ TAGAVSQ  ].action(ReturnSQString,TagAttribValue)(Sq,TAGAVQE).miss(ErrStringNotTerminated)
 			[ TAGAVDQ  ].action(ReturnDQString,TagAttribValue)(Dq,TAGAVQE).miss(ErrStringNotTerminated)
 			[ TAGAVQE  ](EndOfLine,Cntrl,Space,TAGAISK)(Slash,TAGCLIM)(Gt,CONTENT).miss(ErrExpectedTagAttribute)
-			[ TAGCLIM  ].action(Return,CloseTagIm)(EndOfLine)(Cntrl)(Space)(Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ TAGCLIM  ].action(Return,CloseTagIm)(Gt,CONTENT).miss(ErrExpectedTagEnd)
 			[ ENTITYSL ](Osb,CDATA)(Dash,COMDASH2).fallback(ENTITY)
 			[ ENTITY   ](Gt,ENTITYE)(EndOfLine)(Cntrl)(Space)(Dq,ENTITYDQ)(Sq,ENTITYSQ)(Osb,ENTITYLC).fallback(ENTITYID)
 			[ ENTITYE  ].action(Return,DocAttribEnd).fallback(SEEKTOK)
-- 
2.43.0


From 2ee8430afb2e4aaea3b268ca6a79d92fcc914ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 14/48] fix: user defined entities are looked up by name and
 not by the address of the name

---
 include/textwolf/xmlscanner.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index f0844a1..e67584d 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -360,6 +361,13 @@ public:
 		}
 	};
 
+	/// \struct EntityNameCompare
+	/// \brief Order of entity names (by content and not by the address of the string)
+	struct EntityNameCompare
+	{
+		bool operator()( const char* a, const char* b) const	{return std::strcmp( a, b) < 0;}
+	};
+
 	/// \typedef IsTokenCharMap
 	/// \brief Forms a set of characters by assigning (true/false) to the whole domain
 	typedef CharMap<bool,false,NofControlCharacter> IsTokenCharMap;
@@ -486,7 +494,7 @@ public:
 public:
 	typedef TextScanner<InputIterator,InputCharSet_> InputReader;
 	typedef XMLScanner<InputIterator,InputCharSet_,OutputCharSet_,OutputBuffer_> ThisXMLScanner;
-	typedef std::map<const char*,UChar> EntityMap;
+	typedef std::map<const char*,UChar,EntityNameCompare> EntityMap;
 	typedef OutputBuffer_ OutputBuffer;
 
 private:
-- 
2.43.0


From 68c400a361d366383709fd0b666e51fe70ac95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 15/48] fix: copy of an XML scanner takes over the token state
 and the output character set

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index e67584d..ef6b21f 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1027,11 +1027,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From 5a40e7e853f1bfec425218284942224bdf997f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 16/48] fix: numeric entities without digits or with a value
 out of range are delivered unchanged

---
 include/textwolf/xmlscanner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index ef6b21f..e7f87d7 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -591,6 +591,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
@@ -650,9 +651,9 @@ private:
 			ch = m_src.ascii();
 			if (ch == ';')
 			{
-				if (tokstate.value > 0xFFFFFFFF)
+				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
+					// ... the ';' follows as part of the token
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From 401d3abeaacff8874fa777cf1a035f8a8b4801a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 17/48] fix: the scanner iterator delivers the error string
 with an error element

---
 include/textwolf/xmlscanner.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index e7f87d7..e877d5c 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1263,17 +1263,29 @@ public:
 		Element element;				///< currently visited element
 		ThisXMLScanner* input;				///< XML scanner
 
-		/// \brief Skip to the next element
+		/// \brief Fetch the next element of the scanner
 		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
-		/// \return iterator pointing to the next element
-		iterator& skip( unsigned short mask=0xFFFF)
+		void fetch( unsigned short mask=0xFFFF)
 		{
-			if (input != 0)
+			element.m_type = input->nextItem(mask);
+			if (element.m_type == ErrorOccurred)
+			{
+				element.m_content = getErrorString( input->error);
+				element.m_size = element.m_content ? std::strlen( element.m_content) : 0;
+			}
+			else
 			{
-				element.m_type = input->nextItem(mask);
 				element.m_content = input->getItemPtr();
 				element.m_size = input->getItemSize();
 			}
+		}
+
+		/// \brief Skip to the next element
+		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
+		/// \return iterator pointing to the next element
+		iterator& skip( unsigned short mask=0xFFFF)
+		{
+			if (input != 0) fetch( mask);
 			return *this;
 		}
 
@@ -1308,12 +1320,7 @@ public:
 		iterator( ThisXMLScanner& p_input, bool doSkipToFirst=true)
 				:input( &p_input)
 		{
-			if (doSkipToFirst)
-			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
-			}
+			if (doSkipToFirst) fetch();
 		}
 		/// \brief Constructor
 		iterator( const End& et)  :element(et),input(0) {}
-- 
2.43.0


From 6cbbf2ad94ee532e883cabbe1f2c7c3319ca981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 18/48] fix: exception text of NotAllowedOperation and the
 causes after it

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From 4e71402f1141067a2135892b48f4288b0345b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 19/48] fix: copy of an XML header parser takes over the
 encoding and the last error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From ce7f991a908a99ca02d052aca9932acbfd0147bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 20/48] fix: element access of StaticBuffer behind the last
 element is refused

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..e567194 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -123,7 +123,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -132,7 +132,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From bb44fb031c4890700ec7132c0be3b6814a990799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 21/48] fix: StaticBuffer bounds: start position, size overflow
 in append and resize beyond the capacity

---
 include/textwolf/staticbuffer.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index e567194..ce3ee89 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -34,11 +34,11 @@ public:
 
 	/// \brief Constructor
 	StaticBuffer( char* p, std::size_t n, std::size_t i=0)
-		:m_pos(i)
+		:m_pos(i<n?i:n)
 		,m_size(n)
 		,m_ar(p)
 		,m_allocated(false)
-		,m_overflow(false) {}
+		,m_overflow(i>n) {}
 
 	/// \brief Copy constructor
 	StaticBuffer( const StaticBuffer& o)
@@ -85,7 +85,7 @@ public:
 	/// \param[in] ccsize the number of characters to append
 	void append( const char* cc, std::size_t ccsize)
 	{
-		if (m_pos+ccsize > m_size)
+		if (ccsize > m_size - m_pos)
 		{
 			m_overflow = true;
 			ccsize = m_size - m_pos;
@@ -113,7 +113,11 @@ public:
 		}
 		else
 		{
-			if (m_size<n) n=m_size;
+			if (m_size<n)
+			{
+				m_overflow = true;
+				n=m_size;
+			}
 			while (n>m_pos) push_back(c);
 		}
 	}
-- 
2.43.0


From c9e144dde1e938203bfd1ff6d2e678987beebbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 22/48] fix: copied and assigned StaticBuffer owns its memory

---
 include/textwolf/staticbuffer.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index ce3ee89..ca35fb6 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
@@ -53,6 +53,24 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* ar = (char*)std::malloc( o.m_size * sizeof(char));
+			if (!ar) throw std::bad_alloc();
+			std::memcpy( ar, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free(m_ar);
+			m_ar = ar;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From f455da74d2543431889e059b214303d94dc25a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 23/48] fix: tag stack is unchanged if there is not enough
 memory to push a tag

---
 include/textwolf/xmltagstack.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..f1f3cb7 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -13,6 +13,7 @@
 #include "textwolf/exception.hpp"
 #include <cstring>
 #include <cstdlib>
+#include <new>
 
 /// \namespace textwolf
 /// \brief Toplevel namespace of the library
@@ -51,14 +52,20 @@ public:
 	{
 		std::size_t align = getAlign( nn);
 		std::size_t ofs = nn + align + sizeof( std::size_t);
+		if (nn > ofs) throw exception( InvalidTagOffset);
+		if (m_pos + ofs < ofs) throw std::bad_alloc();
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
-			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			std::size_t newsize = m_size;
+			while (m_pos + ofs > newsize)
+			{
+				if (newsize * 2 < newsize) throw std::bad_alloc();
+				newsize *= 2;
+			}
+			char* xx = (char*)std::realloc( m_ptr, newsize);
 			if (!xx) throw std::bad_alloc();
 			m_ptr = xx;
+			m_size = newsize;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
 		m_pos += ofs;
-- 
2.43.0


From a292cffd73a5143fe7a8f18b844a87619642198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 24/48] fix: assignment of a tag stack copies the stack and not
 the pointer to it

---
 include/textwolf/xmltagstack.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index f1f3cb7..98d6622 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -45,6 +45,22 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment operator
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* ptr = (char*)std::malloc( o.m_size);
+			if (!ptr) throw std::bad_alloc();
+			std::memcpy( ptr, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = ptr;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From 27af9b8f9cf79276ea8ca251bee52c43615ffa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 25/48] fix: removing a tag from an empty tag stack is reported

---
 include/textwolf/xmltagstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 98d6622..b1fbf55 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -106,7 +106,7 @@ public:
 	{
 		std::size_t elementsize=0;
 		std::size_t ofs = topofs(elementsize);
-		if (m_pos < ofs) throw exception( CorruptTagStack);
+		if (!ofs || m_pos < ofs) throw exception( CorruptTagStack);
 		m_pos -= ofs;
 	}
 
-- 
2.43.0


From fe18145a78047f181e13c4fa09eba14bb89995fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 26/48] fix: IStreamIterator default construction, assignment
 and failing construction

---
 include/textwolf/istreamiterator.hpp | 43 ++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..7fbccb9 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -110,16 +111,38 @@ public:
 		:m_input(input),m_buf((char*)std::malloc(bufsize)),m_bufsize(bufsize),m_readsize(0),m_readpos(0),m_abspos(0)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		fillbuf();
+		try
+		{
+			fillbuf();
+		}
+		catch (...)
+		{
+			std::free( m_buf);
+			throw;
+		}
 	}
 
 	/// \brief Copy constructor
 	/// \param [in] o iterator to copy
 	IStreamIterator( const IStreamIterator& o)
-		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
+		:m_input(o.m_input),m_buf(copybuf(o)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos){}
+
+	/// \brief Assignment operator
+	/// \param [in] o iterator to copy
+	IStreamIterator& operator=( const IStreamIterator& o)
 	{
-		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (this != &o)
+		{
+			char* buf = copybuf(o);
+			std::free( m_buf);
+			m_buf = buf;
+			m_input = o.m_input;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
 	}
 
 	/// \brief Element access
@@ -154,8 +177,18 @@ public:
 	}
 
 private:
+	static char* copybuf( const IStreamIterator& o)
+	{
+		if (!o.m_buf) return 0;
+		char* rt = (char*)std::malloc( o.m_bufsize);
+		if (!rt) throw std::bad_alloc();
+		std::memcpy( rt, o.m_buf, o.m_readsize);
+		return rt;
+	}
+
 	bool fillbuf()
 	{
+		if (!m_input) return false;
 		m_abspos += m_readsize;
 		m_readsize = m_input->read( m_buf, m_bufsize);
 		m_readpos = 0;
-- 
2.43.0


From c21e080607731cedf2054a9a84d67193c11d5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 27/48] fix: a failing input stream is an error also if the
 system error number is not set

---
 include/textwolf/istreamiterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7fbccb9..23aa03f 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -61,20 +61,20 @@ public:
 		}
 		catch (const std::istream::failure& err)
 		{
-			if (m_input->eof())
+			if (m_input->eof() && !m_input->bad())
 			{
 				m_errno = 0;
 				return m_input->gcount();
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno ? errno : EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno ? errno : EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From 89ff1ea242e66c10d17270e04ba05797c1b2eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 28/48] fix: assignment of an automaton state copies the key,
 failing copy does not leak

---
 include/textwolf/xmlpathautomaton.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..13e6c26 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -236,6 +236,21 @@ public:
 			defineKey( orig.keysize, orig.key, orig.srckey);
 		}
 
+		///\brief Assignment operator
+		///\param [in] orig element to copy
+		State& operator=( const State& orig)
+		{
+			if (this != &orig)
+			{
+				defineKey( orig.keysize, orig.key, orig.srckey);
+				keysize = orig.keysize;
+				core = orig.core;
+				next = orig.next;
+				link = orig.link;
+			}
+			return *this;
+		}
+
 		///\brief Destructor
 		~State()
 		{
@@ -272,7 +287,16 @@ public:
 			if (p_srckey)
 			{
 				for (ii=0; p_srckey[ii]!=0; ii++);
-				srckey = new char[ ii+1];
+				try
+				{
+					srckey = new char[ ii+1];
+				}
+				catch (...)
+				{
+					if (key) delete [] key;
+					key = 0;
+					throw;
+				}
 				for (ii=0; p_srckey[ii]!=0; ii++) srckey[ii]=p_srckey[ii];
 				srckey[ ii] = 0;
 			}
-- 
2.43.0


From b0c69b76e981ec6b44a93857d843d871811537d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 29/48] fix: copy of a path selector takes over the scope
 opened

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..acaf345 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -333,7 +333,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From 69bc72875865784b5ef7998cfc75414feba48381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 30/48] fix: name of the operation ThisAttributeValue

---
 include/textwolf/xmlpathautomaton.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 13e6c26..72780b8 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -158,11 +158,6 @@ public:
 			&&  this->hasReject( XMLScannerBase::Content))
 				return "Attribute";
 
-			if (this->hasMatch( XMLScannerBase::TagAttribValue)
-			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
-			&&  this->hasReject( XMLScannerBase::Content))
-				return "AttributeValue";
-
 			if (this->hasMatch( XMLScannerBase::TagAttribValue)
 			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
 			&&  this->hasReject( XMLScannerBase::TagAttribName)
@@ -171,6 +166,11 @@ public:
 			&&  this->hasReject( XMLScannerBase::OpenTag))
 				return "ThisAttributeValue";
 
+			if (this->hasMatch( XMLScannerBase::TagAttribValue)
+			&&  this->hasMatch( XMLScannerBase::HeaderAttribValue)
+			&&  this->hasReject( XMLScannerBase::Content))
+				return "AttributeValue";
+
 			if (this->hasMatch( XMLScannerBase::Content))
 				return "Content";
 
-- 
2.43.0


From 68e02c7ba8b2943c0bf1868290302886ff3c99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 31/48] fix: range in the printed form of an automaton state

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 72780b8..a99d06c 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -361,7 +361,7 @@ public:
 			}
 			if (core.cnt_end > 0)
 			{
-				rt << '[' << core.cnt_start << ',' << rt << core.cnt_end << ']';
+				rt << '[' << core.cnt_start << ',' << core.cnt_end << ']';
 			}
 			if (core.typeidx)
 			{
-- 
2.43.0


From e8da96a7f08df24580fdede678a86ee48997bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 32/48] fix: repeated range conditions intersect and an
 unlimited range keeps its start

---
 include/textwolf/xmlpathautomaton.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index a99d06c..b9fe093 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -643,15 +643,15 @@ public:
 		///\return *this
 		PathElement& doRange( int p_start, int p_end)
 		{
-			if (range.end == -1)
+			if (p_end == -1 && p_start > 0)
 			{
-				range = Range( p_start, p_end);
+				p_end = std::numeric_limits<int>::max();
 			}
-			else if (p_end < range.end)
+			if (p_end != -1 && (range.end == -1 || p_end < range.end))
 			{
 				range.end = p_end;
 			}
-			else if (p_start > range.start)
+			if (p_start > range.start)
 			{
 				range.start = p_start;
 			}
-- 
2.43.0


From a3b4c7b4f59f33e5fbd108e853aaf1af7fcbf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 33/48] fix: errors in the definition of an automaton keep
 their cause

---
 include/textwolf/xmlpathautomaton.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index b9fe093..5b51b50 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -504,6 +504,10 @@ private:
 		{
 			throw exception( OutOfMem);
 		}
+		catch (const exception&)
+		{
+			throw;
+		}
 		catch (...)
 		{
 			throw exception( Unknown);
@@ -548,6 +552,10 @@ private:
 		{
 			throw exception( OutOfMem);
 		}
+		catch (const exception&)
+		{
+			throw;
+		}
 		catch (...)
 		{
 			throw exception( Unknown);
-- 
2.43.0


From a663a39d4ff69fc3cddeaa176c6d89c0a6168c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 34/48] fix: numeric entities in names of automaton definitions

---
 include/textwolf/xmlscanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index e877d5c..ff3ba5e 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -543,6 +543,7 @@ private:
 	static UChar parseStaticNumericEntityValue( InputReader& ir)
 	{
 		EChar value = 0;
+		ir.skip();
 		unsigned char ch = ir.ascii();
 		unsigned int base;
 		if (ch != '#') return 0;
@@ -834,6 +835,7 @@ public:
 				else if (ch == Amp)
 				{
 					pc = parseStaticNumericEntityValue( ir);
+					if (pc == 0) return false;
 				}
 				else
 				{
-- 
2.43.0


From 7283dcc26e166da8b246c71a4452b0ec3ee442cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 35/48] fix: names and values of automaton definitions are
 never truncated

---
 include/textwolf/xmlpathautomaton.hpp | 9 ++++++++-
 include/textwolf/xmlscanner.hpp       | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 5b51b50..cc7c6de 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -614,6 +614,7 @@ public:
 		PathElement& doSelect( Operation op, const char* value)
 		{
 			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static XMLScannerBase::IsContentCharMap isValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -622,10 +623,16 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					if (!((op == ThisAttributeValue)
+						? StaticXMLScanner::parseStaticToken( isValueCharMap, itr, pb)
+						: StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb)))
 					{
 						throw exception( IllegalAttributeName);
 					}
+					if (pb.overflow())
+					{
+						throw exception( DimOutOfRange);
+					}
 					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
 				}
 				else
diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index ff3ba5e..07d0363 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -839,7 +839,7 @@ public:
 				}
 				else
 				{
-					return true;
+					return (ch == EndOfText);
 				}
 				output.print( pc, buf);
 				ir.skip();
-- 
2.43.0


From a2e751efce1311cf5deceb6bb21d00dcc5492f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 36/48] fix: characters of names in path expressions are not
 compared truncated with operators

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..83219e0 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -282,7 +282,7 @@ private:
 		if (src.control() == Undef || src.control() == Any)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			return (*src >= 128 || 0==std::strchr( opchr, (int)*src));
 		}
 		return false;
 	}
-- 
2.43.0


From c04d3f11ceca6bbffa2bf2b5850dbeb765e670d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 37/48] fix: names of path expressions are terminated also if
 the character set has more than one byte per character

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 83219e0..39a44c1 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -301,6 +301,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
+			idlist.back().append( 3, '\0');
 			return idlist.back().c_str();
 		}
 		const char* parseValue( SrcScanner& src)
@@ -314,6 +315,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
+				idlist.back().append( 3, '\0');
 				return idlist.back().c_str();
 			}
 			else if (isIdentifierChar(src))
-- 
2.43.0


From 1ad273352158451a59c776886b8e05a576736333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 38/48] fix: path expressions with a null character or without
 attribute name are refused

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 39a44c1..ee2982f 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -208,6 +208,8 @@ public:
 					break;
 			}
 		}
+		if (src.getPosition() < esrcsize) return src.getPosition()+1;
+		if (state == SelectAttribute) return src.getPosition()+1;
 		expr.assignType( typeidx);
 		return 0;
 	}
-- 
2.43.0


From 120149738e76916883a15691ab6bc8c70574f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:47 +0000
Subject: [PATCH 39/48] fix: scope of a tag is closed once after all iterators
 on its results are gone

---
 include/textwolf/xmlpathselect.hpp | 39 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index acaf345..3a9dda6 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -84,6 +84,8 @@ private:
 	StackType_<int> triggers;		//< triggered elements
 	StackType_<Token> tokens;		//< list of waiting tokens
 	Context context;			//< state variables without stacks of the automaton
+	unsigned int nofiter;			//< number of iterators on the results of the current element, it is closed with the last one
+	unsigned int elemcnt;			//< counter of elements, to find out if an iterator belongs to the current element
 
 	/// \brief Activate a state by index
 	/// \param stateidx index of the state to activate
@@ -116,6 +118,12 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		if (nofiter)
+		{
+			closeProcessElement();
+		}
+		nofiter = 1;
+		++elemcnt;
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -149,6 +157,21 @@ private:
 		}
 	}
 
+	/// \brief Declare an iterator on the results of the element with the number 'elem' as created
+	void useElement( unsigned int elem)
+	{
+		if (elem == elemcnt && nofiter) ++nofiter;
+	}
+
+	/// \brief Declare an iterator on the results of the element with the number 'elem' as not used anymore
+	void releaseElement( unsigned int elem)
+	{
+		if (elem == elemcnt && nofiter)
+		{
+			if (--nofiter == 0) closeProcessElement();
+		}
+	}
+
 	/// \brief produce an element adressed by token index
 	/// \param [in] tokenidx index of the token in the list of active tokens
 	/// \param [in] st state from which the expand was triggered
@@ -325,7 +348,7 @@ public:
 	/// \brief Constructor
 	/// \param[in] p_atm read only ML path select automaton reference
 	XMLPathSelect( const ThisXMLPathSelectAutomaton* p_atm)
-		:atm(p_atm),scopestk(),follows(),triggers(),tokens()
+		:atm(p_atm),scopestk(),follows(),triggers(),tokens(),nofiter(0),elemcnt(0)
 	{
 		if (atm->states.size() > 0) expand(0);
 	}
@@ -333,7 +356,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context),nofiter(o.nofiter),elemcnt(o.elemcnt){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
@@ -349,6 +372,7 @@ public:
 	private:
 		int element;					//< currently visited element (type)
 		ThisXMLPathSelect* input;			//< producing XML path selection stream
+		unsigned int elem;				//< number of the element the iterator was created for
 
 		/// \brief Skip to next element
 		/// \return *this
@@ -378,13 +402,17 @@ public:
 		/// \param [in] orig iterator to copy
 		void assign( const iterator& orig)
 		{
+			if (orig.input) orig.input->useElement( orig.elem);
+			if (input) input->releaseElement( elem);
 			input = orig.input;
+			elem = orig.elem;
 			element = orig.element;
 		}
 
 		/// \brief Copy constructor
 		/// \param [in] orig iterator to copy
 		iterator( const iterator& orig)
+			:element(0),input(0),elem(0)
 		{
 			assign( orig);
 		}
@@ -395,20 +423,21 @@ public:
 		/// \param [in] p_key XML element value reference to feed to XML path matcher
 		/// \param [in] p_keysize XML element value size in bytes to feed to XML path matcher
 		iterator( ThisXMLPathSelect& p_input, XMLScannerBase::ElementType p_type, const char* p_key, int p_keysize)
-				:input( &p_input)
+				:input( &p_input),elem(0)
 		{
 			input->initProcessElement( p_type, p_key, p_keysize);
+			elem = input->elemcnt;
 			skip();
 		}
 
 		~iterator()
 		{
-			if (input) input->closeProcessElement();
+			if (input) input->releaseElement( elem);
 		}
 
 		/// \brief Default constructor
 		iterator()
-			:element(0),input(0) {}
+			:element(0),input(0),elem(0) {}
 
 		/// \brief Assignement
 		/// \param [in] orig iterator to copy
-- 
2.43.0


From 2c9e79a0461d2f1e7d1e96b51800986bbf184753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:52 +0000
Subject: [PATCH 40/48] fix: refused print calls set the last error, tags are
 not exited without a value for an attribute

---
 include/textwolf/xmlprinter.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..c839a25 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -241,6 +241,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "printed attribute without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
@@ -278,6 +283,7 @@ public:
 			m_state = TagAttribute;
 			return true;
 		}
+		m_lasterror = "printed attribute outside of an open tag or after an attribute without value";
 		return false;
 	}
 
@@ -311,6 +317,7 @@ public:
 
 		if (!m_tagstack.top( cltag, cltagsize) || !cltagsize)
 		{
+			m_lasterror = "printed close tag without open tag";
 			return false;
 		}
 		if (m_state == TagElement)
@@ -321,6 +328,7 @@ public:
 		}
 		else if (m_state != Content)
 		{
+			m_lasterror = "printed attribute without value";
 			return false;
 		}
 		else
-- 
2.43.0


From 42996388b263def0954c14095395d7280779b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:58 +0000
Subject: [PATCH 41/48] fix: document type is printed only once and only
 between the header and the root element

---
 include/textwolf/xmlprinter.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index c839a25..8adf51b 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -135,17 +135,17 @@ public:
 	/// \param[in] subDocument do not require an Xml header to be printed if set to true
 	/// \note Uses the default code pages (IsoLatin-1 for IsoLatin) for output
 	explicit XMLPrinter( bool subDocument=false)
-		:m_state(subDocument?Content:Init),m_lasterror(0){}
+		:m_state(subDocument?Content:Init),m_prolog(true),m_lasterror(0){}
 
 	/// \brief Constructor
 	/// \param[in] output_ character set encoding instance (with the code page tables needed) for output
 	/// \param[in] subDocument do not require an Xml header to be printed if set to true
 	explicit XMLPrinter( const IOCharset& output_, bool subDocument=false)
-		:m_state(subDocument?Content:Init),m_output(output_),m_lasterror(0){}
+		:m_state(subDocument?Content:Init),m_prolog(true),m_output(output_),m_lasterror(0){}
 
 	/// \brief Copy constructor
 	XMLPrinter( const XMLPrinter& o)
-		:m_state(o.m_state),m_tagstack(o.m_tagstack),m_output(o.m_output),m_lasterror(o.m_lasterror)
+		:m_state(o.m_state),m_prolog(o.m_prolog),m_tagstack(o.m_tagstack),m_output(o.m_output),m_lasterror(o.m_lasterror)
 	{}
 
 	/// \brief Reset the state
@@ -153,6 +153,7 @@ public:
 	void reset( bool subDocument=false)
 	{
 		m_state = subDocument?Content:Init;
+		m_prolog = true;
 		m_tagstack.clear();
 		m_lasterror = 0;
 	}
@@ -196,6 +197,11 @@ public:
 	{
 		if (rootid)
 		{
+			if (m_state != Content || !m_prolog)
+			{
+				m_lasterror = "printing document type not at the beginning of the document after the xml header";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
@@ -225,6 +231,7 @@ public:
 				printToBuffer( rootid, std::strlen( rootid), buf);
 				printToBuffer( ">", 2, buf);
 			}
+			m_prolog = false;
 		}
 		return true;
 	}
@@ -249,6 +256,7 @@ public:
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
+		m_prolog = false;
 		return true;
 	}
 
@@ -371,6 +379,7 @@ public:
 
 private:
 	State m_state;					///< internal state
+	bool m_prolog;					///< true, if nothing but the header has been printed
 	TagStack m_tagstack;				///< tag name stack of open tags
 	IOCharset m_output;				///< output character set encoding
 	const char* m_lasterror;			///< the last error occurred
-- 
2.43.0


From 565562b33c15b72a7b0af6a728deb21a77721e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:03 +0000
Subject: [PATCH 42/48] fix: carriage return in printed content is escaped

---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8adf51b..a7107d2 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From 96c6bda8b60cc499e8a1e33a8b2aa883d8606d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 43/48] fix: printed values are not truncated at null
 characters

---
 include/textwolf/xmlprinter.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index a7107d2..a8f560f 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -40,10 +40,9 @@ public:
 		CStringIterator itr( src, srcsize);
 		TextScanner<CStringIterator,AppCharset> ts( itr);
 
-		UChar ch;
-		while ((ch = ts.chr()) != 0)
+		while (ts.getPosition() < srcsize)
 		{
-			m_output.print( ch, buf);
+			m_output.print( ts.chr(), buf);
 			++ts;
 		}
 	}
@@ -81,9 +80,9 @@ public:
 		CStringIterator itr( src, srcsize);
 		textwolf::TextScanner<CStringIterator,AppCharset> ts( itr);
 
-		textwolf::UChar ch;
-		while ((ch = ts.chr()) != 0)
+		while (ts.getPosition() < srcsize)
 		{
+			textwolf::UChar ch = ts.chr();
 			if (ch < 128)
 			{
 				printEsc( (char)ch, buf, nof_echr, echr, estr);
@@ -227,9 +226,9 @@ public:
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
+				printToBuffer( "<!DOCTYPE ", 10, buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printToBuffer( '>', buf);
 			}
 			m_prolog = false;
 		}
-- 
2.43.0


From ceaaff26f42ad92acd5652f94622313f2912c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 44/48] fix: markup of header and document type is printed
 independent of the character set of the application

---
 include/textwolf/xmlprinter.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index a8f560f..7757532 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -47,6 +47,14 @@ public:
 		}
 	}
 
+	/// \brief Prints an ASCII string to an STL back insertion sequence buffer in the IO character set encoding
+	/// \param [in] src ASCII string to print (null terminated)
+	/// \param [out] buf buffer to append result to
+	void printAscii( const char* src, BufferType& buf) const
+	{
+		for (; *src; ++src) printToBuffer( *src, buf);
+	}
+
 	/// \brief print a character substitute or the character itself
 	/// \param [in] ch character to print
 	/// \param [in,out] buf buffer to print to
@@ -170,17 +178,17 @@ public:
 			return false;
 		}
 		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
+		printAscii( "<?xml version=\"1.0\" encoding=\"", buf);
 		printToBuffer( enc.c_str(), enc.size(), buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
+			printAscii( "\" standalone=\"", buf);
 			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
+			printAscii( "\"?>\n", buf);
 		}
 		else
 		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printAscii( "\"?>\n", buf);
 		}
 		m_state = Content;
 		return true;
@@ -208,25 +216,25 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAscii( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
+				printAscii( " PUBLIC \"", buf);
 				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
+				printAscii( "\" \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printAscii( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAscii( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
+				printAscii( " SYSTEM \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printAscii( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAscii( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
 				printToBuffer( '>', buf);
 			}
-- 
2.43.0


From e17908de7446a86ce7a5f1082242c79d975f9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 45/48] fix: elements of an index or range condition are
 counted once

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 3a9dda6..1109250 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -229,7 +229,7 @@ private:
 						}
 					}
 				}
-				else
+				else if (tk->core.typeidx == 0)
 				{
 					produce( tokenidx, st);
 					tk = &tokens[ tokenidx];
-- 
2.43.0


From 6b416131232a5a9fbb29389a4d237e3cb98bfbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 46/48] fix: content does not end the selection of attributes
 in the tags below

---
 include/textwolf/xmlpathselect.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 1109250..ee2f03d 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -257,9 +257,11 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (tk->core.mask.rejects( context.type)
+			&&  !(tk->core.follow && context.type == XMLScannerBase::Content))
 			{
-				//The token must not match anymore after encountering a reject item
+				//The token must not match anymore after encountering a reject item, 
+				//... but the content of one tag does not tell anything about the tags below
 				tk->core.mask.reset();
 			}
 		}
-- 
2.43.0


From ef96bc49674e199d3bd21d45460b3298a8665cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:33 +0000
Subject: [PATCH 47/48] fix: an error in a definition for lack of memory leaves
 no link to a missing state

---
 include/textwolf/xmlpathautomaton.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index cc7c6de..985809a 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -491,9 +491,9 @@ private:
 				{
 					stateidx = states[ stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 			}
 			states.push_back( state);
 			unsigned int lastidx = states.size()-1;
@@ -540,10 +540,9 @@ private:
 				{
 					stateidx = states[stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
-				
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 			}
 			states[ stateidx].defineOutput( printOpMask, typeidx, follow, start, end);
 			return stateidx;
-- 
2.43.0


From 8a46cf9ee71650a6406c12612360b6223b7d6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:33 +0000
Subject: [PATCH 48/48] fix: an exception without memory for its text does not
 terminate the program

---
 include/textwolf/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 4ee5f25..ae87305 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -52,11 +52,11 @@ struct exception	:public std::runtime_error
 
 	/// \brief Constructor
 	/// \return exception object
-	exception (Cause p_cause) throw()
+	exception (Cause p_cause)
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-		:std::runtime_error("textwolf error in XML"), cause(orig.cause) {}
+		:std::runtime_error(orig), cause(orig.cause) {}
 	/// \brief Destructor
 	virtual ~exception() throw() {}
 
-- 
2.43.0

