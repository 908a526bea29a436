// Analysis unit of the header parser.
#include "vf.hpp"
#include <string>
#include <cstring>
#include "textwolf/exception.hpp"
#include "textwolf/xmlhdrparser.hpp"
using namespace textwolf;

#ifndef SLACK
#define SLACK 2
#endif
#ifndef ATTRS
#define ATTRS 2
#endif
#ifndef CHUNK
#define CHUNK 2
#endif
#ifndef COPY
#define COPY 0
#endif
#define ITEM 11		// one character more than the longest name
#define VALUE 2

static const bool letters[256] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0,0,0,0,1,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
// Reference: the declaration character by character
struct Ref
{
	enum {Start, Open, Head, Name, InName, Assign, Val, Sq, Dq};
	enum Res {More, Done, Error, Throw, Stop};
	unsigned int st, attr, attrs, nitem, nenc, chars, zeros, slack, fed;
	unsigned char item[ ITEM], enc[ VALUE];
	void init()	{st = Start; attr = attrs = nitem = nenc = chars = zeros = slack = fed = 0;}
	static bool letter( unsigned char c)	{return letters[ c];}
	bool is( const char* s) const
	{
		unsigned int i = 0;
		for (; s[i]; ++i) if (i >= nitem || item[i] != (unsigned char)s[i]) return false;
		return i == nitem;
	}
	Res add( unsigned char c, unsigned int lim)	{if (nitem == lim || (lim > VALUE && nitem >= 2 && c == '_')) return Stop; item[ nitem++] = c; return More;}
	Res step( unsigned char c, bool pad)
	{
		++fed;
		if (c == 0)
		{
			if (!pad && ++slack > SLACK) return Stop;
			return ++zeros == 4 ? Throw : More;
		}
		zeros = 0;
		bool blank = (c <= 32);
		if (!blank) ++chars;
		else if (st != Sq && st != Dq && ++slack > SLACK) return Stop;
		switch (st)
		{
			case Start: if (blank) return More; if (c != '<') return Error; st = Open; return More;
			case Open: if (blank) return More; if (letter( c)) return Done; if (c != '?') return Error; st = Head; return More;
			case Head:
				if (letter( c)) return add( c, 4);
				if (!blank && c != '?') return Error;
				if (!is( "xml")) return Error;
				nitem = 0;
				if (!blank) return Done;
				st = Name; return More;
			case Name:
				if (blank) return More;
				if (c == '?') return Done;
				if (!letter( c)) return Error;
				if (attrs++ == ATTRS) return Stop;
				st = InName; return add( c, ITEM);
			case InName:
				if (letter( c)) return add( c, ITEM);
				if (!blank && c != '=') return Error;
				if (is( "version")) attr = 0; else if (is( "encoding")) attr = 1; else if (is( "standalone")) attr = 2; else return Error;
				nitem = 0;
				st = blank ? Assign : Val;
				return More;
			case Assign: if (blank) return More; if (c != '=') return Error; st = Val; return More;
			case Val: if (blank) return More; if (c == '"') st = Dq; else if (c == '\'') st = Sq; else return Error; return More;
			case Sq:
			case Dq:
				if (c != ((st == Sq) ? '\'' : '"')) return add( c, VALUE);
				if (attr == 1) {nenc = nitem; for (unsigned int i=0; i<nitem; ++i) enc[i] = item[i];}
				nitem = 0; st = Name; return More;
		}
		return Stop;
	}
};

static void agree( const XmlHdrParser& h, const Ref& g, bool err)
{
	const char* e = h.encoding();
	if (!g.nenc) vf_assert( e == 0, "XmlHdrParser::encoding (xmlhdrparser.hpp): no encoding is delivered if none has been declared");
	else
	{
		vf_assert( e != 0 && std::strlen( e) == g.nenc, "XmlHdrParser::encoding (xmlhdrparser.hpp): the length of the encoding name is the declared one");
		for (unsigned int i=0; i<g.nenc; ++i) vf_assert( (unsigned char)e[i] == g.enc[i], "XmlHdrParser::encoding (xmlhdrparser.hpp): the encoding name is the declared one");
	}
	const char* m = h.lasterror();
	vf_assert( (m != 0) == err, "XmlHdrParser::lasterror (xmlhdrparser.hpp): an error is reported exactly if the declaration is malformed");
	if (m) vf_assert( m[0] != 0, "XmlHdrParser::lasterror (xmlhdrparser.hpp): an error has a text");
	vf_assert( h.charsConsumed() == g.chars, "XmlHdrParser::charsConsumed (xmlhdrparser.hpp): the number of non-blank characters consumed");
	vf_assert( h.consumedData().size() == g.fed, "XmlHdrParser::consumedData (xmlhdrparser.hpp): the size of the data given");
}

extern "C" void d_feed( void)
{
	{
		static const unsigned char before[5] = {0,0,1,0,3}, after[5] = {0,1,0,3,0};
#ifdef WIDE
		unsigned int w = 1 + vf_pick( 4, "zeros:");
#else
		unsigned int w = 0;
#endif
		XmlHdrParser* hp = new XmlHdrParser;
#define h (*hp)
		Ref g; g.init();
		vf_assert( !h.parse(), "XmlHdrParser::parse (xmlhdrparser.hpp): without input more is needed");
		agree( h, g, false);
		for (;;)
		{
			for (unsigned int i=g.nitem; i<ITEM; ++i) g.item[i] = 0;
			vf_state( ((((((g.st*4 + g.attr)*4 + g.attrs)*16 + g.nitem)*4 + g.nenc)*16 + g.slack)*64 + g.fed)*5 + w);
			unsigned char chunk[ CHUNK*4+1]; unsigned int n = 0, k = vf_pick( CHUNK+1, ""), i;
			Ref::Res r = Ref::More;
			bool zeroed = false;
			for (i=0; i<k && r == Ref::More; ++i)
			{
				unsigned int z;
				for (z=0; z<before[w] && r == Ref::More; ++z) {chunk[ n++] = 0; r = g.step( 0, true);}
				if (r != Ref::More) break;
				unsigned char c = vf_choose( 256);
				if (w && c == 0) {r = Ref::Stop; break;}
				chunk[ n++] = c; r = g.step( c, false);
				for (z=0; z<after[w] && r == Ref::More; ++z) {chunk[ n++] = 0; r = g.step( 0, true);}
			}
			if (r == Ref::Stop) break;
			if (r != Ref::More && r != Ref::Stop && k < CHUNK) {chunk[ n++] = vf_choose( 256); ++g.fed;}	// must not be looked at
			char* src = new char[ n];
			for (i=0; i<n; ++i) src[i] = chunk[i];
			h.putInput( src, n);
			delete [] src;
			bool res = false, ex = false;
			try {res = h.parse();} catch (const exception& e) {ex = (e.cause == throws_exception::IllegalXmlHeader);}
			vf_assert( ex == (r == Ref::Throw), "XmlHdrParser::parse (xmlhdrparser.hpp): input that can not be text is refused");
			if (ex) break;
			vf_assert( res == (r == Ref::Done), "XmlHdrParser::parse (xmlhdrparser.hpp): success exactly if the declaration is complete");
			agree( h, g, r == Ref::Error);
			if (r != Ref::More)
			{
				if (COPY) {XmlHdrParser c( h); agree( c, g, r == Ref::Error);}
				h.clear();
				g.init();
				agree( h, g, false);
				vf_assert( !h.parse() && !h.lasterror(), "XmlHdrParser::clear (xmlhdrparser.hpp): the parser is in its initial state");
				break;
			}
			if (COPY) {vf_note( "copy"); XmlHdrParser* c = new XmlHdrParser( h); agree( *c, g, false); delete hp; hp = c;}	// the copy continues like the original
		}
		delete hp;
#undef h
	}
	vf_heap( "XmlHdrParser (xmlhdrparser.hpp)");
}

// the data given is kept
extern "C" void d_data( void)
{
	XmlHdrParser h; char all[ 6]; unsigned int n = 0;
	for (unsigned int c=0; c<3; ++c)
	{
		char s[ 2]; unsigned int k = vf_pick( 3, "chunk:");
		for (unsigned int i=0; i<k; ++i) {s[i] = vf_choose( 256); all[ n++] = s[i];}
		h.putInput( s, k);
		if (n <= 2) h.parse();
		vf_state( c*8 + n);
		vf_assert( h.consumedData().size() == n, "XmlHdrParser::consumedData (xmlhdrparser.hpp): the size of the data given");
		for (unsigned int i=0; i<n; ++i) vf_assert( h.consumedData()[ i] == all[ i], "XmlHdrParser::consumedData (xmlhdrparser.hpp): the data given is kept");
	}
}
