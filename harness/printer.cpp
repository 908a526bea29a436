// Analysis unit of the printer: all sequences of print calls over a modelled output, read by a reference acceptor.
#include "vf.hpp"
#include <cstring>
#include <string>
#include "textwolf/char.hpp"
#include "textwolf/exception.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"
#ifndef APP
#define APP IsoLatin
#endif
#ifndef UNIT
#define UNIT 1
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef COPY
#define COPY 0
#endif

// -------------------------------------------------------------------- output
struct Out
{
	textwolf::UChar a[ 96];
	unsigned int n;
	Out() :n(0){}
	void put( textwolf::UChar ch)	{vf_assert( n < 96, "XMLPrinter (xmlprinter.hpp): the output of a call is bounded"); a[ n++] = ch;}
	void push_back( char)		{vf_assert( false, "XMLPrinter (xmlprinter.hpp): all output is encoded in the character set of the output");}
	void append( const char*, std::size_t) {push_back( 0);}
};
namespace textwolf {
// output encoding with an abstract encoder: what the real encoders do is decided by C03
struct MC
{
	MC() {}
	MC( const MC&) {}
	template <class Buffer_> void print( UChar ch, Buffer_& buf) const {buf.put( ch);}
};
}
#include "textwolf/xmlprinter.hpp"
using namespace textwolf;
typedef XMLPrinter<MC,charset::APP,Out> Printer;
#define AT " (xmlprinter.hpp): "

struct Name
{
	unsigned int n; UChar c[ 2];
	char src[ 2*UNIT];
	void make( const char* what)
	{
		n = vf_pick( 2, what) + 1;
		for (unsigned int i=0; i<n; ++i) {c[i] = 'a' + vf_choose( 26); encode( c[i], src + i*UNIT);}
	}
	static void encode( UChar ch, char* p)
	{
		if (UNIT == 1) p[0] = (char)ch; else {for (unsigned int k=0; k<UNIT; ++k) p[ UNIT-1-k] = (char)(unsigned char)(ch >> (8*k));}
	}
};

// -------------------------------------------------------------------- acceptor of well-formed text
struct Acc
{
	enum St {Text, Lt, OpenName, Blank, AttrName, Equal, Quoted, Valued, Slash, CloseName, Decl, Decl2, Doc, DocQ, Bad};
	St st; UChar quote;
	bool prolog, first;			// only the header has been read, nothing has been read
	unsigned int depth;
	unsigned int nn[ DEPTH+2]; UChar name[ DEPTH+2][ 2]; unsigned int match;
	unsigned int nattr; UChar attr[ 2];
	unsigned int nval; UChar val[ 4];	// what the scanner delivers for the value
	unsigned int nref; UChar ref[ 8]; bool inref;
	void init( bool sub)	{st = Text; quote = 0; prolog = true; first = !sub; depth = 0; match = nattr = nval = nref = 0; inref = false;}
	static bool letter( UChar c)	{return c >= 'a' && c <= 'z';}
	void value( UChar c)	{if (nval < 4) val[ nval] = c; ++nval;}
	bool refis( const char* s) const {unsigned int i=0; for (; s[i]; ++i) if (i >= nref || ref[i] != (UChar)(unsigned char)s[i]) return false; return i == nref;}
	bool reference()
	{
		if (nref && ref[0] == '#')
		{
			unsigned int i = 1, v = 0, base = 10;
			if (nref > 1 && ref[1] == 'x') {i = 2; base = 16;}
			if (i == nref) return false;
			for (; i<nref; ++i)
			{
				UChar c = ref[i];
				if (c >= '0' && c <= '9') v = v*base + (c-'0'); else if (base == 16 && c >= 'a' && c <= 'f') v = v*16 + (c-'a'+10); else if (base == 16 && c >= 'A' && c <= 'F') v = v*16 + (c-'A'+10); else return false;
			}
			value( v); return true;
		}
		if (refis( "lt")) value( '<'); else if (refis( "gt")) value( '>'); else if (refis( "amp")) value( '&'); else if (refis( "apos")) value( '\''); else if (refis( "quot")) value( '"'); else return false;
		return true;
	}
	// character of a value: what the scanner makes of it
	void text( UChar c)
	{
		if (inref)
		{
			if (c == ';') {inref = false; if (!reference()) st = Bad; nref = 0;}
			else if (nref < 8) ref[ nref++] = c;
			else st = Bad;
		}
		else if (c == '&') {inref = true; nref = 0;}
		else if (c == 0) st = Bad;
		else if (c == '\r') value( '\n');
		else value( c);
	}
	void put( UChar c)
	{
		switch (st)
		{
			case Text:
				if (!inref && c == '<') {st = Lt; return;}
				text( c);
				if (!(depth == 0 && c == '\n')) prolog = first = false;
				return;
			case Lt:
				match = 0; nattr = 0;
				if (c == '/') {st = depth ? CloseName : Bad;}
				else if (c == '?') {st = first ? Decl : Bad;}
				else if (c == '!') {st = prolog ? Doc : Bad;}
				else if (letter( c) && depth <= DEPTH) {nn[ depth] = 0; st = OpenName; open( c);}
				else st = Bad;
				prolog = (c == '?') && prolog; first = false;
				return;
			case OpenName: if (letter( c)) open( c); else {++depth; tag( c);} return;
			case Blank: if (letter( c)) {st = AttrName; nattr = 0; attrc( c);} else if (c != ' ') tag( c); return;
			case AttrName: if (letter( c)) attrc( c); else if (c == '=') st = Equal; else st = Bad; return;
			case Equal: if (c == '"' || c == '\'') {quote = c; st = Quoted; nval = 0;} else if (c != ' ') st = Bad; return;
			case Quoted: if (!inref && c == quote) st = Valued; else if (c == '<') st = Bad; else text( c); return;
			case Valued: if (c == ' ' || c == '>' || c == '/') tag( c); else st = Bad; return;
			case Slash: if (c == '>') {st = Text; --depth;} else st = Bad; return;
			case CloseName:
				if (match < nn[ depth-1]) {if (c == name[ depth-1][ match]) ++match; else st = Bad;}
				else if (c == '>') {--depth; st = Text;}
				else st = Bad;
				return;
			case Decl: if (c == '?') st = Decl2; else if (c == '<' || c == '>') st = Bad; return;
			case Decl2: st = (c == '>') ? Text : Bad; return;
			case Doc: if (c == '>') st = Text; else if (c == '"') st = DocQ; else if (c == '<') st = Bad; return;
			case DocQ: if (c == '"') st = Doc; return;
			case Bad: return;
		}
	}
	void open( UChar c)	{if (nn[ depth] < 2) name[ depth][ nn[ depth]++] = c; else st = Bad;}
	void attrc( UChar c)	{if (nattr < 2) attr[ nattr++] = c; else st = Bad;}
	void tag( UChar c)	{if (c == ' ') st = Blank; else if (c == '>') st = Text; else if (c == '/') st = Slash; else st = Bad;}
	bool top( const Name& x) const	{if (!depth || nn[ depth-1] != x.n) return false; for (unsigned int i=0; i<x.n; ++i) if (name[ depth-1][i] != x.c[i]) return false; return true;}
	bool attribute( const Name& x) const {if (nattr != x.n) return false; for (unsigned int i=0; i<x.n; ++i) if (attr[i] != x.c[i]) return false; return true;}
	bool value( unsigned int n, const UChar* c) const {if (nval != n || inref) return false; for (unsigned int i=0; i<n; ++i) if (val[i] != c[i]) return false; return true;}
	bool tagged() const	{return st == OpenName || st == Valued || st == Blank;}
	bool text() const	{return st == Text && !inref;}
};

static void feed( Acc& a, Out& o)
{
	for (unsigned int i=0; i<o.n; ++i) a.put( o.a[i]);
	vf_assert( a.st != Acc::Bad, "XMLPrinter" AT "the text produced by accepted calls is well-formed XML");
}

extern "C" void d_calls( void)
{
	// S: what the caller knows
	enum {Init, Content, Tag, Attr};
	{
	bool sub = vf_pick( 2, "subdocument:");
	Printer* p = new Printer( sub);
	unsigned int S = sub ? Content : Init; bool prolog = true; unsigned int depth = 0;
	Acc a; a.init( sub);
	Name nm[ DEPTH+1]; (void)nm;
	for (;;)
	{
		unsigned int k, t = 0;
		for (k=0; k<a.depth; ++k) t = t*4 + a.nn[ k];
		if (S == Tag && a.st == Acc::OpenName) t = t*4 + a.nn[ a.depth];
		vf_state( ((((S*2 + prolog)*2 + a.first)*16 + a.st)*4 + depth)*64 + t);
		vf_assert( p->state() == ((S == Init) ? Printer::Init : (S == Content) ? Printer::Content : (S == Tag) ? Printer::TagElement : Printer::TagAttribute), "XMLPrinter::state" AT "a refused call changes nothing, an accepted one has its effect");
		if (COPY) {Printer* c = new Printer( *p); delete p; p = c;}
		Out o; bool ok = false, want = false;
		Name x;
		UChar v[ 1]; unsigned int nv = 0;
		a.nval = 0;
		unsigned int op = vf_pick( 9, "");
		const char* dt[ 4]; dt[ 0] = "r"; dt[ 1] = "p"; dt[ 2] = "s"; dt[ 3] = 0;
		unsigned int d = 0;
		switch (op)
		{
			case 0: vf_note( "header"); ok = p->printHeader( vf_pick( 2, "encoding:")?"U":0, vf_pick( 2, "standalone:")?"y":0, o); want = (S == Init); if (want) S = Content; break;
			case 1:
				vf_note( "doctype"); d = vf_pick( 6, "ids:");
				ok = p->printDoctype( dt[ (d == 5 || d == 4) ? (d == 5 ? 3 : 0) : 0], (d == 1 || d == 3) ? dt[1] : 0, (d == 1 || d == 2) ? dt[2] : 0, o);
				want = (d == 5) || (S == Content && prolog && d != 3);
				if (want && d != 5) prolog = false;
				break;
			case 2: vf_note( "exit"); ok = p->exitTagContext( o); want = (S == Content || S == Tag); if (want) {S = Content; prolog = false;} break;
			case 3:
				if (depth == DEPTH) goto END;
				vf_note( "open"); x.make( "length-1:"); ok = p->printOpenTag( x.src, x.n*UNIT, o); want = (S == Content || S == Tag);
				if (want) {S = Tag; prolog = false; ++depth;}
				break;
			case 4: vf_note( "attribute"); x.make( "length-1:"); ok = p->printAttribute( x.src, x.n*UNIT, o); want = (S == Tag); if (want) S = Attr; break;
			case 5:
			{
				vf_note( "value"); nv = vf_pick( 2, "length:");
				char src[ UNIT]; if (nv) {v[0] = vf_choose( 256); Name::encode( v[0], src);}
				ok = p->printValue( src, nv*UNIT, o); want = (S != Init);
				if (S == Content || S == Tag) prolog = false;
				if (want) S = (S == Attr) ? Tag : Content;
				if (want && S == Content) op = 8;
				break;
			}
			case 6: vf_note( "close"); ok = p->printCloseTag( o); want = (depth > 0 && S != Attr); if (want) {S = Content; --depth;} break;
			case 7: if (vf_pick( 2, "")) {vf_note( "reset"); p->reset( true); S = Content; prolog = true; depth = 0; a.init( true); vf_assert( p->lasterror() == 0, "XMLPrinter::reset" AT "the error is cleared"); continue;} goto END;
			case 8: goto END;
		}
		if (!ok)
		{
			vf_assert( p->lasterror() != 0 && p->lasterror()[0] != 0, "XMLPrinter::lasterror" AT "a refused call reports an error");
			vf_assert( o.n == 0, "XMLPrinter" AT "a refused call writes nothing");
		}
		vf_assert( want || !ok, "XMLPrinter" AT "calls that do not fit the position in the document are refused");
		vf_assert( ok || !want, "XMLPrinter" AT "calls that fit the position in the document are accepted");
		if (!ok) continue;
		feed( a, o);
		switch (op)
		{
			case 0: vf_assert( o.n > 0 && a.text() && a.prolog, "XMLPrinter::printHeader" AT "the header has been written"); break;
			case 1: vf_assert( (d == 5) ? (o.n == 0) : (o.n > 0 && a.text()), "XMLPrinter::printDoctype" AT "the document type has been written"); break;
			case 2: vf_assert( a.text(), "XMLPrinter::exitTagContext" AT "the tag has been closed"); break;
			case 3: {Acc b( a); if (b.st == Acc::OpenName) ++b.depth; vf_assert( a.tagged() && b.depth == depth && b.top( x), "XMLPrinter::printOpenTag" AT "the open tag has been written"); break;}
			case 4: vf_assert( a.st == Acc::Equal && a.attribute( x), "XMLPrinter::printAttribute" AT "the attribute name has been written"); break;
			case 5: vf_assert( a.st == Acc::Valued && a.value( nv, v), "XMLPrinter::printValue" AT "the attribute value has been written"); break;
			case 8: vf_assert( a.text() && a.value( nv, v), "XMLPrinter::printValue" AT "the content has been written"); break;
			case 6: vf_assert( a.st == Acc::Text && a.depth == depth, "XMLPrinter::printCloseTag" AT "the close tag of the innermost open tag has been written"); break;
		}
	}
	END:
	delete p;
	}
	vf_heap( "XMLPrinter (xmlprinter.hpp)");
}

// -------------------------------------------------------------------- values
#ifndef LEN
#define LEN 2
#endif
static UChar anychar( char* src, unsigned int& len)
{
	// any character of the application character set
#if defined(MULTI)
	UChar c; unsigned int b0, b1, b2, b3;
	switch (vf_pick( 4, "bytes-1:"))
	{
		case 0: c = vf_choose( 128); src[0] = (char)c; len = 1; break;
		case 1: b0 = vf_choose( 30) + 2; b1 = vf_choose( 64); src[0] = (char)(0xC0 + b0); src[1] = (char)(0x80 + b1); len = 2; c = (b0 << 6) + b1; break;
		case 2: b0 = vf_choose( 12) + 1; b1 = vf_choose( 64); b2 = vf_choose( 64); src[0] = (char)(0xE0 + b0); src[1] = (char)(0x80 + b1); src[2] = (char)(0x80 + b2); len = 3; c = (b0 << 12) + (b1 << 6) + b2; break;
		default: b0 = vf_choose( 3) + 1; b1 = vf_choose( 64); b2 = vf_choose( 64); b3 = vf_choose( 64); src[0] = (char)(0xF0 + b0); src[1] = (char)(0x80 + b1); src[2] = (char)(0x80 + b2); src[3] = (char)(0x80 + b3); len = 4; c = (b0 << 18) + (b1 << 12) + (b2 << 6) + b3; break;
	}
#elif UNIT == 1
	UChar c = vf_choose( 256); src[0] = (char)c; len = 1;
#elif UNIT == 2
	UChar h = vf_choose( 256 - 8), l = vf_choose( 256);
	if (h >= 0xD8) h += 8;
	src[0] = (char)h; src[1] = (char)l; len = 2;
	UChar c = (h << 8) + l;
#elif UNIT == 4
	UChar h = vf_choose( 17), m = vf_choose( 256), l = vf_choose( 256);
	if (h == 0 && m >= 0xD8 && m < 0xE0) h = 1;
	src[0] = 0; src[1] = (char)h; src[2] = (char)m; src[3] = (char)l; len = 4;
	UChar c = (h << 16) + (m << 8) + l;
#endif
	return c;
}
extern "C" void d_values( void)
{
	bool content = vf_pick( 2, "content:");
	char src[ LEN*4]; UChar v[ LEN]; unsigned int n = vf_pick( LEN+1, "length:"), i, len = 0;
	for (i=0; i<n; ++i) {unsigned int l; v[i] = anychar( src + len, l); len += l;}
	char* s = new char[ len]; for (i=0; i<len; ++i) s[i] = src[i];
	Out o; Acc a; a.init( true);
	{
		Printer p;
		if (content) {a.depth = 1; a.nn[0] = 0; p.printToBufferContent( s, len, o);}
		else {a.st = Acc::Equal; p.printToBufferAttributeValue( s, len, o);}
	}
	for (i=0; i<o.n; ++i) a.put( o.a[i]);
	vf_assert( a.st == (content ? Acc::Text : Acc::Valued) && !a.inref, "XMLPrinter::printValue" AT "a printed value contains no markup and only complete references the scanner knows");
	vf_assert( a.value( n, v), "XMLPrinter::printValue" AT "the scanner delivers exactly the characters printed");
	delete [] s;
	vf_heap( "XMLPrinter (xmlprinter.hpp)");
}

// one-time initialisations of the library
extern "C" void d_warm( void)
{
	Out o; Printer p; char c[ UNIT]; Name::encode( 'a', c);
	p.printToBuffer( c, UNIT, o);
	charset::APP cs; (void)cs;
}
