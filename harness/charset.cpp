// Analysis unit: one character set encoding (CS) behind TextScanner.  Never compiled to machine code: only its LLVM IR is analysed.
#include "prelude.hpp"
#include "stdrt.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"

extern "C" {
unsigned char vf_byte( const char* p);		// the input byte at p
void vf_advance( const char* p);		// the source was advanced over p
void vf_out( unsigned char b);			// a byte was appended to the output
unsigned int vf_choose( const char* p);		// the next operation (state of the fixpoint)
void vf_obs( unsigned int op, unsigned int v);	// result of an operation
void vf_end( const char* p);			// source position after advancing to the next character
unsigned int vf_char( void);			// any character value
void vf_pos( unsigned long p);
unsigned int vf_page( void);
}

namespace textwolf {
struct It
{
	const char* p;
	It() :p(0){}
	It( const char* p_) :p(p_){}
	It( const It& o) :p(o.p){}
	char operator*() const		{return (char)vf_byte( p);}
	It& operator++()		{vf_advance( p); ++p; return *this;}
	unsigned int operator-( const It& o) const {return (unsigned int)(p-o.p);}
};
template <> struct Traits<It>
{
	static std::size_t getPosition( const It& start, const It& itr) {return itr.p - start.p;}
};
struct Out
{
	void push_back( char ch) {vf_out( (unsigned char)ch);}
};
}
using namespace textwolf;

static unsigned int ctl( ControlCharacter c)
{
	switch (c)
	{
		case Undef: return 'U'; case EndOfText: return '0'; case EndOfLine: return 'N'; case Cntrl: return 'C'; case Space: return ' ';
		case Amp: return '&'; case Lt: return '<'; case Equal: return '='; case Gt: return '>'; case Slash: return '/'; case Dash: return '-';
		case Exclam: return '!'; case Questm: return '?'; case Sq: return '\''; case Dq: return '"'; case Osb: return '['; case Csb: return ']';
		case Any: return 'A';
	}
	return 'X';
}

#ifdef PAGE
typedef charset::IsoLatin Encoding;
#define MAKE Encoding( PAGE)
#define OTHER Encoding( PAGE==1?2:1)
#else
typedef charset::CS Encoding;
#define MAKE Encoding()
#endif

// run everything once so that the constant tables are set up
extern "C" void d_warm( const char* src)
{
	Encoding cs = MAKE;
	TextScanner<It,Encoding> ts( cs, It( src));
	Out out;
	ts.ascii(); ts.control(); ts.chr(); ts.copychar( cs, out); ts.skip();
}

// C01, C02: decode one character
extern "C" void d_decode( const char* src)
{
	Encoding cs = MAKE;
	TextScanner<It,Encoding> ts( cs, It( src));
	vf_obs( 0, ts.chr());
	ts.skip();
	vf_end( ts.getIterator().p);
}

// C04: classification
extern "C" void d_class( const char* src)
{
	Encoding cs = MAKE;
	TextScanner<It,Encoding> ts( cs, It( src));
	vf_obs( 1, ts.ascii());
	vf_obs( 2, ctl( ts.control()));
	vf_obs( 0, ts.chr());
	ts.skip();
	vf_end( ts.getIterator().p);
}

// C05: any order of operations, any suspension
extern "C" void d_ops( const char* src)
{
	Encoding cs = MAKE;
#ifdef PAGE
	Encoding other = OTHER;
#endif
	TextScanner<It,Encoding> ts( cs, It( src));
	Out out;
	for (;;)
	{
		unsigned int op = vf_choose( ts.getIterator().p);
		switch (op)
		{
			case 0: vf_obs( 0, ts.chr()); break;
			case 1: vf_obs( 1, ts.ascii()); break;
			case 2: vf_obs( 2, ctl( ts.control())); break;
			case 3: ts.copychar( cs, out); vf_obs( 3, 0); break;
#ifdef PAGE
			case 4: ts.copychar( other, out); vf_obs( 4, 0); break;
#endif
			case 5: vf_obs( 5, *ts); break;
			case 6: ts.skip(); vf_end( ts.getIterator().p); break;
			case 7: ++ts; vf_end( ts.getIterator().p); break;
			case 8: {TextScanner<It,Encoding> cp( ts); vf_obs( 0, cp.chr()); break;}
			case 9: vf_pos( ts.getPosition()); vf_obs( 9, 0); break;
			default: return;
		}
	}
}

// C03: encode one character
extern "C" void d_encode( void)
{
	Encoding cs = MAKE;
	Out out;
	cs.print( vf_char(), out);
	vf_obs( 0, 0);
}

#ifdef PAGE
// C06: construction of a code page by index
extern "C" void d_page( void)
{
	try
	{
		charset::IsoLatin cs( vf_char());
		vf_obs( 0, 0);
	}
	catch (const textwolf::exception& e)
	{
		vf_obs( 1, e.cause == throws_exception::CodePageIndexNotSupported);
	}
}
extern "C" void d_equal( void)
{
	Encoding a( vf_page()), b( vf_page());
	vf_obs( 0, Encoding::is_equal( a, b));
	Encoding c( a);
	vf_obs( 1, Encoding::is_equal( a, c));
}
#endif
