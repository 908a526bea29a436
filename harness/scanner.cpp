// Analysis unit of the XML scanner: the scanner over a modelled byte source and a modelled output.
#include "prelude.hpp"
#include "stdrt.hpp"
#include "textwolf/char.hpp"
#include "textwolf/exception.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"

extern "C" int vf_byte( const char*);
extern "C" void vf_advance( const char*);
extern "C" bool vf_out( unsigned int ch);		// a character printed to the output
extern "C" bool vf_outbyte( unsigned int ch);		// a byte copied to the output
extern "C" void vf_clear( void);
extern "C" void vf_drop( void);				// non-trivial destructor of the output buffer
extern "C" unsigned int vf_mask( void);			// also marks the point where a suspended call is repeated
extern "C" void vf_item( unsigned int type, std::size_t pos, std::size_t size);
extern "C" void vf_err( unsigned int kind, unsigned int code, const char* text);
extern "C" void vf_obs( unsigned int what, unsigned int value);

namespace textwolf {
struct It
{
	const char* p;
	It() :p(0){}
	It( const char* p_) :p(p_){}
	It( const It& o) :p(o.p){}
	It& operator=( const It& o)	{p = o.p; return *this;}
	char operator*() const		{return (char)vf_byte( p);}
	It& operator++()		{vf_advance( p); ++p; return *this;}
	unsigned int operator-( const It& o) const {return (unsigned int)(p-o.p);}
};
template <> struct Traits<It>
{
	static std::size_t getPosition( const It&, const It& itr) {return reinterpret_cast<std::size_t>( itr.p);}
};
static char outchar;
struct Out
{
	bool some;		///< something has been printed since the last clear
	mutable bool fresh;	///< a new buffer, nothing has been taken over
	Out() :some(false),fresh(true){}
	Out( const Out& o) :some(o.some),fresh(o.fresh){}
	Out& operator=( const Out& o)	{some = o.some; fresh = o.fresh; return *this;}
	~Out()				{vf_drop();}
	void use() const		{if (fresh) {fresh = false; vf_clear();}}
	void push_back( char ch)	{use(); some = vf_outbyte( (unsigned char)ch);}
	void clear()			{some = fresh = false; vf_clear();}
	std::size_t size() const	{return some ? 1:0;}
	const char& at( std::size_t) const {return outchar;}
};
// output (and input) encoding with an abstract encoder: what the real encoders do is decided by C03
struct MC :public charset::IsoLatin
{
	MC() :charset::IsoLatin(1){}
	MC( const MC& o) :charset::IsoLatin(o){}
	template <class Buffer_> void print( UChar ch, Buffer_& buf) const {buf.use(); buf.some = vf_out( ch);}
	static bool is_equal( const MC&, const MC&) {return true;}
};
}
#include "textwolf/xmlscanner.hpp"
using namespace textwolf;

#if defined(INCS)
typedef INCS InCS;
#elif defined(SAME)
typedef MC InCS;
#else
typedef charset::IsoLatin InCS;
#endif
typedef XMLScanner<It,InCS,MC,Out> Scanner;

static unsigned int code( XMLScannerBase::ElementType t)
{
	switch (t)
	{
		case XMLScannerBase::None: return 'N'; case XMLScannerBase::ErrorOccurred: return '!'; case XMLScannerBase::HeaderStart: return 'h';
		case XMLScannerBase::HeaderAttribName: return 'n'; case XMLScannerBase::HeaderAttribValue: return 'v'; case XMLScannerBase::HeaderEnd: return 'e';
		case XMLScannerBase::DocAttribValue: return 'd'; case XMLScannerBase::DocAttribEnd: return 'D'; case XMLScannerBase::TagAttribName: return 'a';
		case XMLScannerBase::TagAttribValue: return 'b'; case XMLScannerBase::OpenTag: return '<'; case XMLScannerBase::CloseTag: return '>';
		case XMLScannerBase::CloseTagIm: return '/'; case XMLScannerBase::Content: return 'C'; case XMLScannerBase::Exit: return '$';
	}
	return 'X';
}

// size (0: empty, 1: not, 2: not specified) and position are specified for the items that are tokens of the source
static std::size_t position( const Scanner& s, XMLScannerBase::ElementType t)
{
	switch (t)
	{
		case XMLScannerBase::HeaderAttribName: case XMLScannerBase::HeaderAttribValue: case XMLScannerBase::DocAttribValue:
		case XMLScannerBase::TagAttribName: case XMLScannerBase::TagAttribValue: case XMLScannerBase::OpenTag:
		case XMLScannerBase::CloseTag: case XMLScannerBase::Content: return s.getTokenPosition();
		default: return 0;
	}
}

template <class S>
static std::size_t size( const S& s, XMLScannerBase::ElementType t)
{
	switch (t)
	{
		case XMLScannerBase::HeaderAttribName: case XMLScannerBase::HeaderAttribValue: case XMLScannerBase::DocAttribValue:
		case XMLScannerBase::TagAttribName: case XMLScannerBase::TagAttribValue: case XMLScannerBase::OpenTag:
		case XMLScannerBase::CloseTag: case XMLScannerBase::Content: return s.getItemSize();
		default: return 2;
	}
}

static const Scanner::EntityMap& entities()
{
	static Scanner::EntityMap rt;
	if (rt.empty())
	{
		// names built at run time, as a caller would read them from a table
		static char n1[8], n2[8], n3[12];
		std::strcpy( n1, "ent"); std::strcpy( n2, "e"); std::strcpy( n3, "entityofdoc");
		rt[ n1] = 0x4E00; rt[ n2] = 0x4E01; rt[ n3] = 0x4E02;
	}
	return rt;
}

extern "C" void d_scan( const char* src)
{
	It it( src);
	InCS cs;
#ifdef SAME
	Scanner s( cs, it);
#else
	Scanner s( cs, it, entities());
#endif
	for (;;)
	{
		unsigned int mask = vf_mask();
		XMLScannerBase::ElementType t = s.nextItem( (unsigned short)mask);
		vf_item( code( t), position( s, t), size( s, t));
		if (t == XMLScannerBase::ErrorOccurred)
		{
			const char* txt = 0;
			XMLScannerBase::Error e = s.getError( &txt);
			vf_err( e == XMLScannerBase::Ok ? 0 : e == XMLScannerBase::ErrInternal ? 1 : 2, (unsigned int)e, txt);
			return;
		}
		if (t == XMLScannerBase::Exit) return;
	}
}

// scanning continued on a copy before every call
extern "C" void d_copy( const char* src)
{
	Scanner* volatile slot = new Scanner( InCS(), It( src), entities());
	for (;;)
	{
		unsigned int mask = vf_mask();
		Scanner* c = new Scanner( *slot);
		delete slot;
		slot = c;
		Scanner* s = slot;
		XMLScannerBase::ElementType t = s->nextItem( (unsigned short)mask);
		vf_item( code( t), position( *s, t), size( *s, t));
		if (t == XMLScannerBase::ErrorOccurred)
		{
			const char* txt = 0;
			XMLScannerBase::Error e = s->getError( &txt);
			vf_err( e == XMLScannerBase::Ok ? 0 : e == XMLScannerBase::ErrInternal ? 1 : 2, (unsigned int)e, txt);
			return;
		}
		if (t == XMLScannerBase::Exit) return;
	}
}

extern "C" void d_iter( const char* src)
{
	Scanner s( InCS(), It( src), entities());
	Scanner::iterator itr = s.begin( false), end = s.end();
	if (itr == end) vf_obs( 1, 0);
	for (;;)
	{
		(void)vf_mask();
		++itr;
		XMLScannerBase::ElementType t = itr->type();
		vf_item( code( t), position( s, t), size( s, t));
		if (t == XMLScannerBase::ErrorOccurred)
		{
			const char* txt = itr->error();
			if (itr != end && itr->valid()) vf_obs( 2, 0);
			if (itr->content() != txt || (txt && itr->size() != std::strlen( txt))) vf_obs( 3, 0);
			const char* txt2 = 0;
			XMLScannerBase::Error e = s.getError( &txt2);
			if (txt2 != txt) vf_obs( 4, 0);
			vf_err( e == XMLScannerBase::Ok ? 0 : e == XMLScannerBase::ErrInternal ? 1 : 2, (unsigned int)e, txt);
			return;
		}
		if (itr->error()) vf_obs( 5, 0);
		if (itr->content() != s.getItemPtr() || itr->size() != s.getItemSize()) vf_obs( 6, 0);
		if (t == XMLScannerBase::Exit)
		{
			if (itr != end || itr->valid()) vf_obs( 7, 0);
			return;
		}
		if (itr == end || !itr->valid()) vf_obs( 8, 0);
	}
}
