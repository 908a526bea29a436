// Analysis unit of the byte sources.
#include "vf.hpp"
#include <istream>
#include <stdexcept>
#include <setjmp.h>

// The standard input stream as its specification describes it: reads succeed, end, or fail in any way at any time.
static int g_errno;
extern "C" int* __errno_location( void) throw() {return &g_errno;}
static unsigned char g_data[ 8];	// what the stream delivered
static unsigned int g_avail;		// how much
static unsigned int g_max;		// how much it may deliver
static bool g_end, g_fail;		// the last read has found the end / has failed
struct UserError {int x;};
static void produce( char* buf, unsigned int n)
{
	for (unsigned int i=0; i<n; ++i) {unsigned char ch = vf_choose( 256); g_data[ g_avail++] = ch; buf[i] = (char)ch;}
}

namespace std {
ios_base::ios_base() throw() :_M_precision(0),_M_width(0),_M_flags(),_M_exception(goodbit),_M_streambuf_state(goodbit),_M_callbacks(0),_M_word_size(0),_M_word(0) {}
ios_base::~ios_base() {}
locale::locale() throw() {}
locale::~locale() throw() {}
static char g_raw[ 64];
ios_base::failure::failure( const string&) :system_error( *(const system_error*)g_raw) {}
ios_base::failure::~failure() throw() {}
const char* ios_base::failure::what() const throw() {return "";}
template <> void ios::init( streambuf*) {}
template <> void ios::clear( iostate s)
{
	_M_streambuf_state = s;
	if (_M_exception & s) throw ios_base::failure( string());
}
template <> istream& istream::read( char* buf, streamsize n)
{
	_M_gcount = 0;
	g_end = g_fail = false;
	g_errno = vf_pick( 2, "") ? 5 : 0;		// whatever a call before left there
	if (!good()) {if (bad() || !eof()) g_fail = true; else g_end = true; setstate( failbit); return *this;}
	if ((unsigned long)n > 64) {vf_assert( false, "StdInputStream::read (istreamiterator.hpp): the stream is asked for at most the bytes the buffer holds"); return *this;}
	unsigned int room = g_max - g_avail;
	switch (vf_pick( 6, "read:"))
	{
		case 0:
			if (n <= room) {produce( buf, n); _M_gcount = n; return *this;}
		case 1:
		{
			unsigned int k = vf_pick( ((unsigned int)n < room+1) ? n : room+1, "bytes:");
			produce( buf, k);
			_M_gcount = k;
			g_end = (k < n);
			setstate( eofbit | failbit);
			return *this;
		}
		case 2: buf[ 0] = '?';	// part of a block that has been read before the failure
		case 3: g_fail = true; _M_streambuf_state = _M_streambuf_state | badbit; if (_M_exception & badbit) {UserError e; throw e;} return *this;
		case 4: g_fail = true; setstate( badbit); return *this;
		case 5: g_fail = true; _M_streambuf_state = _M_streambuf_state | badbit; if (_M_exception & badbit) throw std::runtime_error( "device"); return *this;
	}
	return *this;
}
}
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
using namespace textwolf;

#define IT_END		": at the end of the input a null byte is delivered as often as asked"
#define IT_BYTE		": the current byte is the one of the input at this position"

// -------------------------------------------------------------------- zero terminated or counted strings
template <class Make> static void cstring( unsigned int n, const char* s, const CStringIterator& start)
{
	CStringIterator it( start);
	unsigned int p = 0;
	for (;;)
	{
		vf_state( n*16 + p);
		unsigned char c = *it;
		if (p < n) vf_assert( c == (unsigned char)s[ p], "CStringIterator::operator* (cstringiterator.hpp)" IT_BYTE);
		else vf_assert( c == 0, "CStringIterator::operator* (cstringiterator.hpp)" IT_END);
		vf_assert( (p <= n) ? (it.pos() == p) : (it.pos() >= n), "CStringIterator::pos (cstringiterator.hpp): the position is the number of bytes consumed");
		vf_assert( p > n || (it - start) == (int)p, "CStringIterator::operator- (cstringiterator.hpp): the difference is the number of bytes between");
		switch (vf_pick( 5, ""))
		{
			case 0: if (p < n+2) {vf_note( "++"); CStringIterator* r = &++it; vf_assert( r == &it, "CStringIterator::operator++ (cstringiterator.hpp): the iterator is returned"); ++p;} break;
			case 1: {vf_note( "copy"); CStringIterator o( it); vf_assert( *o == *it, "CStringIterator (cstringiterator.hpp): a copy is at the same byte"); ++o; it = CStringIterator( it); break;}
			case 2: {unsigned int i = vf_pick( n+3, "pos:"); it.pos( i); p = (i < n) ? i : n; break;}
			case 3: {vf_note( "rewind"); it = start; p = 0; break;}
			case 4: return;
		}
	}
}
struct Any {};
extern "C" void d_cstring( void)
{
	unsigned int n = vf_pick( 4, "size:");
	unsigned int how = vf_pick( 3, "constructor:");
	if (how == 0)
	{
		char* s = new char[ n]; for (unsigned int i=0; i<n; ++i) s[i] = (char)vf_choose( 256);
		cstring<Any>( n, s, CStringIterator( s, n));
		delete [] s;
	}
	else if (how == 1)
	{
		char* s = new char[ n+1]; for (unsigned int i=0; i<n; ++i) s[i] = (char)(vf_choose( 255) + 1);
		s[ n] = 0;
		cstring<Any>( n, s, CStringIterator( s));
		delete [] s;
	}
	else
	{
		char t[ 4]; for (unsigned int i=0; i<n; ++i) t[i] = (char)vf_choose( 256);
		std::string s( t, n);
		cstring<Any>( n, t, CStringIterator( s));
	}
	CStringIterator e;
	vf_assert( *e == 0, "CStringIterator::operator* (cstringiterator.hpp): the empty source is at its end");
	++e;
	vf_assert( *e == 0, "CStringIterator::operator* (cstringiterator.hpp)" IT_END);
	vf_heap( "CStringIterator (cstringiterator.hpp)");
}

// -------------------------------------------------------------------- chunks
static jmp_buf g_eom;
static bool get( SrcIterator& it, unsigned char& c)
{
	if (setjmp( g_eom) != 0) return false;
	c = *it;
	return true;
}
#ifndef CHUNKS
#define CHUNKS 3
#endif
extern "C" void d_chunks( void)
{
	unsigned int base = 0, chunk = 0, n = vf_pick( 4, "chunk:"), p = 0;
	bool last = vf_pick( 2, "last:"), past = false;
	char* s = new char[ n]; for (unsigned int i=0; i<n; ++i) s[i] = (char)vf_choose( 256);
	SrcIterator it;
	unsigned char c = 0;
	vf_assert( get( it, c) && c == 0, "SrcIterator::operator* (sourceiterator.hpp): the empty source is at its end");
	if (vf_pick( 2, "put:")) it.putInput( s, n, last?0:&g_eom); else it = SrcIterator( s, n, last?0:&g_eom);
	SrcIterator start( it);
	for (;;)
	{
		vf_state( (((((chunk*4 + n)*4 + p)*2 + last)*2 + past) * 16) + base);
		bool have = get( it, c);
		if (p < n) vf_assert( have && c == (unsigned char)s[ p], "SrcIterator::operator* (sourceiterator.hpp)" IT_BYTE);
		else if (last) vf_assert( have && c == 0, "SrcIterator::operator* (sourceiterator.hpp)" IT_END);
		else vf_assert( !have, "SrcIterator::operator* (sourceiterator.hpp): the read is suspended exactly if all bytes are consumed and the end has not been declared");
		if (!past)
		{
			vf_assert( it.position() == base + p, "SrcIterator::position (sourceiterator.hpp): the position is the number of bytes consumed");
			vf_assert( it.getPosition() == p, "SrcIterator::getPosition (sourceiterator.hpp): the position in the chunk is the number of bytes of it consumed");
			vf_assert( it - start == p, "SrcIterator::operator- (sourceiterator.hpp): the difference is the number of bytes between");
		}
		vf_assert( it.endOfChunk() == (p >= n), "SrcIterator::endOfChunk (sourceiterator.hpp): the chunk is at its end exactly if all its bytes are consumed");
		switch (vf_pick( 4, ""))
		{
			case 0:
				if (p < n) {vf_note( "++"); ++it; ++p;}
				else if (last && !past) {vf_note( "++"); ++it; past = true;}
				break;
			case 1: {vf_note( "copy"); SrcIterator o( it); unsigned char d = 1; bool h = get( o, d); vf_assert( h == have && (!h || d == c), "SrcIterator (sourceiterator.hpp): a copy is at the same byte"); if (p < n) ++o; it = SrcIterator( it); break;}
			case 2:
				if (p == n && !last && chunk+1 < CHUNKS)
				{
					delete [] s;
					base += n; ++chunk; p = 0;
					n = vf_pick( 4, "chunk:"); last = vf_pick( 2, "last:");
					s = new char[ n]; for (unsigned int i=0; i<n; ++i) s[i] = (char)vf_choose( 256);
					it.putInput( s, n, last?0:&g_eom);
					start = it;
				}
				break;
			case 3:
				delete [] s;
				vf_heap( "SrcIterator (sourceiterator.hpp)");
				return;
		}
	}
}

// -------------------------------------------------------------------- streams
class Input :public IStream
{
public:
	Input() :m_err(0){}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		g_fail = g_end = false; m_err = 0;
		if (n > 64) {vf_assert( false, "IStreamIterator (istreamiterator.hpp): the source is asked for at most the bytes the buffer holds"); return 0;}
		unsigned int room = g_max - g_avail;
		unsigned int m = (n < room) ? n : room;
		unsigned int k = vf_pick( m + 2, "read:");
		if (k == m + 1) {g_fail = true; m_err = 5; return 0;}
		produce( (char*)buf, k);
		if (!k) {g_end = true; g_max = g_avail;}
		return k;
	}
	virtual int errorcode() const {return m_err;}
	int m_err;
};
static unsigned int g_bufsize;
static void stream( IStream& in)
{
	IStreamIterator* it = 0;
	bool ex = false;
	try {it = new IStreamIterator( &in, g_bufsize);} catch (const textwolf::exception& e) {ex = true; vf_assert( e.cause == throws_exception::FileReadError, "IStreamIterator (istreamiterator.hpp): a read failure is raised as such");}
	vf_assert( ex == g_fail, "IStreamIterator (istreamiterator.hpp): construction fails exactly if the first read fails");
	if (ex) {vf_heap( "IStreamIterator (istreamiterator.hpp)"); return;}
	unsigned int p = 0;
	for (;;)
	{
		vf_state( ((g_bufsize*8 + p)*8 + g_avail)*8 + g_max);
		unsigned char c = **it;
		if (p < g_avail) vf_assert( c == g_data[ p], "IStreamIterator::operator* (istreamiterator.hpp)" IT_BYTE);
		else vf_assert( c == 0, "IStreamIterator::operator* (istreamiterator.hpp): at the end of the input or after a failed read a null byte is delivered");
		vf_assert( p < g_avail || g_end || g_fail, "IStreamIterator::operator* (istreamiterator.hpp): the end of the input is not reported before the source is exhausted");
		vf_assert( it->position() == p, "IStreamIterator::position (istreamiterator.hpp): the position is the number of bytes consumed");
		switch (vf_pick( 4, ""))
		{
			case 0:
			{
				vf_note( "++");
				unsigned int before = g_avail; bool one = p < before, err = false;
				g_fail = false;
				try {++*it;} catch (const textwolf::exception& e) {err = true; vf_assert( e.cause == throws_exception::FileReadError, "IStreamIterator::operator++ (istreamiterator.hpp): a read failure is raised as such");}
				vf_assert( err == g_fail, "IStreamIterator::operator++ (istreamiterator.hpp): a failure of the source is raised exactly when it happens");
				if (one) ++p;
				break;
			}
			case 1: {vf_note( "copy"); IStreamIterator o( *it); vf_assert( *o == **it && o.position() == it->position(), "IStreamIterator (istreamiterator.hpp): a copy is at the same byte"); break;}
			case 2: {vf_note( "assign"); IStreamIterator o; vf_assert( *o == 0, "IStreamIterator::operator* (istreamiterator.hpp): the empty source is at its end"); ++o; o = *it; *it = o; break;}
			case 3:
				delete it;
				vf_heap( "IStreamIterator (istreamiterator.hpp)");
				return;
		}
	}
}
#ifndef BYTES
#define BYTES 4
#endif
extern "C" void d_istream( void)
{
	g_max = BYTES; g_bufsize = vf_pick( 3, "bufsize-1:") + 1;
	Input in;
	stream( in);
}
extern "C" void d_std( void)
{
	g_max = BYTES; g_bufsize = vf_pick( 3, "bufsize-1:") + 1;
	std::istream* is = new std::istream( 0);
	{
		StdInputStream in( *is);
		vf_assert( (is->flags() & std::ios::skipws) == 0, "StdInputStream (istreamiterator.hpp): white space is not skipped");
		StdInputStream in2( in);
		if (vf_pick( 2, "copy:")) in.~StdInputStream(), new (&in) StdInputStream( in2);
		unsigned int p = 0;
		for (;;)
		{
			vf_state( ((g_bufsize*8 + p)*8 + g_avail)*8 + g_max);
			char* buf = new char[ g_bufsize];
			unsigned int before = g_avail;
			if (vf_pick( 2, "clear:")) is->clear();
			std::size_t k = in.read( buf, g_bufsize);
			if (g_fail)
			{
				vf_assert( in.errorcode() != 0, "StdInputStream::read (istreamiterator.hpp): a failed read is reported with an error code");
				vf_assert( k == 0, "StdInputStream::read (istreamiterator.hpp): a failed read delivers no bytes");
			}
			else
			{
				vf_assert( in.errorcode() == 0, "StdInputStream::read (istreamiterator.hpp): no error is reported without failure");
				vf_assert( k == g_avail - before, "StdInputStream::read (istreamiterator.hpp): the number of bytes delivered by the stream is reported");
				for (unsigned int i=0; i<k; ++i) vf_assert( (unsigned char)buf[i] == g_data[ before+i], "StdInputStream::read (istreamiterator.hpp): the bytes of the stream are delivered");
			}
			StdInputStream cp( in);
			vf_assert( cp.errorcode() == in.errorcode(), "StdInputStream (istreamiterator.hpp): a copy has the error of the original");
			delete [] buf;
			if (vf_pick( 2, "")) break;
		}
	}
	delete is;
	vf_heap( "StdInputStream (istreamiterator.hpp)");
}
extern "C" void d_both( void)
{
	g_max = BYTES; g_bufsize = vf_pick( 3, "bufsize-1:") + 1;
	std::istream* is = new std::istream( 0);
	StdInputStream* in = new StdInputStream( *is);
	// the end is known when a read has delivered less than asked: later reads find the stream in its end state
	IStreamIterator* it = 0;
	bool ex = false;
	try {it = new IStreamIterator( in, g_bufsize);} catch (const textwolf::exception& e) {ex = true; vf_assert( e.cause == throws_exception::FileReadError, "IStreamIterator (istreamiterator.hpp): a read failure is raised as such");}
	vf_assert( ex == g_fail, "IStreamIterator (istreamiterator.hpp): construction fails exactly if the first read fails");
	if (!ex)
	{
		unsigned int p = 0;
		for (;;)
		{
			vf_state( ((g_bufsize*8 + p)*8 + g_avail)*8 + g_max);
			unsigned char c = **it;
			if (p < g_avail) vf_assert( c == g_data[ p], "IStreamIterator::operator* (istreamiterator.hpp)" IT_BYTE);
			else vf_assert( c == 0, "IStreamIterator::operator* (istreamiterator.hpp)" IT_END);
			vf_assert( p < g_avail || g_end || g_fail, "IStreamIterator::operator* (istreamiterator.hpp): the end of the input is not reported before the stream is at its end");
			if (vf_pick( 4, "") == 3) break;
			vf_note( "++");
			bool one = p < g_avail, err = false;
			if (g_fail && vf_pick( 2, "clear:")) is->clear();
			g_fail = false;
			try {++*it;} catch (const textwolf::exception& e) {err = true; vf_assert( e.cause == throws_exception::FileReadError, "IStreamIterator::operator++ (istreamiterator.hpp): a read failure is raised as such");}
			vf_assert( err == g_fail, "IStreamIterator::operator++ (istreamiterator.hpp): a failure of the stream is raised exactly when it happens");
			if (one) ++p;
		}
		delete it;
	}
	delete in;
	delete is;
	vf_heap( "IStreamIterator (istreamiterator.hpp)");
}
