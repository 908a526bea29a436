// Analysis unit of the fixed size buffer and the tag stack.
#include "vf.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/xmltagstack.hpp"
using namespace textwolf;

static const std::size_t big[4] = {(std::size_t)-1, (std::size_t)-2, ((std::size_t)-1)/2, ((std::size_t)1)<<33};

// ghost of a buffer: what has been appended
struct Ghost
{
	std::size_t cap, n;
	unsigned char ar[4];
	bool ovf;
	void init( std::size_t c)	{cap = c; n = 0; ovf = false;}
	void put( unsigned char ch)	{if (n < cap) ar[ n++] = ch; else ovf = true;}
};

static void agree( const StaticBuffer& b, const Ghost& g)
{
	vf_assert( b.size() == g.n, "StaticBuffer::size (staticbuffer.hpp): the size is the number of characters that fitted");
	vf_assert( b.overflow() == g.ovf, "StaticBuffer::overflow (staticbuffer.hpp): overflow is flagged exactly if something did not fit");
	vf_assert( b.size() <= g.cap, "StaticBuffer::size (staticbuffer.hpp): the size never exceeds the capacity");
	for (std::size_t i=0; i<g.n; ++i)
	{
		vf_assert( (unsigned char)b.ptr()[ i] == g.ar[ i], "StaticBuffer::ptr (staticbuffer.hpp): the characters that fitted are kept in order");
		vf_assert( (unsigned char)b[ i] == g.ar[ i], "StaticBuffer::operator[] (staticbuffer.hpp): element access gives the character at the position");
		vf_assert( (unsigned char)b.at( i) == g.ar[ i], "StaticBuffer::at (staticbuffer.hpp): element access gives the character at the position");
	}
}

static void refuse( const StaticBuffer& b, std::size_t i)
{
	bool ex = false;
	try {(void)b[ i];} catch (const exception& e) {ex = (e.cause == throws_exception::DimOutOfRange);}
	vf_assert( ex, "StaticBuffer::operator[] (staticbuffer.hpp): access behind the last element is refused");
	ex = false;
	try {(void)b.at( i);} catch (const exception& e) {ex = (e.cause == throws_exception::DimOutOfRange);}
	vf_assert( ex, "StaticBuffer::at (staticbuffer.hpp): access behind the last element is refused");
}

static void ops( StaticBuffer& b, Ghost& g)
{
	for (;;)
	{
		vf_state( (g.cap*8 + g.n)*2 + g.ovf);
		switch (vf_pick( 8, ""))
		{
			case 0:
			{
				unsigned char ch = vf_choose( 256);
				vf_note( "push_back"); b.push_back( ch); g.put( ch);
				break;
			}
			case 1:
			{
				unsigned char src[5]; unsigned int n = vf_pick( 6, "append:");
				unsigned int i = 0;
				for (; i<n; ++i) src[i] = vf_choose( 256);
				b.append( (const char*)src, n);
				for (i=0; i<n; ++i) g.put( src[i]);
				break;
			}
			case 2:
				vf_note( "clear"); b.clear(); g.n = 0; g.ovf = false;
				break;
			case 3:
			{
				unsigned int n = vf_pick( 6, "resize:"); unsigned char ch = vf_choose( 256);
				if (n > g.n) while (g.n < n && !(g.n == g.cap)) g.put( ch); else g.n = n;
				if (n > g.cap) g.ovf = true;
				b.resize( n, ch);
				break;
			}
			case 4:
			{
				// a length that does not exist: nothing behind the end of the source may be read before it is compared with the space
				std::size_t n = big[ vf_pick( 4, "resize:big")];
				unsigned char ch = vf_choose( 256);
				while (g.n < g.cap) g.put( ch);
				g.ovf = true;
				b.resize( n, ch);
				break;
			}
			case 5:
			{
				vf_note( "access");
				refuse( b, g.n); refuse( b, g.cap); refuse( b, big[ vf_pick( 4, "")]);
				break;
			}
			case 6:
			{
				if (g.n)
				{
					vf_note( "at=");
					unsigned char ch = vf_choose( 256); unsigned int i = vf_pick( g.n, "");
					b.at( i) = ch; g.ar[ i] = ch;
				}
				break;
			}
			case 7: return;
		}
		agree( b, g);
	}
}

extern "C" void d_own( void)
{
	// memory allocated by the buffer
	Ghost g; g.init( vf_pick( 4, "capacity:"));
	{
		StaticBuffer b( g.cap);
		agree( b, g);
		ops( b, g);
	}
	vf_heap( "StaticBuffer (staticbuffer.hpp)");
}

extern "C" void d_given( void)
{
	// memory given by the caller, with guards around and content at the start
	char mem[ 3]; Ghost g; g.init( vf_pick( 4, "given:"));
	char* p = mem; unsigned int n = vf_pick( 5, "fill:");
	for (unsigned int i=0; i<n; ++i) {unsigned char ch = vf_choose( 256); if (i < g.cap) p[ i] = ch; g.put( ch);}
	char* q = (char*)std::malloc( g.cap + 1);
	std::memcpy( q, p, g.n < g.cap ? g.n : g.cap);
	{
		char* e = (char*)std::realloc( q, g.cap ? g.cap : 1);
		StaticBuffer b( e, g.cap, n);
		agree( b, g);
		ops( b, g);
		q = e;
	}
	std::free( q);
	vf_heap( "StaticBuffer (staticbuffer.hpp)");
}

// an append that is longer than the free space by any amount reads only what fits
extern "C" void d_huge( void)
{
	unsigned int cap = vf_pick( 4, "capacity:"), n = vf_pick( cap+1, "fill:"), i;
	StaticBuffer b( cap);
	for (i=0; i<n; ++i) b.push_back( 'x');
	char* src = (char*)std::malloc( cap-n ? cap-n : 1);
	for (i=0; i<cap-n; ++i) src[i] = 'y';
	switch (vf_pick( 5, "append:big"))
	{
		case 0: b.append( src, (std::size_t)-1); break;
		case 1: b.append( src, (std::size_t)-1 - n); break;
		case 2: b.append( src, (std::size_t)0 - n - 2); break;
		case 3: b.append( src, ((std::size_t)1)<<32); break;
		case 4: b.append( src, cap-n+1); break;
	}
	vf_assert( b.overflow(), "StaticBuffer::append (staticbuffer.hpp): overflow is flagged exactly if something did not fit");
	vf_assert( b.size() == cap, "StaticBuffer::append (staticbuffer.hpp): what fits is appended");
	for (i=0; i<cap; ++i) vf_assert( b[i] == (i<n ? 'x':'y'), "StaticBuffer::append (staticbuffer.hpp): the content before is kept");
	std::free( src);
}

// ---- copies (B01 part: memory released once, M01)
extern "C" void d_copy( void)
{
	vf_oom( vf_pick( 2, "out of memory:"));
	char mem[ 3] = {0,0,0};
	try
	{
		unsigned int cap = vf_pick( 4, "capacity:"), n = vf_pick( 5, "fill:");
		bool given = vf_pick( 2, "given:");
		StaticBuffer a0( cap), a1( mem, cap);
		StaticBuffer& a = given ? a1 : a0;
		Ghost g; g.init( cap);
		for (unsigned int i=0; i<n; ++i) {unsigned char ch = vf_choose( 256); a.push_back( ch); g.put( ch);}
		Ghost h = g;
		unsigned int k = vf_pick( 4, "copy:");
		if (k == 0)
		{
			StaticBuffer b( a);
			agree( b, g);
			b.push_back( 'z'); h.put( 'z');
			if (b.size()) {b.at( 0) = 'w'; h.ar[0] = 'w';}
			agree( b, h);
			agree( a, g);
		}
		else if (k == 1)
		{
			unsigned int c2 = vf_pick( 4, "");
			StaticBuffer b( c2);
			Ghost f; f.init( c2);
			b.push_back( 'q'); f.put( 'q');
			try {b = a;} catch (const std::bad_alloc&) {agree( b, f); throw;}
			agree( b, g);
			b.push_back( 'z'); h.put( 'z');
			if (b.size()) {b.at( 0) = 'w'; h.ar[0] = 'w';}
			agree( b, h);
			agree( a, g);
		}
		else if (k == 2)
		{
			StaticBuffer& self = a;
			a = self;
			agree( a, g);
		}
		else
		{
			StaticBuffer c( 1);
			{
				StaticBuffer b( a);
				c = b;
			}
			agree( c, g);
		}
	}
	catch (const std::bad_alloc&) {}
	vf_oom( 0);
	vf_heap( "StaticBuffer (staticbuffer.hpp)");
}

// ---- tag stack
#ifndef DEPTH
#define DEPTH 3
#endif
struct Tags
{
	unsigned int n;
	unsigned int len[ DEPTH];
	unsigned char ar[ DEPTH][ 3];
};

#if DEPTH > 2
static const unsigned int LEN[] = {0, 1, 8, 300};
#else
static const unsigned int LEN[] = {0, 1, 2, 7, 8, 9, 300, 600};
#endif

static void fill( char* p, unsigned int n, const unsigned char* x)
{
	// first, middle and last byte are abstract
	std::memset( p, 'm', n);
	if (n) {p[0] = x[0]; p[n/2] = x[1]; p[n-1] = x[2];}
}

static void same( TagStack& t, const Tags& g)
{
	const void* p = 0; std::size_t n = 77;
	bool r = t.top( p, n);
	vf_assert( r == (g.n != 0), "TagStack::top (xmltagstack.hpp): there is a tag exactly if more have been pushed than removed");
	vf_assert( t.empty() == (g.n == 0), "TagStack::empty (xmltagstack.hpp): empty exactly if as many have been removed as pushed");
	if (r && g.n)
	{
		vf_assert( n == g.len[ g.n-1], "TagStack::top (xmltagstack.hpp): the length is the one of the last tag pushed");
		char ref[ 600];
		fill( ref, n, g.ar[ g.n-1]);
		const char* c = (const char*)p;
		bool eq = true;
		if (n <= 9) {for (unsigned int i=0; i<n; ++i) vf_assert( c[i] == ref[i], "TagStack::top (xmltagstack.hpp): the bytes are those of the last tag pushed");}
		else
		{
			for (unsigned int i=0; i<n; i+=n/4) vf_assert( c[i] == ref[i], "TagStack::top (xmltagstack.hpp): the bytes are those of the last tag pushed");
			vf_assert( c[n-1] == ref[n-1], "TagStack::top (xmltagstack.hpp): the bytes are those of the last tag pushed");
		}
		(void)eq;
	}
}

static void tagops( TagStack& t, Tags& g, bool oom)
{
	for (;;)
	{
		unsigned long code = g.n;
		for (unsigned int i=0; i<g.n; ++i) code = code * 1000 + g.len[ i];
		vf_state( code);
		switch (vf_pick( 5, ""))
		{
			case 0:
				if (g.n < DEPTH)
				{
					char buf[ 600];
					unsigned int n = LEN[ vf_pick( sizeof(LEN)/sizeof(LEN[0]), "push:")];
					unsigned char* x = g.ar[ g.n];
					x[0] = vf_choose( 256); x[1] = vf_choose( 256); x[2] = vf_choose( 256);
					if (n == 1) x[1] = x[2] = x[0];
					if (n == 2) x[2] = x[1];
					fill( buf, n, x);
					bool done = false;
					if (oom) vf_oom( 1);
					try {t.push( buf, n); done = true;} catch (const std::bad_alloc&) {vf_note( "(out of memory)");}
					vf_oom( 0);
					if (done) {g.len[ g.n] = n; ++g.n;}
					else {x[0] = x[1] = x[2] = 0; vf_assert( oom, "TagStack::push (xmltagstack.hpp): a tag is refused only if there is no memory");}
					std::memset( buf, 'o', n);
				}
				break;
			case 1:
			{
				vf_note( "pop");
				bool ex = false;
				try {t.pop();} catch (const exception& e) {ex = true;}
				vf_assert( ex == (g.n == 0), "TagStack::pop (xmltagstack.hpp): underflow is reported and nothing else");
				if (g.n) {--g.n; g.len[ g.n] = 0; for (unsigned int i=0; i<3; ++i) g.ar[ g.n][ i] = 0;}
				break;
			}
			case 2:
				vf_note( "clear"); t.clear();
				while (g.n) {--g.n; g.len[ g.n] = 0; for (unsigned int i=0; i<3; ++i) g.ar[ g.n][ i] = 0;}
				break;
			case 3:
			{
				vf_note( "push:huge");
				bool ex = false; char x = 'x';
				std::size_t n = big[ vf_pick( 3, "")];
				try {t.push( &x, n);} catch (...) {ex = true;}
				vf_assert( ex, "TagStack::push (xmltagstack.hpp): a length that does not fit in memory is refused");
				break;
			}
			case 4: return;
		}
		same( t, g);
	}
}

static void ginit( Tags& g) {g.n = 0; for (unsigned int i=0; i<DEPTH; ++i) {g.len[i] = 0; g.ar[i][0] = g.ar[i][1] = g.ar[i][2] = 0;}}

extern "C" void d_tags( void)
{
	Tags g; ginit( g);
	{
		TagStack t;
		same( t, g);
		tagops( t, g, true);
	}
	vf_heap( "TagStack (xmltagstack.hpp)");
}

extern "C" void d_tagcopy( void)
{
	vf_oom( vf_pick( 2, "out of memory:"));
	try
	{
		TagStack t; Tags g; ginit( g);
		unsigned int n = vf_pick( 3, "depth:");
		for (; g.n<n; ++g.n)
		{
			g.ar[ g.n][0] = vf_choose( 256); g.ar[ g.n][1] = g.ar[ g.n][2] = vf_choose( 256); g.len[ g.n] = g.n == 1 ? 300 : 2;
			char buf[ 300]; fill( buf, g.len[ g.n], g.ar[ g.n]);
			t.push( buf, g.len[ g.n]);
		}
		unsigned int k = vf_pick( 4, "copy:");
		if (k == 0)
		{
			TagStack b( t); same( b, g); b.push( "x", 1);
			same( t, g);
			b.pop(); same( b, g);
			t.clear(); same( b, g);
			while (g.n) {b.pop(); --g.n; same( b, g);}
		}
		else if (k == 1)
		{
			TagStack b; b.push( "yy", 2); Tags f; ginit( f); f.n = 1; f.len[0] = 2; f.ar[0][0] = f.ar[0][1] = f.ar[0][2] = 'y';
			try {b = t;} catch (const std::bad_alloc&) {same( b, f); throw;}
			same( b, g); b.push( "x", 1);
			same( t, g);
			b.pop(); same( b, g);
			while (g.n) {b.pop(); --g.n; same( b, g);}
		}
		else if (k == 2) {TagStack& self = t; t = self; same( t, g);}
		else
		{
			TagStack c; {TagStack b( t); c = b;} same( c, g); c = t; same( c, g);
		}
	}
	catch (const std::bad_alloc&) {}
	vf_oom( 0);
	vf_heap( "TagStack (xmltagstack.hpp)");
}

// all lengths of a single tag (all positions relative to the size of the memory), then a short one
extern "C" void d_length( void)
{
	unsigned int n = vf_pick( 1100, "push:");
	{
		TagStack t; Tags g; ginit( g);
		char buf[ 1100];
		for (unsigned int k=0; k<2; ++k)
		{
			unsigned int nn = k ? 1 : n;
			g.ar[k][0] = k ? 'z':'a'; g.ar[k][1] = k ? 'z': nn>1 ? 'b':'a'; g.ar[k][2] = k ? 'z': nn>2 ? 'c':g.ar[k][1];
			fill( buf, nn, g.ar[k]);
			t.push( buf, nn);
			g.len[k] = nn; ++g.n;
			if (nn < 600) same( t, g);
		}
		t.pop(); --g.n; if (n < 600) same( t, g);
		t.pop(); --g.n; same( t, g);
	}
	vf_heap( "TagStack (xmltagstack.hpp)");
}

// deep stacks of tags of the same length and alternating lengths
extern "C" void d_deep( void)
{
	unsigned int l1 = vf_pick( 26, "lengths:"), l2 = vf_pick( 2, "") ? l1 : vf_pick( 10, "/"), depth = 70, i;
	{
		TagStack t;
		char buf[ 32];
		for (i=0; i<depth; ++i)
		{
			std::memset( buf, 'A'+i, 32);
			t.push( buf, (i&1) ? l2 : l1);
		}
		for (; i>0; --i)
		{
			const void* p = 0; std::size_t n = 77, l = (i&1) ? l1 : l2;
			std::memset( buf, 'A'+i-1, 32);
			vf_assert( t.top( p, n), "TagStack::top (xmltagstack.hpp): there is a tag exactly if more have been pushed than removed");
			vf_assert( n == l, "TagStack::top (xmltagstack.hpp): the length is the one of the last tag pushed");
			vf_assert( std::memcmp( p, buf, n) == 0, "TagStack::top (xmltagstack.hpp): the bytes are those of the last tag pushed");
			t.pop();
		}
		vf_assert( t.empty(), "TagStack::empty (xmltagstack.hpp): empty exactly if as many have been removed as pushed");
	}
	vf_heap( "TagStack (xmltagstack.hpp)");
}
