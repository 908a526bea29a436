// The whole library: every class, every template instantiated with every character set and every byte source and buffer.
#include "prelude.hpp"
#include "textwolf.hpp"
#include "textwolf/ostreamoutput.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmlhdrparser.hpp"
using namespace textwolf;
#define X_SETS(X) X(charset::UTF8) X(charset::UTF16LE) X(charset::UTF16BE) X(charset::UCS2LE) X(charset::UCS2BE) X(charset::UCS4LE) X(charset::UCS4BE) X(charset::IsoLatin)
template <class C> static void all_atm( XMLPathSelectAutomaton<C>& a, const char* s, int i)
{
	typedef XMLPathSelectAutomaton<C> A; typedef XMLPathSelect<C> S;
	A c( a), d; d = c; d.tostring(); A::operationName( (typename A::Operation)i);
	std::vector<int> v; d.getEmmitedTokens( i, (XMLScannerBase::ElementType)i, v);
	(*d)[ s]( s)( s, s).selectTag( s).selectAttribute( s).ifAttribute( s, s).selectCloseTag().forAllDescendants().TO( i).FROM( i).RANGE( i, i).INDEX( i).selectContent().assignType( i);
	((*d)--)[ s]() = i;
	typename A::Mask m; m.seekop( (typename A::Operation)i); m.seekopName(); m.join( m); m.matches( (XMLScannerBase::ElementType)i); m.rejects( (XMLScannerBase::ElementType)i); m.empty(); m.reset();
	typename A::State st, st2( st); st2 = st; st2.tostring();
	S x( &d), y( x);
	typename S::iterator it = y.push( (XMLScannerBase::ElementType)i, s, i), jt( it), e; e = y.end(); it = jt; it++; ++it; *it; it == e; it != e;
	y.push( (XMLScannerBase::ElementType)i, std::string( s));
	y.getTokenTypeMatchingStates( (XMLScannerBase::ElementType)i, true, v);
}
template <class C, class D> static void all_par( const char* s, int i, std::size_t n) {XMLPathSelectAutomatonParser<C,D> p; p.addExpression( i, s, n); XMLPathSelectAutomatonParser<C,D> q( p); q = p;}
#define X_CS(C) void all_use( C* p, XMLPathSelectAutomaton<C>& a, const char* s, int i, std::size_t n) {all_atm( a, s, i); all_par<C,C>( s, i, n); all_par<C,charset::UTF8>( s, i, n); all_par<charset::UTF8,C>( s, i, n);}
X_SETS(X_CS)
template <class T> struct Fresh {static T make() {return T();}};
template <> struct Fresh<StaticBuffer> {static StaticBuffer make() {return StaticBuffer( 8);}};
template <class I, class C, class O, class B> static void all_scan( I& src, int i)
{
	typedef XMLScanner<I,C,O,B> S; typename S::EntityMap em; C cs;
	S a( src, em), b( src), c( cs, src, em), d( cs, src), e( cs), f; S g( f); f = g;
	a.setSource( src); a.getPosition(); a.getTokenPosition(); a.getItemPtr(); a.getItemSize(); a.getItem(); a.getState(); const char* x; a.getError( &x); a.getIterator(); ((const S&)a).getIterator(); a.nextItem( i);
	typename S::iterator it = a.begin( true), jt( it), kt; kt = a.end(); it++; ++it; it->name(); it->content(); it->size(); it->type(); it->error(); it->valid(); kt = jt; it == kt; it != kt;
}
template <class I, class C, class O, class B> static void all_text( I& src, O& out, B& buf)
{
	typedef TextScanner<I,C> T; C cs; T a( cs), b( cs, src), c( src), d( a); d = a; a.setSource( src); a.getPosition(); a.chr(); a.getIterator(); ((const T&)a).getIterator(); a.copychar( out, buf); a.control(); a.ascii(); a.skip(); *a; ++a;
}
template <class C, class A, class B> static void all_print( B& buf, const char* s, std::size_t n)
{
	typedef XMLPrinter<C,A,B> P; C cs; P a, b( true), c( cs, true), d( a); a = b; a.reset(); a.printHeader( s, s, buf); a.printDoctype( s, s, s, buf); a.exitTagContext( buf); a.printOpenTag( s, n, buf); a.printAttribute( s, n, buf); a.printValue( s, n, buf); a.printCloseTag( buf);
	a.state(); a.lasterror(); a.printToBuffer( s, n, buf); a.printAscii( s, buf); a.printToBufferAttributeValue( s, n, buf); a.printToBufferContent( s, n, buf); a.printToBuffer( *s, buf);
}
#ifdef FEW
#define X_SRC(C) void all_use( C* p, SrcIterator& i1, std::string& b1, const char* s, std::size_t n) {all_scan<SrcIterator,C,charset::UTF8,std::string>( i1, n); C o; all_text<SrcIterator,C>( i1, o, b1); all_print<C,charset::UTF8>( b1, s, n);}
#else
#define X_SRC(C) void all_use( C* p, SrcIterator& i1, char*& i2, IStreamIterator& i3, CStringIterator& i4, std::string& b1, StaticBuffer& b2, OstreamOutput& b3, const char* s, std::size_t n) \
{\
	C o;\
	all_scan<SrcIterator,C,charset::UTF8,std::string>( i1, n); all_scan<char*,C,C,std::string>( i2, n); all_scan<IStreamIterator,C,charset::IsoLatin,std::string>( i3, n); all_scan<CStringIterator,C,charset::UTF16BE,std::string>( i4, n);\
	all_text<SrcIterator,C>( i1, o, b1); all_text<char*,C>( i2, o, b2); all_text<IStreamIterator,C>( i3, o, b3); all_text<CStringIterator,C>( i4, o, b1);\
	all_print<C,C>( b1, s, n); all_print<C,charset::UTF8>( b2, s, n); all_print<charset::UTF8,C>( b3, s, n);\
}
#endif
X_SETS(X_SRC)
void all_hdr( XmlHdrParser& h, const char* s, std::size_t n) {XmlHdrParser c( h); c.putInput( s, n); c.consumedData(); c.parse(); c.lasterror(); c.encoding(); c.charsConsumed(); c.clear();}
void all_buffer( StaticBuffer& b, const char* s, std::size_t n) {StaticBuffer c( b), d( n); c = d; c.clear(); c.push_back( *s); c.append( s, n); c.ptr(); c.size(); c.resize( n, *s); c.at( n); c[ n]; ((const StaticBuffer&)c)[ n]; ((const StaticBuffer&)c).at( n); c.overflow(); StaticBuffer e( (char*)s, n, n);}
void all_stack( TagStack& b, const char* s, std::size_t n) {TagStack c( b); const void* e; std::size_t k; c = b; c.push( s, n); c.top( e, k); c.pop(); c.clear(); c.empty();}
void all_src( SrcIterator& b, const char* s, std::size_t n, jmp_buf* j) {SrcIterator c( b), d( s, n, j); c = d; *c; ++c; c - d; c.putInput( s, n, j); c.getPosition(); c.position(); c.endOfChunk();}
void all_cstr( CStringIterator& b, const char* s, std::size_t n) {CStringIterator c( b), d( s, n), e( s), f( (std::string( s))); c = d; *c; ++c; c - d; c.pos(); c.pos( n);}
void all_istr( IStreamIterator& b, std::istream& i, std::size_t n) {StdInputStream in( i), in2( in); IStreamIterator c( b), d( &in, n); c = d; *c; ++c; c - d; c.position(); in2.read( 0, n); in2.errorcode();}
void all_ostr( std::ostream& o, const char* s, std::size_t n) {OstreamOutput a( &o), b( a); b.push_back( *s); b.append( s, n);}
void all_exc( exception& e) {exception f( e); f = e; f.what(); throw f;}
void all_names( int i) {XMLScannerBase::getElementTypeName( (XMLScannerBase::ElementType)i); XMLScannerBase::getErrorString( (XMLScannerBase::Error)i); XMLScannerBase::getStateString( (XMLScannerBase::STMState)i); XMLScannerBase::getActionString( (XMLScannerBase::STMAction)i); ControlCharacterM::name( (ControlCharacter)i);}
