// Analysis unit of the path selection: all token sequences of documents with bounded nesting, over a choice of sets of paths,
// against a reference that keeps for every open tag what has been matched there.
#include "vf.hpp"
#include <cstring>
#include <string>
#include "textwolf.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
using namespace textwolf;
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef ATTRS
#define ATTRS 1
#endif
#ifndef COPY
#define COPY 0
#endif
#ifndef ITER
#define ITER 0
#endif
#ifndef UNBAL
#define UNBAL 0
#endif
#ifndef HEADER
#define HEADER 0
#endif
#ifndef SETS
#define SETS 12
#endif
#ifndef TEXTS
#define TEXTS 3
#endif
#ifndef FIRST
#define FIRST 0
#endif
#ifndef WHAT
#define WHAT "the results of a token are the ones of the paths defined"
#endif
#define AT "XMLPathSelect (xmlpathselect.hpp): "
typedef XMLPathSelectAutomaton<charset::UTF8> Automaton;
typedef XMLPathSelect<charset::UTF8> Select;
typedef XMLScannerBase X;
// (of the C library)
extern "C" int atoi( const char* s) throw()
{
	int r = 0; bool neg = false;
	while (*s == ' ') ++s;
	if (*s == '-' || *s == '+') neg = *s++ == '-';
	for (; *s >= '0' && *s <= '9'; ++s) r = r * 10 + (*s - '0');
	return neg ? -r : r;
}

// ---------------------------------------------------------------- paths
enum Op {Tag, Close, Attr, Value, Text, Event};
struct Step {Op op; const char* key; bool follow; int lo, hi;};
struct Path
{
	Step step[ 6]; unsigned int n; int lo, hi, type;
	Path() :n(0),lo(0),hi(-1),type(0){}
};
// the same path for the automaton and for the reference
struct Def
{
	Automaton::PathElement e; Path p; bool follow; Op out;
	Def( Automaton* a) :e(**a),follow(false),out(Event){}
	void step( Op op, const char* key)	{Step s; s.op = op; s.key = key; s.follow = follow; s.lo = 0; s.hi = -1; p.step[ p.n++] = s; follow = false;}
	Def& all()				{e.forAllDescendants(); follow = true; return *this;}
	Def& tag( const char* n)		{e.selectTag( n); step( Tag, n); return *this;}
	Def& attr( const char* n)		{e.selectAttribute( n); step( Attr, n); out = Value; return *this;}
	Def& has( const char* n, const char* v)	{e.ifAttribute( n, v); step( Attr, n); step( Value, v); return *this;}
	Def& close()				{e.selectCloseTag(); step( Close, 0); return *this;}
	Def& text()				{e.selectContent(); out = Text; return *this;}
	void bound( int lo, int hi)		{if (lo > p.lo) p.lo = lo; if (hi >= 0 && (p.hi < 0 || hi < p.hi)) p.hi = hi;}
	Def& index( int i)			{e.INDEX( i); bound( i, i+1); return *this;}
	Def& indexTag( int i)			{e.INDEX( i); p.step[ p.n-1].lo = i; p.step[ p.n-1].hi = i+1; return *this;}
	Def& from( int i)			{e.FROM( i); bound( i, -1); return *this;}
	Def& to( int i)				{e.TO( i); bound( 0, i+1); return *this;}
	Def& range( int i, int j)		{e.RANGE( i, j); bound( i, j+1); return *this;}
	Path is( int type)			{e.assignType( type); p.type = type; step( out, 0); return p;}
};
#define D Def( a)
static unsigned int paths( unsigned int set, Automaton* a, Path* p)
{
	unsigned int n = 0;
	switch (set)
	{
		case 0: p[n++] = D.tag( "a").text().is( 1); break;
		case 1: p[n++] = D.all().tag( "a").text().is( 1); break;
		case 2: p[n++] = D.tag( "a").tag( "b").text().is( 1); p[n++] = D.tag( "a").text().is( 2); break;
		case 3: p[n++] = D.all().attr( "x").is( 1); p[n++] = D.all().text().is( 2); break;
		case 4: p[n++] = D.tag( "a").attr( "x").is( 1); p[n++] = D.tag( "a").tag( "b").attr( "x").is( 2); break;
		case 5: p[n++] = D.tag( "a").has( "x", "v").text().is( 1); break;
		case 6: p[n++] = D.tag( "a").has( "x", "v").tag( "b").text().is( 1); p[n++] = D.tag( "a").tag( "b").text().is( 2); break;
		case 7: p[n++] = D.all().tag( "b").all().tag( "b").text().is( 1); break;
		case 8: p[n++] = D.tag( "a").tag( 0).text().is( 1); p[n++] = D.all().attr( 0).is( 2); break;
		case 9: p[n++] = D.tag( "a").close().is( 1); p[n++] = D.tag( "a").all().close().is( 2); break;
		case 10: p[n++] = D.tag( "a").is( 1); p[n++] = D.all().tag( "b").is( 2); break;
		case 16: p[n++] = D.all().has( "x", 0).is( 1); p[n++] = D.tag( "b").is( 2); break;
		case 11: p[n++] = D.tag( "ab").text().is( 1); p[n++] = D.tag( "a").text().is( 2); p[n++] = D.tag( "a").all().tag( "ab").close().is( 3); break;
		case 12: p[n++] = D.tag( "a").all().tag( "b").attr( "x").is( 1); p[n++] = D.tag( "a").tag( "b").attr( "x").is( 2); break;
		case 13: p[n++] = D.all().tag( "a").tag( "b").text().is( 1); p[n++] = D.all().tag( "a").all().tag( "b").text().is( 2); p[n++] = D.all().tag( "b").text().is( 3); break;
		case 14: p[n++] = D.tag( "a").has( "x", "v").all().text().is( 1); break;
		case 15: p[n++] = D.tag( "a").all().attr( "x").is( 1); p[n++] = D.tag( "a").text().is( 2); break;
		case 17: p[n++] = D.tag( "a").all().tag( "b").text().to( 1).is( 1); p[n++] = D.all().attr( "x").is( 2); break;
		// ranges
		case 20: p[n++] = D.tag( "a").text().index( 1).is( 1); break;
		case 21: p[n++] = D.tag( "a").text().index( 0).is( 1); p[n++] = D.tag( "a").text().from( 1).is( 2); break;
		case 22: p[n++] = D.all().tag( "a").text().range( 1, 2).is( 1); p[n++] = D.tag( "a").text().to( 1).is( 2); break;
		case 23: p[n++] = D.all().text().from( 2).is( 1); p[n++] = D.tag( "a").all().text().to( 0).is( 2); break;
		case 24: p[n++] = D.tag( "a").attr( 0).index( 1).is( 1); p[n++] = D.tag( "a").attr( "x").to( 0).is( 2); break;
		case 25: p[n++] = D.tag( "a").text().from( 1).to( 1).is( 1); p[n++] = D.tag( "a").text().to( 2).from( 1).range( 0, 1).is( 2); break;
		case 26: p[n++] = D.tag( "a").text().range( 2, 1).is( 1); p[n++] = D.tag( "a").text().index( 0).index( 1).is( 2); p[n++] = D.tag( "a").text().from( 0).is( 3); break;
		case 27: p[n++] = D.all().tag( "a").all().text().index( 1).is( 1); break;
		case 30: p[n++] = D.tag( "a").indexTag( 1).is( 1); break;
		case 31: p[n++] = D.tag( "a").indexTag( 0).tag( "b").text().is( 1); break;
	}
	return n;
}
#undef D

// ---------------------------------------------------------------- reference
struct Key {char c[ 3]; unsigned int n;};
struct Act
{
	unsigned char path, step, n;
	Act() :path(0),step(0),n(0){}
};
struct Ref
{
	enum {MAXA=12, TYPES=4};
	Path p[ 4]; unsigned int np;
	Act act[ DEPTH+2][ MAXA]; unsigned int nact[ DEPTH+2];
	unsigned int level;
	unsigned int want[ TYPES];
	Ref() :np(0),level(0) {for (unsigned int i=0; i<DEPTH+2; ++i) nact[i] = 0; for (unsigned int i=0; i<TYPES; ++i) want[i] = 0;}
	void start()	{for (unsigned int i=0; i<np; ++i) {Act a; a.path = i; add( 0, a);}}
	void add( unsigned int l, const Act& a)
	{
		vf_assert( nact[ l] < MAXA, "reference: number of matches is in the bounds of the analysis");
		act[ l][ nact[ l]++] = a;
	}
	static bool accepts( Op op, X::ElementType t)
	{
		switch (op)
		{
			case Tag: return t == X::OpenTag || t == X::HeaderStart;
			case Close: return t == X::CloseTag || t == X::CloseTagIm || t == X::HeaderEnd;
			case Attr: return t == X::TagAttribName || t == X::HeaderAttribName;
			case Value: return t == X::TagAttribValue || t == X::HeaderAttribValue;
			case Text: return t == X::Content;
			default: return false;
		}
	}
	static bool equal( const char* n, const Key& k)
	{
		if (!n) return true;
		unsigned int i = 0;
		for (; n[i]; ++i) if (i >= k.n || n[i] != k.c[i]) return false;
		return i == k.n;
	}
	void event( X::ElementType t, const Key& k)
	{
		Act found[ MAXA]; unsigned int nf = 0;
		for (unsigned int i=0; i<TYPES; ++i) want[i] = 0;
		for (unsigned int l=0; l<=level; ++l)
		{
			for (unsigned int i=0; i<nact[l]; ++i)
			{
				Act& a = act[l][i];
				const Path& q = p[ a.path];
				const Step& s = q.step[ a.step];
				if (l != level && !s.follow) continue;
				if (!accepts( s.op, t) || !equal( s.key, k)) continue;
				if (a.step + 1u == q.n)
				{
					if ((int)a.n >= q.lo && (q.hi < 0 || (int)a.n < q.hi)) ++want[ q.type];
					if ((int)a.n < q.lo || (int)a.n < q.hi) ++a.n;
				}
				else if (s.hi >= 0 && ((int)a.n < s.lo || (int)a.n >= s.hi)) {if ((int)a.n < s.hi) ++a.n;}
				else if (s.hi >= 0 && ++a.n == 0) {}
				else if (q.step[ a.step+1].op == Event) ++want[ q.type];
				else
				{
					vf_assert( nf < MAXA, "reference: number of matches is in the bounds of the analysis");
					found[ nf] = a; ++found[ nf].step; found[ nf].n = 0; ++nf;
				}
			}
		}
		// the value of an attribute follows immediately
		unsigned int j = 0;
		for (unsigned int i=0; i<nact[ level]; ++i) if (p[ act[ level][ i].path].step[ act[ level][i].step].op != Value) act[ level][ j++] = act[ level][ i];
		for (unsigned int i=j; i<nact[ level]; ++i) act[ level][ i] = Act();
		nact[ level] = j;
		if (t == X::OpenTag) ++level;
		if (t == X::CloseTag || t == X::CloseTagIm)
		{
			if (level)
			{
				for (unsigned int i=0; i<nact[ level]; ++i) act[ level][ i] = Act();
				nact[ level] = 0;
				--level;
			}
			return;
		}
		for (unsigned int i=0; i<nf; ++i) add( level, found[ i]);
	}
};

// ---------------------------------------------------------------- driver
// the number of the element only serves to tell apart the elements of iterators alive: there are none at the merge points
template <unsigned int N> struct Has {};
template <class S> static void renumber( S& s, Has<sizeof(s.elemcnt)>*)	{s.elemcnt = 1;}
template <class S> static void renumber( S&, ...)				{}

struct Run
{
	Automaton* a; Select* s; Ref ref;
	unsigned int phase, nattr;
	Select::iterator* kept;			// iterator on the results of the element before
	bool keep, lens, count; unsigned int ntext;
	Run() :a(0),s(0),phase(0),nattr(0),kept(0),keep(false),lens(false),count(false),ntext(0){}

	void name( Key& k, const char* what)
	{
		k.n = lens ? vf_pick( 2, what) + 1 : 1;
		for (unsigned int i=0; i<3; ++i) k.c[i] = 0;
		for (unsigned int i=0; i<k.n; ++i) k.c[i] = (char)vf_choose( 256);
	}
	void feed( X::ElementType t, const Key& k)
	{
		unsigned int got[ Ref::TYPES];
		for (unsigned int i=0; i<Ref::TYPES; ++i) got[i] = 0;
#if COPY
		{Select* c = new Select( *s); delete s; s = c;}
#endif
		ref.event( t, k);
#define COUNT( x) {int v = (x); vf_assert( v > 0 && v < Ref::TYPES, AT "only types that have been defined are delivered"); ++got[ v];}
		unsigned int style = 0;
#if ITER
		style = vf_pick( 6, "iteration");
		switch (style)
		{
			case 1:
			{
				Select::iterator i = s->push( t, k.c, k.n), e = s->end();
				while (i != e) {COUNT( *i++);}
				break;
			}
			case 2:	// copies made and destroyed in between
			{
				Select::iterator i = s->push( t, k.c, k.n), e = s->end();
				while (i != e) {COUNT( *i); {Select::iterator c( i); Select::iterator d; d = c; d = d;} ++i;}
				break;
			}
			case 3:	// iterated with a copy that outlives the original
			{
				Select::iterator* i = new Select::iterator( s->push( t, k.c, k.n));
				Select::iterator c( *i), e = s->end();
				delete i;
				for (; c != e; ++c) {COUNT( *c);}
				break;
			}
			case 4:	// assigned
			{
				Select::iterator i, e = s->end();
				i = s->push( t, k.c, k.n);
				for (; !(i == e); ++i) {COUNT( *i.operator->());}
				i = e;
				break;
			}
			case 5: // kept while the next element is processed
			{
				Select::iterator i = s->push( t, k.c, k.n), e = s->end();
				for (; i != e; ++i) {COUNT( *i);}
				if (!kept && keep) kept = new Select::iterator( i);
				break;
			}
		}
#endif
		if (style == 0)
		{
			Select::iterator i = s->push( t, k.c, k.n), e = s->end();
			for (; i != e; ++i) {COUNT( *i);}
		}
		for (unsigned int i=1; i<Ref::TYPES; ++i) vf_assert( got[i] == ref.want[i], AT WHAT);
	}
	void attribute( bool header)
	{
		Key n, v; name( n, "@"); name( v, "=");
		feed( header ? X::HeaderAttribName : X::TagAttribName, n);
		feed( header ? X::HeaderAttribValue : X::TagAttribValue, v);
	}
	bool next()
	{
		Key k; k.n = 0; k.c[0] = k.c[1] = k.c[2] = 0;
		// phase 0: before the document, 1: in the header, 2: in content, 3: in a tag
		switch (vf_pick( 6 + HEADER, "token"))
		{
			case 0: if (ref.level >= DEPTH) return true; vf_note( "<"); name( k, "len"); feed( X::OpenTag, k); phase = 3; nattr = 0; break;
			case 1: if (phase != 3 || nattr >= ATTRS) return true; vf_note( "attribute"); attribute( false); ++nattr; break;
			case 2: if (phase != 3) return true; vf_note( "/>"); feed( X::CloseTagIm, k); phase = 2; break;
			case 3: if (!ref.level && !UNBAL) return true; vf_note( "</"); name( k, "len"); feed( X::CloseTag, k); phase = 2; nattr = 0; break;
			case 4: if (!ref.level || ntext >= 4) return true; if (count) ++ntext; vf_note( "text"); name( k, "len"); feed( X::Content, k); phase = 2; nattr = 0; break;
			case 5: return false;
			case 6:
				vf_note( "header");
				if (phase == 0) {k.c[0] = '?'; k.c[1] = 'q'; k.n = 2; feed( X::HeaderStart, k); phase = 1;}
				else if (phase == 1)
				{
					if (nattr < ATTRS && vf_pick( 2, "end") == 0) {attribute( true); ++nattr;}
					else {feed( X::HeaderEnd, k); phase = 2; nattr = 0;}
				}
				break;
		}
		return true;
	}
};

extern "C" void d_scopes( void)
{
	Run r;
	r.a = new Automaton();
	unsigned int set = FIRST + vf_pick( SETS, "set");
	r.lens = set == 11;
	r.count = set == 21 || set == 23 || set == 25 || set == 26;	// a range without end is counted down from the biggest number
	r.ref.np = paths( set, r.a, r.ref.p);
	r.s = new Select( r.a);
	r.ref.start();
	for (;;)
	{
		renumber( *r.s, 0);
		vf_state( 1);
		r.keep = ITER;
		bool more = r.next();
		r.keep = false;
		if (r.kept)
		{
			// the iterator of the element before is released while the next one is processed
			more = r.next();
			delete r.kept; r.kept = 0;
		}
		if (!more) break;
	}
	delete r.s;
	delete r.a;
	vf_heap( AT "all memory of automaton and selector is released");
}

// ---------------------------------------------------------------- growing automatons
// any order of definitions, the tables grow over several reallocations; every result is compared with the reference
extern "C" void d_build( void)
{
	Automaton* a = new Automaton();
	Path* p = new Path[ 24]; unsigned int n = 0;
	unsigned int order = vf_pick( 4, "order");
	static const unsigned int sets[4][4] = {{0, 2, 4, 8}, {13, 9, 1, 5}, {8, 7, 6, 3}, {10, 11, 12, 15}};
	for (unsigned int i=0; i<4; ++i) n += paths( sets[ order][ i], a, p + n);
	std::vector<int> em;
	for (unsigned int i=0; i<a->states.size(); ++i)
	{
		const Automaton::State& st = a->states[ i];
		vf_assert( st.next >= -1 && st.next < (int)a->states.size() && st.link >= -1 && st.link < (int)a->states.size(), "XMLPathSelectAutomaton (xmlpathautomaton.hpp): state indices are in range");
		a->getEmmitedTokens( i, X::Content, em);
	}
	Select* s = new Select( a);
	Key k; k.n = 1; k.c[0] = 'a'; k.c[1] = k.c[2] = 0;
	static const struct {X::ElementType t; const char* k;} doc[] = {{X::OpenTag, "a"}, {X::TagAttribName, "x"}, {X::TagAttribValue, "v"}, {X::Content, "t"}, {X::OpenTag, "b"}, {X::TagAttribName, "x"}, {X::TagAttribValue, "w"},
		{X::OpenTag, "b"}, {X::Content, "u"}, {X::CloseTag, "b"}, {X::OpenTag, "ab"}, {X::Content, "u"}, {X::CloseTag, "ab"}, {X::CloseTag, "b"}, {X::CloseTag, "a"}, {X::OpenTag, "a"}, {X::CloseTagIm, ""}};
	std::vector<unsigned int> next;
	for (unsigned int i=0; i<sizeof(doc)/sizeof(*doc); ++i)
	{
		Select::iterator r = s->push( doc[i].t, doc[i].k, std::strlen( doc[i].k)), e = s->end();
		for (; r != e; ++r) {}
		s->getTokenTypeMatchingStates( X::Content, true, next);
		for (unsigned int j=0; j<next.size(); ++j) vf_assert( next[j] < a->states.size(), "XMLPathSelect (xmlpathselect.hpp): state indices are in range");
		next.clear();
	}
	delete s; delete a; delete [] p;
	{std::vector<int> x; em.swap( x);} {std::vector<unsigned int> x; next.swap( x);}
	vf_heap( "XMLPathSelectAutomaton (xmlpathautomaton.hpp): all memory of automaton and selector is released");
}
// expressions with alternatives
extern "C" void d_list( void)
{
	typedef XMLPathSelectAutomatonParser<> Parser;
	static const char* const src[] = {"/{a,b,cd}/{e,f}@{x,y}", "//{a,b,c,d,e}[@x='v']/{f}()", "/a[@x=\"vw\"][1,2]/b//c@*", "/{a,b}[1,]~", "{a,b,c}{d", "/{a,}", "//*/{aa,bb}[3]@id", "@{a,b,c,d,e,f,g,h,i}"};
	Parser* p = new Parser();
	unsigned int o = vf_pick( 8, "expression");
	for (unsigned int i=0; i<3; ++i)
	{
		const char* e = src[ (o + i*3) % 8];
		(void)p->addExpression( i + 1, e, std::strlen( e));
	}
	for (unsigned int i=0; i<p->states.size(); ++i)
		vf_assert( p->states[i].next < (int)p->states.size() && p->states[i].link < (int)p->states.size(), "XMLPathSelectAutomaton (xmlpathautomaton.hpp): state indices are in range");
	delete p;
	vf_heap( "XMLPathSelectAutomatonParser (xmlpathautomatonparse.hpp): all memory of the automaton is released");
}

// ---------------------------------------------------------------- masks of operations
#define MAT "XMLPathSelectAutomaton::Mask (xmlpathautomaton.hpp): "
typedef Automaton::Mask Mask;
static const X::ElementType TYPE[] = {X::None, X::ErrorOccurred, X::HeaderStart, X::HeaderAttribName, X::HeaderAttribValue, X::HeaderEnd, X::DocAttribValue, X::DocAttribEnd, X::TagAttribName, X::TagAttribValue, X::OpenTag, X::CloseTag, X::CloseTagIm, X::Content, X::Exit};
enum {TYPES=15};
static bool accepted( Automaton::Operation op, X::ElementType t)
{
	switch (op)
	{
		case Automaton::Content: return t == X::Content;
		case Automaton::OpenTag: return t == X::OpenTag || t == X::HeaderStart;
		case Automaton::CloseTag: return t == X::CloseTag || t == X::CloseTagIm || t == X::HeaderEnd;
		case Automaton::Attribute: return t == X::TagAttribName || t == X::HeaderAttribName;
		case Automaton::ThisAttributeValue: case Automaton::AttributeValue: return t == X::TagAttribValue || t == X::HeaderAttribValue;
		case Automaton::ContentStart: return t == X::HeaderEnd;
	}
	return false;
}
static bool rejected( Automaton::Operation op, X::ElementType t)
{
	switch (op)
	{
		case Automaton::Attribute: case Automaton::AttributeValue: return t == X::Content;
		case Automaton::ThisAttributeValue: return t == X::TagAttribName || t == X::HeaderAttribName || t == X::Content || t == X::OpenTag;
		default: return false;
	}
}
#define EACH for (unsigned int k=0; k<TYPES; ++k)
#define SAME( m, p, n, w) EACH {vf_assert( m.matches( TYPE[k]) == (((p) >> TYPE[k] & 1) != 0) && m.hasMatch( TYPE[k]) == m.matches( TYPE[k]), MAT w); vf_assert( m.rejects( TYPE[k]) == (((n) >> TYPE[k] & 1) != 0) && m.hasReject( TYPE[k]) == m.rejects( TYPE[k]), MAT w);}
extern "C" void d_ops( void)
{
	Automaton::Operation op = (Automaton::Operation)vf_pick( 7, "operation");
	Mask m; m.seekop( op);
	EACH
	{
		vf_assert( m.matches( TYPE[k]) == accepted( op, TYPE[k]), MAT "an operation accepts the token types of its definition");
		vf_assert( m.rejects( TYPE[k]) == rejected( op, TYPE[k]), MAT "an operation rejects the token types of its definition");
	}
	const char* name = m.seekopName();
	if (op != Automaton::ContentStart) vf_assert( !std::strcmp( name, Automaton::operationName( op)), MAT "the name of a mask is the one of the operation");
	// joined with another operation
	Automaton::Operation op2 = (Automaton::Operation)vf_pick( 7, "and");
	Mask n( m); n.seekop( op2);
	Mask j( m), o; o.seekop( op2); j.join( o);
	EACH
	{
		vf_assert( n.matches( TYPE[k]) == (accepted( op, TYPE[k]) || accepted( op2, TYPE[k])) && n.rejects( TYPE[k]) == (rejected( op, TYPE[k]) || rejected( op2, TYPE[k])), MAT "operations add what they accept and reject");
		vf_assert( j.matches( TYPE[k]) == n.matches( TYPE[k]) && j.rejects( TYPE[k]) == n.rejects( TYPE[k]), MAT "joined masks accept and reject what one of them does");
	}
	vf_assert( (n == j) && (j == n), MAT "masks are equal if they accept and reject the same");
	vf_assert( (m == o) == (op == op2), MAT "masks are equal if they accept and reject the same");
	vf_assert( !m.empty() && !j.empty(), MAT "a mask of an operation is not empty");
	m.reset();
	vf_assert( m.empty(), MAT "a mask is empty after it has been reset");
	EACH {vf_assert( !m.matches( TYPE[k]) && !m.rejects( TYPE[k]), MAT "a mask is empty after it has been reset");}
}
extern "C" void d_masks( void)
{
	// one bit of each mask is of interest: all others are any
	unsigned int b = vf_pick( TYPES, "type");
	unsigned short p = (unsigned short)(1u << TYPE[b]) * vf_choose( 2), n = (unsigned short)(1u << TYPE[b]) * vf_choose( 2);
	unsigned short rest = vf_choose( 2) ? 0xFFFF : 0; rest &= ~(1u << TYPE[b]);
	p |= rest; n |= rest;
	Mask m( p, n);
	vf_assert( Mask( p, n).empty() == (p == 0), MAT "a mask is empty if it accepts nothing");
	SAME( m, p, n, "a mask accepts and rejects the types it has been made of")
	unsigned int e = vf_pick( TYPES, "with");
	{Mask x( m); x.match( TYPE[e]); SAME( x, p | 1u << TYPE[e], n, "a type accepted is added and nothing else is changed")}
	{Mask x( m); x.reject( TYPE[e]); SAME( x, p, n | 1u << TYPE[e], "a type rejected is added and nothing else is changed")}
	unsigned short p2 = (unsigned short)(1u << TYPE[b]) * vf_choose( 2), n2 = (unsigned short)(1u << TYPE[e]) * vf_choose( 2);
	{Mask x( m); x.join( Mask( p2, n2)); SAME( x, p | p2, n | n2, "joined masks accept and reject what one of them does")}
	{Mask x( m), y( p2, n2); vf_assert( (x == y) == (p == p2 && n == n2), MAT "masks are equal if they accept and reject the same");}
}

extern "C" void d_warm( void)
{
	Automaton a;
	Automaton::PathElement( &a).selectTag( "a").ifAttribute( "b", "c").assignType( 1);
	XMLPathSelectAutomatonParser<> p;
	(void)p.addExpression( 1, "/{a,b}[@x='y'][1,2]@c", 21);
}
