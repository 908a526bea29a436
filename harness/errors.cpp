// Analysis unit of errors in the definition of automatons, and of the ownership of memory of automatons.
#define DEPTH 1
#include "select.cpp"
#define ERR "XMLPathSelectAutomaton (xmlpathautomaton.hpp): "

typedef XMLPathSelectAutomatonParser<> Parser;
static char longname[ 1100];
static const char* name_of_length( unsigned int n)
{
	for (unsigned int i=0; i<n; ++i) longname[ i] = 'n';
	longname[ n] = 0;
	return longname;
}
// one definition of the type 9; returns the cause of its failure, -1 for none, -2 for an exception that is not one of textwolf
static int define( Automaton* a, unsigned int how, const char* name, const char* value)
{
	try
	{
		Automaton::PathElement e( a);
		switch (how)
		{
			case 0: e[ name].selectContent() = 9; break;
			case 1: e.selectTag( "a").selectTag( name).selectContent().assignType( 9); break;
			case 2: e.forAllDescendants().selectAttribute( name).assignType( 9); break;
			case 3: e[ "a"]( name) = 9; break;
			case 4: e.selectTag( "a").ifAttribute( name, value).selectTag( "b").selectContent().assignType( 9); break;
			case 5: e[ "a"]( name, value)() = 9; break;
			case 6: (e--)[ name].selectCloseTag() = 9; break;
		}
		return -1;
	}
	catch (const exception& e) {return e.cause;}
	catch (const std::bad_alloc&) {return throws_exception::OutOfMem;}	// no memory for the exception of textwolf
	catch (...) {return -2;}
}
// the results of a document: 1 and 2 are defined, 9 has failed
static void select( Automaton* a, bool failed)
{
	static const struct {X::ElementType t; const char* k; int r;} doc[] = {
		{X::OpenTag, "a", 0}, {X::TagAttribName, "x", 0}, {X::TagAttribValue, "v", 2}, {X::Content, "t", 1}, {X::OpenTag, "b", 0}, {X::Content, "u", 0}, {X::TagAttribName, "x", 0}, {X::TagAttribValue, "w", 0}, {X::CloseTag, "b", 0}, {X::CloseTag, "a", 0}};
	Select s( a);
	for (unsigned int i=0; i<sizeof(doc)/sizeof(*doc); ++i)
	{
		Select::iterator r = s.push( doc[i].t, doc[i].k, std::strlen( doc[i].k)), e = s.end();
		unsigned int n = 0;
		for (; r != e; ++r)
		{
			if (*r == 9) {vf_assert( !failed, ERR "a definition that has failed selects nothing"); continue;}
			vf_assert( *r == doc[i].r, ERR "a definition that has failed does not change the other ones"); ++n;
		}
		vf_assert( n == (doc[i].r ? 1 : 0), ERR "a definition that has failed does not change the other ones");
	}
}
static void base( Automaton* a)
{
	(**a)[ "a"]() = 1;
	(**a)[ "a"]( "x") = 2;
}

// names and values that are not possible
extern "C" void d_names( void)
{
	static const struct {const char* s; int cause; int in;} bad[] = {		// in: 1 as name, 2 as value, 3 both
		{"n m", throws_exception::IllegalAttributeName, 1}, {"n=", throws_exception::IllegalAttributeName, 1}, {"n>", throws_exception::IllegalAttributeName, 1}, {"/n", throws_exception::IllegalAttributeName, 1},
		{"n'", throws_exception::IllegalAttributeName, 1}, {"<", throws_exception::IllegalAttributeName, 3}, {"n&#xg;", throws_exception::IllegalAttributeName, 3}, {"&#;", throws_exception::IllegalAttributeName, 3},
		{"&unknown;", throws_exception::IllegalAttributeName, 3}, {"v&#x", throws_exception::IllegalAttributeName, 3},
		{"*1024", throws_exception::DimOutOfRange, 3}, {"*1025", throws_exception::DimOutOfRange, 3}, {"*1080", throws_exception::DimOutOfRange, 3},
		{"n", -1, 3}, {"*1000", -1, 3}, {"n&#65;", -1, 3}};
	{
		Automaton a;
		base( &a);
		unsigned int k = vf_pick( 16, "text:"), how = vf_pick( 7, "definition:");
		vf_state( 1);
		const char* t = bad[ k].s; int cause = bad[ k].cause;
		if (*t == '*') t = name_of_length( t[1] == '1' && t[2] == '0' ? (t[3] - '0') * 10 + (t[4] - '0') + 1000 : 0);
		if (*bad[ k].s == '*' && how != 0 && how != 4) return;
		bool value = (how == 4 || how == 5) && vf_pick( 2, "value") == 1;
		if (!(bad[ k].in & (value ? 2 : 1))) return;
		if (cause == throws_exception::DimOutOfRange && t[ 1024] == 0) cause = -2;	// a name of just this length fits or not
		int c = value ? define( &a, how, "x", t) : define( &a, how, t, "v");
		if (cause == -2) vf_assert( c == -1 || c == throws_exception::DimOutOfRange, ERR "an error in a definition arrives with its cause");
		else vf_assert( c == cause, ERR "an error in a definition arrives with its cause");
		select( &a, c != -1);
	}
	vf_heap( ERR "all memory is released");
}

// no memory at any point of a definition
extern "C" void d_memory( void)
{
	{
		Automaton* a = new Automaton();
		if (vf_pick( 2, "first")) base( a);
		bool based = a->states.size() != 0;
		unsigned int how = vf_pick( 7, "definition:");
		vf_oom( 1);
		int c = define( a, how, "nm", "v");
		vf_oom( 0);
		vf_assert( c == -1 || c == throws_exception::OutOfMem, ERR "an error in a definition arrives with its cause");
		for (unsigned int i=0; i<a->states.size(); ++i)
		{
			const Automaton::State& st = a->states[ i];
			vf_assert( st.next >= -1 && st.next < (int)a->states.size() && st.link >= -1 && st.link < (int)a->states.size(), ERR "state indices are in range after an error");
		}
		if (based) select( a, c != -1);
		// and again: now it is defined
		if (c != -1 && based)
		{
			vf_assert( define( a, how, "nm", "v") == -1, ERR "a definition that has failed can be repeated");
			select( a, false);
		}
		delete a;
	}
	vf_heap( ERR "all memory is released");
}

// a state that does not exist
extern "C" void d_state( void)
{
	{
		Automaton a;
		base( &a);
		int c = -1;
		try {Automaton::PathElement e( &a, vf_pick( 2, "") ? 1000 : (int)a.states.size()); e.selectContent(); e.assignType( 9);}
		catch (const exception& e) {c = e.cause;}
		catch (...) {c = -2;}
		vf_assert( c == throws_exception::IllegalParam, ERR "an error in a definition arrives with its cause");
		select( &a, true);
	}
	vf_heap( ERR "all memory is released");
}

// expressions: an error of a definition in them is not lost
extern "C" void d_expr( void)
{
	{
		Parser p;
		base( &p);
		static const char* const src[] = {"/n/m()", "//{n,m}@{x,y}", "/n[@x='v']~", "/n[1,2]()"};
		const char* s = src[ vf_pick( 4, "expression:")];
		int rt = 0, c = -1;
		vf_oom( 1);
		try {rt = p.addExpression( 9, s, std::strlen( s));}
		catch (const exception& e) {c = e.cause;}
		catch (const std::bad_alloc&) {c = throws_exception::OutOfMem;}
		catch (...) {c = -2;}
		vf_oom( 0);
		vf_assert( c == -1 || c == throws_exception::OutOfMem, "XMLPathSelectAutomatonParser (xmlpathautomatonparse.hpp): an error in a definition arrives with its cause");
		if (c == -1)
		{
			vf_assert( rt == 0, "XMLPathSelectAutomatonParser (xmlpathautomatonparse.hpp): a correct expression is accepted");
			// the same as without errors
			Parser q;
			base( &q);
			vf_assert( q.addExpression( 9, s, std::strlen( s)) == 0 && q.states.size() == p.states.size(), "XMLPathSelectAutomatonParser (xmlpathautomatonparse.hpp): nothing is lost of an expression without error");
		}
		select( &p, c != -1);
	}
	vf_heap( ERR "all memory is released");
}
