// Analysis unit of the text lookups: one entry per lookup, the code is the argument.
#include "prelude.hpp"
#include "stdrt.hpp"
#ifdef HDR
#define private public
#endif
#include "textwolf.hpp"
#undef private
using namespace textwolf;
typedef XMLPathSelectAutomaton<charset::UTF8> Automaton;
extern "C" const char* n_ElementType( int i)	{return XMLScannerBase::getElementTypeName( (XMLScannerBase::ElementType)i);}
extern "C" const char* n_Error( int i)		{return XMLScannerBase::getErrorString( (XMLScannerBase::Error)i);}
extern "C" const char* n_STMState( int i)	{return XMLScannerBase::getStateString( (XMLScannerBase::STMState)i);}
extern "C" const char* n_STMAction( int i)	{return XMLScannerBase::getActionString( (XMLScannerBase::STMAction)i);}
extern "C" const char* n_ControlCharacter( int i)	{return ControlCharacterM::name( (ControlCharacter)i);}
extern "C" const char* n_Cause( int i)
{
	exception e( (throws_exception::Cause)i);
	if ((int)e.cause != i) return "(another cause)";
	exception c( e);
	exception o( i ? throws_exception::Unknown : throws_exception::DimOutOfRange);
	o = c;
	if (c.what() != e.what() || o.what() != e.what() || (int)o.cause != i || (int)c.cause != i) return "(a copy has another text)";
	const std::exception& b = e;
	return b.what();
}
extern "C" const char* n_Operation( int i)	{return Automaton::operationName( (Automaton::Operation)i);}
extern "C" const char* n_seekop( int i)
{
	Automaton::Mask m;
	m.seekop( (Automaton::Operation)i);
	return m.seekopName();
}
#ifdef HDR
extern "C" const char* n_State( int i)		{return XmlHdrParser::stateName( (XmlHdrParser::State)i);}
XmlHdrParser::State e_hs;
#endif
// the enumerations (kept in the debug information)
throws_exception::Cause e_cause; XMLScannerBase::ElementType e_type; XMLScannerBase::Error e_err; XMLScannerBase::STMState e_state; XMLScannerBase::STMAction e_act;
ControlCharacter e_cc; Automaton::Operation e_op;
