// Interface of the object analyses: choices, merge points, obligations.
#include "prelude.hpp"
#include "stdrt.hpp"
extern "C" unsigned int vf_choose( unsigned int n);			// any value 0..n-1 (kept abstract)
extern "C" unsigned int vf_pick( unsigned int n, const char* what);	// any value 0..n-1 (one run for each)
extern "C" void vf_state( unsigned long tag);				// merge point: the loop invariant is computed here, one for each tag
extern "C" void vf_assert( bool c, const char* what);			// obligation
extern "C" void vf_note( const char* what);				// label for the report
extern "C" void vf_oom( unsigned int on);				// from here on every allocation may fail
extern "C" void vf_heap( const char* what);				// obligation: all memory allocated is released
extern "C" unsigned int vf_mark( void);					// number of live heap blocks
