#include "common.h"
extern "C" void harness() {
	init(); mkdirAt( "/w" ); Rec r( 1 );
	efsw::FileWatcher* fw = new efsw::FileWatcher( false );
	long id = fw->addWatch( "/w", &r, false ); sx_notev( "id", id ); sx_check( id == 1, "id" );
	fw->watch();
	mkfile( "/w/a" ); settle(); dumpCbs();
	sx_check( ncb == 2, "two callbacks" );
	renameAt( "/w/a", "/w/b" ); settle(); dumpCbs();
	delete fw; sx_check( openHandles() == 0, "handles" );
	sx_cover( "end" );
	sx_check( false, "witness" );
}
