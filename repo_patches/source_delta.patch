From 216a3905fcb032d17d58639f984fd3eec6381b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 01/18] fix: inotify: pair moves by cookie, report them in
 order and forget replaced directories

---
 src/efsw/FileWatcherInotify.cpp | 334 ++++++++++++--------------------
 src/efsw/FileWatcherInotify.hpp |   5 +-
 2 files changed, 130 insertions(+), 209 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..2d3d9b8 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -202,15 +202,6 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
-	}
-
 	if ( watch->Recursive && NULL == watch->Parent ) {
 		WatchMap::iterator it = mWatches.begin();
 		std::vector<WatchID> eraseWatches;
@@ -303,8 +294,7 @@ void FileWatcherInotify::run() {
 	WatcherInotify* curWatcher = NULL;
 	WatcherInotify* currentMoveFrom = NULL;
 	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
-	std::string prevOldFileName;
+	std::string currentMoveName;
 
 	do {
 		fd_set rfds;
@@ -324,215 +314,138 @@ void FileWatcherInotify::run() {
 
 				while ( i < len ) {
 					struct inotify_event* pevent = (struct inotify_event*)&buff[i];
+					// Events about the watched directory itself carry no name at all
+					std::string name( pevent->len > 0 ? (const char*)pevent->name : "" );
+
+					// Check if this is the destination of the pending move
+					bool isMoveDest = currentMoveFrom && ( pevent->mask & IN_MOVED_TO ) &&
+									  pevent->cookie == currentMoveCookie;
+
+					curWatcher = NULL;
 
 					{
-						curWatcher = NULL;
+						Lock lock( mWatchesLock );
 
-						{
-							Lock lock( mWatchesLock );
+						auto wit = mWatches.find( pevent->wd );
 
-							auto wit = mWatches.find( pevent->wd );
+						if ( wit != mWatches.end() )
+							curWatcher = wit->second;
+					}
 
-							if ( wit != mWatches.end() )
-								curWatcher = wit->second;
-						}
+					if ( currentMoveFrom && !( isMoveDest && curWatcher ) ) {
+						// The IN_MOVED_FROM was not followed by its IN_MOVED_TO: the entry was moved
+						// outside the watches, report it before what happened afterwards
+						handleMovedOutside( currentMoveFrom, currentMoveName );
+						currentMoveFrom = NULL;
+					}
 
-						if ( curWatcher ) {
-							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
-
-							// Check if this is the destination of a move
-							if ( ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom &&
-								 pevent->cookie == currentMoveCookie ) {
-
-								// If the move happened between TWO DIFFERENT watched directories
-								if ( curWatcher != currentMoveFrom ) {
-									// We need to simulate a delete event, the IN_MOVED_TO will
-									// generate an add event after
-									handleAction( currentMoveFrom, currentMoveFrom->OldFileName,
-												  IN_DELETE );
-
-									// Clear the state on the source watcher so it doesn't
-									// get processed again or stuck with stale data.
-									currentMoveFrom->OldFileName = "";
-								}
-								// Else: If curWatcher == currentMoveFrom, it's a local rename.
-								// handleAction() above already detected the OldFileName and
-								// emitted a 'Moved' event correctly.
-
-								/// Pair processed successfully
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
-							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
-								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
-									mMovedOutsideWatches.push_back(
-										std::make_pair( currentMoveFrom, prevOldFileName ) );
-								}
-
-								currentMoveFrom = curWatcher;
-								currentMoveCookie = pevent->cookie;
-							} else {
-								/// Keep track of the IN_MOVED_FROM events to know
-								/// if the IN_MOVED_TO event is also fired
-								if ( currentMoveFrom ) {
-									if ( std::find_if( mMovedOutsideWatches.begin(),
-													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
-														   const std::pair<WatcherInotify*,
-																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
-													   } ) == mMovedOutsideWatches.end() ) {
-										mMovedOutsideWatches.push_back(
-											std::make_pair( currentMoveFrom, prevOldFileName ) );
-									} else {
-										efDEBUG( "Info: Tried to add watch to the moved outside "
-												 "watches but it was already there, Watch ID: %d - "
-												 "Address: %p - Path: \"%s\" - prevOldFileName: "
-												 "\"%s\"\n",
-												 pevent->wd, currentMoveFrom,
-												 currentMoveFrom->Directory.c_str(),
-												 prevOldFileName.c_str() );
-									}
-								}
-
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
-							}
+					if ( curWatcher ) {
+						// Only the pending IN_MOVED_FROM of this very directory makes it a rename
+						if ( ( pevent->mask & IN_MOVED_TO ) &&
+							 !( isMoveDest && currentMoveFrom == curWatcher ) )
+							curWatcher->OldFileName = "";
+
+						handleAction( curWatcher, name, pevent->mask );
+
+						if ( currentMoveFrom ) {
+							// If the move happened between TWO DIFFERENT watched directories
+							// we need to simulate a delete event for the source. Otherwise it's a
+							// local rename, handleAction() already emitted a 'Moved' event.
+							if ( curWatcher != currentMoveFrom )
+								handleMovedOutside( currentMoveFrom, currentMoveName );
+
+							/// Pair processed successfully
+							currentMoveFrom = NULL;
+						} else if ( pevent->mask & IN_MOVED_FROM ) {
+							/// Keep track of the IN_MOVED_FROM events to know
+							/// if the IN_MOVED_TO event is also fired
+							currentMoveFrom = curWatcher;
+							currentMoveCookie = pevent->cookie;
+							currentMoveName = name;
 						}
-
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
 				}
 			}
 
-			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
+			// If the last event was IN_MOVED_FROM we didn't generate any event for that one
 			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
-				mMovedOutsideWatches.push_back(
-					std::make_pair( currentMoveFrom, prevOldFileName ) );
+			if ( currentMoveFrom ) {
+				handleMovedOutside( currentMoveFrom, currentMoveName );
 				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
-				prevOldFileName.clear();
 			}
-		} else {
-			// Here means no event received
-			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
-			if ( currentMoveFrom ) {
-				if ( std::find_if(
-						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
-						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
-						 } ) == mMovedOutsideWatches.end() &&
-					 !currentMoveFrom->OldFileName.empty() ) {
-					mMovedOutsideWatches.push_back(
-						std::make_pair( currentMoveFrom, currentMoveFrom->OldFileName ) );
-				} else {
-					efDEBUG( "Warning: Tried to add watch to the moved outside "
-							 "watches but it was already there, Watch Address: %p\n",
-							 currentMoveFrom );
+		}
+
+		{
+			Lock lock( mWatchesLock );
+			if ( !mDeletedWatches.empty() ) {
+				for ( auto w : mDeletedWatches ) {
+					efSAFE_DELETE( w );
 				}
+				mDeletedWatches.clear();
 			}
-
-			currentMoveFrom = NULL;
-			currentMoveCookie = -1;
 		}
+	} while ( mInitOK );
 
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
-
-			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
-			/// folder
-			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
-					  movedOutsideWatches.begin();
-				  it != movedOutsideWatches.end(); ++it ) {
-
-				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
-						}
-					}
-					if ( !found )
-						continue;
-				}
+	delete[] buff;
+}
 
-				Watcher* watch = it->first;
+/// In case that the IN_MOVED_TO is never fired means that the file was moved to other folder
+void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch,
+											 const std::string& oldFileName ) {
+	// Clear the stale OldFileName.
+	// Since this move is considered complete (moved outside),
+	// the watcher should not be waiting for a pair anymore.
+	watch->OldFileName = "";
 
-				// Clear the stale OldFileName.
-				// Since this move is considered complete (moved outside),
-				// the watcher should not be waiting for a pair anymore.
-				watch->OldFileName = "";
+	/// Check if the file move was a folder already being watched
+	std::vector<std::string> eraseDirs;
 
-				const std::string& oldFileName = it->second;
+	{
+		Lock lock( mWatchesLock );
 
-				/// Check if the file move was a folder already being watched
-				std::vector<Watcher*> eraseWatches;
+		for ( auto wit : mWatches ) {
+			if ( wit.second != watch &&
+				 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
+											  wit.second->Directory ) ) {
+				eraseDirs.push_back( wit.second->Directory );
+			}
+		}
+	}
 
-				{
-					Lock lock( mWatchesLock );
+	/// Remove invalid watches
+	std::sort( eraseDirs.begin(), eraseDirs.end() );
 
-					for ( auto wit : mWatches ) {
-						Watcher* oldWatch = wit.second;
+	if ( eraseDirs.empty() ) {
+		handleAction( watch, oldFileName, IN_DELETE );
+	} else {
+		for ( auto eit = eraseDirs.rbegin(); eit != eraseDirs.rend(); ++eit ) {
+			/// Create Delete event for removed watches that have been moved too
+			if ( Watcher* cntWatch = watcherContainsDirectory( *eit ) ) {
+				handleAction( cntWatch, FileSystem::fileNameFromPath( *eit ), IN_DELETE );
+			}
+		}
+	}
+}
 
-						if ( oldWatch != watch &&
-							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
-														  oldWatch->Directory ) ) {
-							eraseWatches.push_back( oldWatch );
-						}
-					}
-				}
+/// Removes the watches of a directory that is not in the watched tree anymore
+void FileWatcherInotify::removeWatchedTree( Watcher* watch, std::string fpath ) {
+	if ( !watch->Recursive )
+		return;
 
-				/// Remove invalid watches
-				std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
-								  []( const Watcher* left, const Watcher* right ) {
-									  return left->Directory < right->Directory;
-								  } );
-
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
-					}
-				}
-			}
+	FileSystem::dirAddSlashAtEnd( fpath );
 
-			mMovedOutsideWatches.clear();
-		}
+	Lock lock( mWatchesLock );
 
-		{
-			Lock lock( mWatchesLock );
-			if ( !mDeletedWatches.empty() ) {
-				for ( auto w : mDeletedWatches ) {
-					efSAFE_DELETE( w );
-				}
-				mDeletedWatches.clear();
-			}
-		}
-	} while ( mInitOK );
+	std::vector<WatchID> eraseWatches;
 
-	delete[] buff;
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
+		if ( -1 != String::strStartsWith( fpath, it->second->Directory ) )
+			eraseWatches.push_back( it->first );
+
+	for ( auto id : eraseWatches )
+		removeWatchLocked( id );
 }
 
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
@@ -578,6 +491,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 										   Actions::Modified );
 	} else if ( IN_MOVED_TO & action ) {
+		/// A directory that was replaced by the moved one is gone
+		removeWatchedTree( watch, fpath );
+
 		/// If OldFileName doesn't exist means that the file has been moved from other folder, so we
 		/// just send the Add event
 		if ( watch->OldFileName.empty() ) {
@@ -593,23 +509,36 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 											   Actions::Moved, watch->OldFileName );
 		}
 
-		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
+		if ( watch->Recursive && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
 			FileSystem::dirAddSlashAtEnd( fpath );
 
 			Lock lock( mWatchesLock );
+			Lock l( mRealWatchesLock );
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == opath ) {
-					it->second->Directory = fpath;
-					it->second->DirInfo = FileInfo( fpath );
-				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
-					it->second->DirInfo.Filepath = it->second->Directory;
+				if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+					auto ref = mWatchesRef.find( it->second->Directory );
+					if ( ref != mWatchesRef.end() && ref->second == it->first )
+						mWatchesRef.erase( ref );
+
+					if ( it->second->Directory == opath ) {
+						it->second->Directory = fpath;
+						it->second->DirInfo = FileInfo( fpath );
+					} else {
+						it->second->Directory =
+							fpath + it->second->Directory.substr( opath.size() );
+						it->second->DirInfo.Filepath = it->second->Directory;
+					}
+
+					mWatchesRef[it->second->Directory] = it->first;
 				}
 			}
+
+			/// It could have been moved before it was possible to watch it
+			checkForNewWatcher( watch, fpath );
 		}
 
 		watch->OldFileName = "";
@@ -622,19 +551,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	} else if ( IN_DELETE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Delete );
 
-		FileSystem::dirAddSlashAtEnd( fpath );
-
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive ) {
-			Lock l( mWatchesLock );
-
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					removeWatchLocked( it->second->InotifyID );
-					break;
-				}
-			}
-		}
+		removeWatchedTree( watch, fpath );
 	}
 	mIsTakingAction = false;
 }
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..5d93d1a 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -61,7 +61,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
 	bool mIsTakingAction;
-	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
@@ -75,6 +74,10 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	void handleMovedOutside( WatcherInotify* watch, const std::string& oldFileName );
+
+	void removeWatchedTree( Watcher* watch, std::string fpath );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
-- 
2.43.0


From aedfe26eb87b11f607db35a99090b1c47edff83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 02/18] fix: inotify: destroying the watcher could deadlock
 with its own thread

---
 src/efsw/FileWatcherInotify.cpp | 17 +++++------------
 src/efsw/FileWatcherInotify.hpp |  1 -
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 2d3d9b8..5a209e0 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -23,7 +23,7 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ), mIsTakingAction( false ) {
+	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -35,17 +35,12 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 
 FileWatcherInotify::~FileWatcherInotify() {
 	mInitOK = false;
-	// There is deadlock when release FileWatcherInotify instance since its handAction
-	// function is still running and hangs in requiring lock without init lock captured.
-	while ( mIsTakingAction ) {
-		// It'd use condition-wait instead of sleep. Actually efsw has no such
-		// implementation so we just skip and sleep while for that to avoid deadlock.
-		usleep( 1000 );
-	};
-	Lock initLock( mInitLock );
 
+	// Wait for the thread before taking any lock, since it may need them to finish.
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
+
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
@@ -477,11 +472,10 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 
 void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filename,
 									   unsigned long action, const std::string& ) {
+	Lock initLock( mInitLock );
 	if ( !watch || !watch->Listener || !mInitOK ) {
 		return;
 	}
-	mIsTakingAction = true;
-	Lock initLock( mInitLock );
 
 	std::string fpath( watch->Directory + filename );
 
@@ -554,7 +548,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
 		removeWatchedTree( watch, fpath );
 	}
-	mIsTakingAction = false;
 }
 
 std::vector<std::string> FileWatcherInotify::directories() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 5d93d1a..700dc87 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -60,7 +60,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	bool mIsTakingAction;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
-- 
2.43.0


From a774786dd6d8d8c0767b7d5f03d788b4041f99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 03/18] fix: inotify: queue overflows were never reported as
 missed actions

---
 src/efsw/FileWatcherInotify.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 5a209e0..ceabe96 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -334,7 +334,19 @@ void FileWatcherInotify::run() {
 						currentMoveFrom = NULL;
 					}
 
-					if ( curWatcher ) {
+					if ( pevent->mask & IN_Q_OVERFLOW ) {
+						// The kernel dropped events of any of the watches
+						std::vector<Watcher*> watches;
+
+						{
+							Lock lock( mRealWatchesLock );
+							for ( auto wit : mRealWatches )
+								watches.push_back( wit.second );
+						}
+
+						for ( auto watch : watches )
+							handleAction( watch, "", IN_Q_OVERFLOW );
+					} else if ( curWatcher ) {
 						// Only the pending IN_MOVED_FROM of this very directory makes it a rename
 						if ( ( pevent->mask & IN_MOVED_TO ) &&
 							 !( isMoveDest && currentMoveFrom == curWatcher ) )
-- 
2.43.0


From c8d5d3a11c610955eedcbbff28fce65d5ab61842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 04/18] fix: inotify: a watch removed while it was in use kept
 reporting or left dangling parents

---
 src/efsw/FileWatcherInotify.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index ceabe96..06ef2e4 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -163,6 +163,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 
 		if ( fromInternalEvent && parent != NULL && syntheticEvents ) {
 			for ( const auto& file : files ) {
+				/// The listener could have removed the watch
+				if ( !pWatch->Listener )
+					break;
+
 				if ( file.second.isRegularFile() || file.second.isDirectory() ||
 					 file.second.isLink() ) {
 					pWatch->Listener->handleFileAction(
@@ -175,7 +179,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo>::iterator it = files.begin();
 
 		for ( ; it != files.end(); ++it ) {
-			if ( !mInitOK )
+			if ( !mInitOK || !pWatch->Listener )
 				break;
 
 			const FileInfo& cfi = it->second;
@@ -214,7 +218,13 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	mWatchesRef.erase( watch->Directory );
 	mWatches.erase( iter );
 
+	/// The watches below this one survive it
+	for ( auto wit : mWatches )
+		if ( wit.second->Parent == watch )
+			wit.second->Parent = watch->Parent;
+
 	if ( NULL == watch->Parent ) {
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
@@ -232,6 +242,8 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
+	/// Nothing else can be reported by this watch, even if it's in use right now
+	watch->Listener = NULL;
 	mDeletedWatches.push_back( watch );
 }
 
@@ -240,7 +252,6 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 		return;
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
-	Lock l( mRealWatchesLock );
 
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
@@ -459,7 +470,7 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	FileSystem::dirAddSlashAtEnd( fpath );
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
-	if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
+	if ( watch->Recursive && watch->Listener && FileSystem::isDirectory( fpath ) ) {
 		bool found = false;
 
 		{
@@ -506,8 +517,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Add );
 
-			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-											   Actions::Modified );
+			if ( watch->Listener )
+				watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
+												   Actions::Modified );
 
 			checkForNewWatcher( watch, fpath );
 		} else {
-- 
2.43.0


From 3893ea8934c96c3f4ddf328dfc8644e634d6cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 05/18] fix: generic: deletions within the same second were
 lost and hard links were taken for moves

---
 src/efsw/DirectorySnapshot.cpp | 41 ++++++++++++++++++----------------
 src/efsw/DirectorySnapshot.hpp |  2 +-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..de5074e 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -90,20 +90,28 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	FileInfoMap::iterator it;
 	FileInfoMap::iterator fiIt;
 
-	if ( Diff.DirChanged ) {
-		FilesCpy = Files;
+	/// The files that are gone. The modification time of the directory can't tell if there are any,
+	/// since they could have been removed in the same second of the last scan.
+	FilesCpy = Files;
+
+	for ( it = files.begin(); it != files.end(); it++ ) {
+		if ( it->second.isRegularFile() || it->second.isDirectory() ) {
+			FilesCpy.erase( it->first );
+		}
 	}
 
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
 
+		/// Only regular files or directories are of interest
+		if ( !fi.isRegularFile() && !fi.isDirectory() ) {
+			continue;
+		}
+
 		/// File existed before?
 		fiIt = Files.find( it->first );
 
 		if ( fiIt != Files.end() ) {
-			/// Erase from the file list copy
-			FilesCpy.erase( it->first );
-
 			/// File changed?
 			if ( ( *fiIt ).second != fi ) {
 				/// Update the new file info
@@ -117,23 +125,22 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 				}
 			}
 		}
-		/// Only add regular files or directories
-		else if ( fi.isRegularFile() || fi.isDirectory() ) {
+		else {
 			/// New file found
 			Files[it->first] = fi;
 
 			FileInfoMap::iterator fit;
 			std::string oldFile = "";
 
-			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
+			/// Check if the same inode already existed with a name that is gone
+			if ( ( fit = nodeInFiles( FilesCpy, fi ) ) != FilesCpy.end() ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
-				FilesCpy.erase( fit->first );
+				FilesCpy.erase( fit );
 
 				/// Delete the old file name
-				Files.erase( fit->first );
+				Files.erase( oldFile );
 
 				if ( fi.isDirectory() ) {
 					Diff.DirsMoved.push_back( std::make_pair( oldFile, fi ) );
@@ -150,10 +157,6 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		}
 	}
 
-	if ( !Diff.DirChanged ) {
-		return Diff;
-	}
-
 	/// The files or directories that remains were deleted
 	for ( it = FilesCpy.begin(); it != FilesCpy.end(); it++ ) {
 		fi = it->second;
@@ -171,18 +174,18 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	return Diff;
 }
 
-FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
+FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfoMap& files, const FileInfo& fi ) {
 	FileInfoMap::iterator it;
 
 	if ( FileInfo::inodeSupported() ) {
-		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+		for ( it = files.begin(); it != files.end(); it++ ) {
+			if ( it->second.sameInode( fi ) && it->second.isDirectory() == fi.isDirectory() ) {
 				return it;
 			}
 		}
 	}
 
-	return Files.end();
+	return files.end();
 }
 
 void DirectorySnapshot::addFile( std::string path ) {
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..fb46100 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,7 +24,7 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
-	FileInfoMap::iterator nodeInFiles( FileInfo& fi );
+	FileInfoMap::iterator nodeInFiles( FileInfoMap& files, const FileInfo& fi );
 
 	void addFile( std::string path );
 
-- 
2.43.0


From 34e57c29e0fcdfcb544eee178d5f5acc3db0c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 06/18] fix: generic: non-recursive watches looked inside new
 subdirectories, and unwatchable ones were never reported

---
 src/efsw/DirWatcherGeneric.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..6f73aa3 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -171,6 +171,7 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 
 		/// Directories
 		DiffIterator( DirsCreated ) {
+			handleAction( ( *it ).Filepath, Actions::Add );
 			createDirectory( ( *it ).Filepath );
 		}
 
@@ -270,6 +271,11 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 
 	DirWatcherGeneric* dw = NULL;
 
+	/// Only recursive watches look inside of their subdirectories
+	if ( !Recursive ) {
+		return NULL;
+	}
+
 	/// Check if the directory is a symbolic link
 	std::string parentPath( DirSnap.DirectoryInfo.Filepath );
 	FileSystem::dirAddSlashAtEnd( parentPath );
@@ -308,8 +314,6 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	}
 
 	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
-
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
 
-- 
2.43.0


From e159fdb7a094a695f4c062bf44acbaab06f0817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 07/18] fix: generic: directories that were replaced or became
 readable were not tracked, nor the files of new ones reported

---
 src/efsw/DirWatcherGeneric.cpp | 67 ++++++++++++++++++++++++++--------
 src/efsw/DirWatcherGeneric.hpp |  2 +
 src/efsw/DirectorySnapshot.hpp |  4 +-
 3 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 6f73aa3..1ed4ce4 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -29,18 +29,17 @@ DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric*
 DirWatcherGeneric::~DirWatcherGeneric() {
 	/// If the directory was deleted mark the files as deleted
 	if ( Deleted ) {
-		DirectorySnapshotDiff Diff = DirSnap.scan();
+		DirectorySnapshotDiff Diff;
+		FileInfoList::iterator it;
 
-		if ( !DirSnap.exists() ) {
-			FileInfoList::iterator it;
+		DirSnap.deleteAll( Diff );
 
-			DiffIterator( FilesDeleted ) {
-				handleAction( ( *it ).Filepath, Actions::Delete );
-			}
+		DiffIterator( FilesDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
+		}
 
-			DiffIterator( DirsDeleted ) {
-				handleAction( ( *it ).Filepath, Actions::Delete );
-			}
+		DiffIterator( DirsDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
 		}
 	}
 
@@ -77,6 +76,16 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 		}
 	}
 
+	if ( NULL != Parent ) {
+		/// Followed symlinks are watched in the place they point to
+		std::string curPath;
+		std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
+
+		if ( "" != link ) {
+			dir = link;
+		}
+	}
+
 	DirSnap.setDirectoryInfo( dir );
 
 	for ( auto& child : Directories ) {
@@ -97,6 +106,10 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 		std::string dir;
 
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
+			if ( reportNewFiles && it->second.isDirectory() ) {
+				handleAction( it->first, Actions::Add );
+			}
+
 			if ( it->second.isDirectory() && it->second.isReadable() &&
 				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
 				/// Check if the directory is a symbolic link
@@ -126,14 +139,10 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					}
 				}
 
-				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
-				}
-
-				Directories[dir] =
+				Directories[it->first] =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
-				Directories[dir]->addChildren( reportNewFiles );
+				Directories[it->first]->addChildren( reportNewFiles );
 			}
 		}
 	}
@@ -159,6 +168,9 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 
 		DiffIterator( FilesModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
+
+			/// It could have been a directory before
+			removeDirectory( ( *it ).Filepath );
 		}
 
 		DiffIterator( FilesDeleted ) {
@@ -177,6 +189,7 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 
 		DiffIterator( DirsModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
+			updateDirectory( ( *it ).Filepath );
 		}
 
 		DiffIterator( DirsDeleted ) {
@@ -315,7 +328,7 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 
 	if ( !skip ) {
 		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
+		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
 		dw->addChildren();
 
@@ -328,6 +341,28 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	return dw;
 }
 
+/// The directory changed: it could be other directory, or it could not have been watchable before
+void DirWatcherGeneric::updateDirectory( const std::string& dir ) {
+	DirWatchMap::iterator dit = Directories.find( FileSystem::fileNameFromPath( dir ) );
+
+	if ( dit != Directories.end() ) {
+		std::string curPath;
+		std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
+		std::string path( "" != link ? link : dir );
+
+		FileSystem::dirAddSlashAtEnd( path );
+
+		if ( dit->second->DirSnap.DirectoryInfo.Filepath == path ) {
+			return;
+		}
+
+		/// Not the directory that was being watched
+		removeDirectory( dir );
+	}
+
+	createDirectory( dir );
+}
+
 void DirWatcherGeneric::removeDirectory( std::string dir ) {
 	FileSystem::dirRemoveSlashAtEnd( dir );
 	dir = FileSystem::fileNameFromPath( dir );
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index c1f7135..6e03db7 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -42,6 +42,8 @@ class DirWatcherGeneric {
 
 	DirWatcherGeneric* createDirectory( std::string newdir );
 
+	void updateDirectory( const std::string& dir );
+
 	void removeDirectory( std::string dir );
 
 	void moveDirectory( std::string oldDir, std::string newDir );
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index fb46100..5a42bbd 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,6 +24,8 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
+	void deleteAll( DirectorySnapshotDiff& Diff );
+
 	FileInfoMap::iterator nodeInFiles( FileInfoMap& files, const FileInfo& fi );
 
 	void addFile( std::string path );
@@ -36,8 +38,6 @@ class DirectorySnapshot {
 
   protected:
 	void initFiles();
-
-	void deleteAll( DirectorySnapshotDiff& Diff );
 };
 
 } // namespace efsw
-- 
2.43.0


From 702135a82e20fb6a4634ceb8ccd415bc7968fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 08/18] fix: generic: the watches were accessed without locking
 and listeners could not add or remove them

---
 src/efsw/DirWatcherGeneric.cpp  | 19 ++++++++----
 src/efsw/FileWatcherGeneric.cpp | 53 ++++++++++++++++++++++++++-------
 src/efsw/FileWatcherGeneric.hpp |  7 +++++
 3 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 1ed4ce4..4f9b247 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -95,6 +95,11 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 
 void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long action,
 									  const std::string& oldFilename ) {
+	/// The listener could have removed the watch
+	if ( NULL == Watch->Listener ) {
+		return;
+	}
+
 	Watch->Listener->handleFileAction( Watch->ID, DirSnap.DirectoryInfo.Filepath,
 									   FileSystem::fileNameFromPath( filename ), (Action)action,
 									   oldFilename );
@@ -139,10 +144,12 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					}
 				}
 
-				Directories[it->first] =
+				DirWatcherGeneric* dw =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
-				Directories[it->first]->addChildren( reportNewFiles );
+				Directories[it->first] = dw;
+
+				dw->addChildren( reportNewFiles );
 			}
 		}
 	}
@@ -151,7 +158,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
-	if ( reportOwnChange && Diff.DirChanged && NULL != Parent ) {
+	if ( reportOwnChange && Diff.DirChanged && NULL != Parent && NULL != Watch->Listener ) {
 		Watch->Listener->handleFileAction(
 			Watch->ID, FileSystem::pathRemoveFileName( DirSnap.DirectoryInfo.Filepath ),
 			FileSystem::fileNameFromPath( DirSnap.DirectoryInfo.Filepath ), Actions::Modified );
@@ -378,14 +385,14 @@ void DirWatcherGeneric::removeDirectory( std::string dir ) {
 	if ( dit != Directories.end() ) {
 		dw = dit->second;
 
+		/// Remove the directory from the map
+		Directories.erase( dit );
+
 		/// Flag it as deleted so it fire the event for every file inside deleted
 		dw->Deleted = true;
 
 		/// Delete the DirWatcherGeneric
 		efSAFE_DELETE( dw );
-
-		/// Remove the directory from the map
-		Directories.erase( dit->first );
 	}
 }
 
diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..4fd330e 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -12,7 +12,11 @@ FileWatcherGeneric::FileWatcherGeneric( FileWatcher* parent ) :
 }
 
 FileWatcherGeneric::FileWatcherGeneric( FileWatcher* parent, unsigned int pollingFreq ) :
-	FileWatcherImpl( parent ), mThread( NULL ), mLastWatchID( 0 ), mPollingFreq( pollingFreq ) {
+	FileWatcherImpl( parent ),
+	mThread( NULL ),
+	mLastWatchID( 0 ),
+	mPolling( false ),
+	mPollingFreq( pollingFreq ) {
 	mInitOK = true;
 	mIsGeneric = true;
 }
@@ -36,6 +40,8 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() ) {
@@ -63,7 +69,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,17 +78,17 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			deleteWatch( watch );
 
 			return;
 		}
@@ -91,23 +96,33 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			deleteWatch( watch );
 
 			return;
 		}
 	}
 }
 
+void FileWatcherGeneric::deleteWatch( WatcherGeneric* watch ) {
+	if ( mPolling ) {
+		/// Removed by its listener: it could be in use, but nothing else can be reported
+		watch->Listener = NULL;
+		mDeletedWatches.push_back( watch );
+	} else {
+		efSAFE_DELETE( watch );
+	}
+}
+
 void FileWatcherGeneric::watch() {
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
@@ -120,11 +135,25 @@ void FileWatcherGeneric::run() {
 		{
 			Lock lock( mWatchesLock );
 
-			WatchList::iterator it = mWatches.begin();
+			/// The listeners could add or remove watches
+			WatchList watches( mWatches );
+			WatchList::iterator it = watches.begin();
+
+			mPolling = true;
+
+			for ( ; it != watches.end(); ++it ) {
+				if ( ( *it )->Listener ) {
+					( *it )->watch();
+				}
+			}
+
+			mPolling = false;
 
-			for ( ; it != mWatches.end(); ++it ) {
-				( *it )->watch();
+			for ( it = mDeletedWatches.begin(); it != mDeletedWatches.end(); ++it ) {
+				efSAFE_DELETE( *it );
 			}
+
+			mDeletedWatches.clear();
 		}
 
 		if ( mInitOK )
@@ -154,6 +183,8 @@ std::vector<std::string> FileWatcherGeneric::directories() {
 }
 
 bool FileWatcherGeneric::pathInWatches( const std::string& path ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index f70f512..a4566ff 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -50,6 +50,11 @@ class FileWatcherGeneric : public FileWatcherImpl {
 	/// Map of WatchID to WatchStruct pointers
 	WatchList mWatches;
 
+	/// The watches removed by a listener while they were being polled
+	WatchList mDeletedWatches;
+
+	bool mPolling;
+
 	Mutex mWatchesLock;
 
 	int mPollingFreq{ 1000 };
@@ -58,6 +63,8 @@ class FileWatcherGeneric : public FileWatcherImpl {
 
   private:
 	void run();
+
+	void deleteWatch( WatcherGeneric* watch );
 };
 
 } // namespace efsw
-- 
2.43.0


From b366a7b3b8e1446ac42cdd553e3491997a3ea470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 09/18] fix: the code of the last error was never stored, and
 the log was not thread-safe

---
 src/efsw/Log.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..8b10a07 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -1,25 +1,32 @@
 #include <efsw/efsw.hpp>
 #include <efsw/Debug.hpp>
+#include <efsw/Lock.hpp>
 
 namespace efsw { namespace Errors {
 
 static std::string LastError = "";
 static Error LastErrorCode = NoError;
+static Mutex LastErrorLock;
 
 std::string Log::getLastErrorLog() {
+	Lock lock( LastErrorLock );
 	return LastError;
 }
 
 Error Log::getLastErrorCode() {
+	Lock lock( LastErrorLock );
 	return LastErrorCode;
 }
 
 void Log::clearLastError() {
+	Lock lock( LastErrorLock );
 	LastErrorCode = NoError;
 	LastError = "";
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	Lock lock( LastErrorLock );
+	LastErrorCode = err;
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
@@ -27,6 +34,9 @@ Error Log::createLastError( Error err, std::string log ) {
 		case FileRepeated:
 			LastError = "File repeated in watches ( " + log + " )";
 			break;
+		case FileNotReadable:
+			LastError = "File not readable ( " + log + " )";
+			break;
 		case FileOutOfScope:
 			LastError = "Symlink file out of scope ( " + log + " )";
 			break;
-- 
2.43.0


From e544c16b5ff27bb35c1238ee03ceb505788eb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 10/18] fix: C API: callbacks were deleted before their
 watcher, only one of them, and the missed-events function was ignored in the
 lookup

---
 src/efsw/FileWatcherCWrapper.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..2148009 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -40,10 +40,12 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	efsw::Lock l( g_callbacksMutex );
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param &&
+			 callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
@@ -51,9 +53,11 @@ Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback
 
 void remove_callback( efsw_watcher watcher ) {
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
+	for ( ;; ) {
+		auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
+								   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
+		if ( found == g_callbacks.end() )
+			break;
 		Watcher_CAPI* callback = *found;
 		delete callback;
 		g_callbacks.erase( found );
@@ -66,8 +70,12 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
+	efsw::FileWatcher* fileWatcher = (efsw::FileWatcher*)watcher;
+	/// The callbacks are in use until the watcher is destroyed, and its address must not be reused
+	/// by other watcher before they are removed
+	fileWatcher->~FileWatcher();
 	remove_callback( watcher );
-	delete (efsw::FileWatcher*)watcher;
+	::operator delete( fileWatcher );
 }
 
 const char* efsw_getlasterror() {
@@ -91,7 +99,8 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback =
+		find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
 
 	if ( callback == NULL ) {
 		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
-- 
2.43.0


From 9163d4bfd279507e9a802413443ea5aab9dab932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 11/18] fix: failed statfs, stat, getcwd and realpath calls
 left uninitialised data in use

---
 src/efsw/FileInfo.cpp                      |  4 +++-
 src/efsw/FileSystem.cpp                    |  4 ++--
 src/efsw/platform/posix/FileSystemImpl.cpp | 14 +++++++++++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..2600ddf 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -56,11 +56,12 @@ bool FileInfo::inodeSupported() {
 }
 
 FileInfo::FileInfo() :
-	ModificationTime( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
+	ModificationTime( 0 ), Size( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
 
 FileInfo::FileInfo( const std::string& filepath ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
@@ -71,6 +72,7 @@ FileInfo::FileInfo( const std::string& filepath ) :
 FileInfo::FileInfo( const std::string& filepath, bool linkInfo ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index d17f00c..70de741 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -150,8 +150,8 @@ std::string FileSystem::getRealPath( const std::string& path ) {
 	std::string realPath;
 #if defined( EFSW_PLATFORM_POSIX )
 	char dir[PATH_MAX];
-	realpath( path.c_str(), &dir[0] );
-	realPath = std::string( dir );
+	if ( realpath( path.c_str(), &dir[0] ) != NULL )
+		realPath = std::string( dir );
 #elif EFSW_OS == EFSW_OS_WIN
 	wchar_t dir[_MAX_PATH + 1];
 	GetFullPathNameW( getWidePath( path ).c_str(), _MAX_PATH, &dir[0], nullptr );
diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..7d42634 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -65,7 +65,12 @@ std::string findMountPoint( std::string file ) {
 	struct stat last_stat;
 	struct stat file_stat;
 
-	stat( file.c_str(), &file_stat );
+	/// The working directory couldn't be restored
+	if ( cwd.empty() )
+		return "";
+
+	if ( stat( file.c_str(), &file_stat ) < 0 )
+		return "";
 
 	std::string mp;
 
@@ -80,8 +85,10 @@ std::string findMountPoint( std::string file ) {
 		if ( !FileSystem::changeWorkingDirectory( dir ) )
 			return "";
 
-		if ( stat( ".", &last_stat ) < 0 )
+		if ( stat( ".", &last_stat ) < 0 ) {
+			FileSystem::changeWorkingDirectory( cwd );
 			return "";
+		}
 	}
 
 	while ( true ) {
@@ -204,7 +211,8 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( statfs( directory.c_str(), &statfsbuf ) < 0 )
+		return false;
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From fb07084680870281f0f0308cc4ec2097ac90d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 12/18] fix: UTF-8 encoded lone low surrogates, UTF-16 encoded
 U+FFFF as a pair and UTF-32 lengths were negative

---
 src/efsw/Utf.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/efsw/Utf.inl b/src/efsw/Utf.inl
index ef71bc8..487013a 100644
--- a/src/efsw/Utf.inl
+++ b/src/efsw/Utf.inl
@@ -58,7 +58,7 @@ template <typename Out> Out Utf<8>::Encode( Uint32 input, Out output, Uint8 repl
 	static const Uint8 firstBytes[7] = { 0x00, 0x00, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
 
 	// Encode the character
-	if ( ( input > 0x0010FFFF ) || ( ( input >= 0xD800 ) && ( input <= 0xDBFF ) ) ) {
+	if ( ( input > 0x0010FFFF ) || ( ( input >= 0xD800 ) && ( input <= 0xDFFF ) ) ) {
 		// Invalid character
 		if ( replacement )
 			*output++ = replacement;
@@ -245,7 +245,7 @@ template <typename In> In Utf<16>::Decode( In begin, In end, Uint32& output, Uin
 }
 
 template <typename Out> Out Utf<16>::Encode( Uint32 input, Out output, Uint16 replacement ) {
-	if ( input < 0xFFFF ) {
+	if ( input <= 0xFFFF ) {
 		// The character can be copied directly, we just need to check if it's in the valid range
 		if ( ( input >= 0xD800 ) && ( input <= 0xDFFF ) ) {
 			// Invalid character (this range is reserved)
@@ -390,7 +390,7 @@ template <typename In> In Utf<32>::Next( In begin, In end ) {
 }
 
 template <typename In> std::size_t Utf<32>::Count( In begin, In end ) {
-	return begin - end;
+	return end - begin;
 }
 
 template <typename In, typename Out>
-- 
2.43.0


From def50120801b9fedaae776a24a34b958bce145a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:52 +0000
Subject: [PATCH 13/18] fix: links leading to a directory still being added
 were followed endlessly

---
 src/efsw/DirWatcherGeneric.cpp  |  6 +++---
 src/efsw/FileWatcherInotify.cpp | 11 ++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 4f9b247..18ac258 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -337,12 +337,12 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
+		/// Add it to the list of directories, before its links are followed: they could lead to it
+		Directories[newdir] = dw;
+
 		dw->addChildren();
 
 		dw->watch();
-
-		/// Add it to the list of directories
-		Directories[newdir] = dw;
 	}
 
 	return dw;
diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 06ef2e4..ebd0cf9 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -102,9 +102,18 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			return Errors::Log::createLastError( Errors::FileOutOfScope, dir );
 		}
 
+		bool watched = false;
+
+		/// A link found inside a watch could lead to any directory already watched, even to one that
+		/// contains the link
+		if ( NULL != parent ) {
+			Lock lock( mWatchesLock );
+			watched = mWatchesRef.find( link ) != mWatchesRef.end();
+		}
+
 		/// If it's a symlink check if the realpath exists as a watcher, or
 		/// if the path is outside the current dir
-		if ( pathInWatches( link ) ) {
+		if ( watched || pathInWatches( link ) ) {
 			return Errors::Log::createLastError( Errors::FileRepeated, directory );
 		} else if ( !linkAllowed( curPath, link ) ) {
 			return Errors::Log::createLastError( Errors::FileOutOfScope, dir );
-- 
2.43.0


From e3fee2cc3887ec7d0cb40c4a9fbf7fa950150252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 14/18] fix: generic: polling frequencies over INT_MAX ms were
 taken for almost endless ones

---
 src/efsw/FileWatcherGeneric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index a4566ff..32a56cd 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -57,7 +57,7 @@ class FileWatcherGeneric : public FileWatcherImpl {
 
 	Mutex mWatchesLock;
 
-	int mPollingFreq{ 1000 };
+	unsigned int mPollingFreq{ 1000 };
 
 	bool pathInWatches( const std::string& path ) override;
 
-- 
2.43.0


From 9a92127f4e6403ab7fe3ff96861cf0477f994289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 15/18] fix: the root directory could not be watched

---
 src/efsw/FileSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index 70de741..8ff81cf 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -46,7 +46,7 @@ void FileSystem::dirAddSlashAtEnd( std::string& dir ) {
 }
 
 void FileSystem::dirRemoveSlashAtEnd( std::string& dir ) {
-	if ( dir.size() >= 1 && dir[dir.size() - 1] == getOSSlash() ) {
+	if ( dir.size() > 1 && dir[dir.size() - 1] == getOSSlash() ) {
 		dir.erase( dir.size() - 1 );
 	}
 }
-- 
2.43.0


From 4aa21aa28f903a0ec9e782f85b254667eff18999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 16/18] fix: inotify: directories created or moved inside a
 directory that was renamed before their events were read were lost or left
 watched

---
 src/efsw/FileWatcherInotify.cpp | 89 ++++++++++++++++++++++++++-------
 src/efsw/FileWatcherInotify.hpp |  4 ++
 2 files changed, 74 insertions(+), 19 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index ebd0cf9..c6109c3 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -141,8 +141,15 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	{
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
-		if ( watchIdExists != mWatches.end() )
+		if ( watchIdExists != mWatches.end() ) {
+			std::string oldDir( watchIdExists->second->Directory );
+
 			removeWatchLocked( wd, true );
+
+			// The directories below it were moved with it
+			Lock l( mRealWatchesLock );
+			moveWatches( oldDir, dir );
+		}
 	}
 
 	efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
@@ -502,6 +509,64 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	}
 }
 
+/// Updates the path of the watches of a directory that was moved and of everything below it
+void FileWatcherInotify::moveWatches( const std::string& opath, const std::string& fpath ) {
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+			auto ref = mWatchesRef.find( it->second->Directory );
+			if ( ref != mWatchesRef.end() && ref->second == it->first )
+				mWatchesRef.erase( ref );
+
+			if ( it->second->Directory == opath ) {
+				it->second->Directory = fpath;
+				it->second->DirInfo = FileInfo( fpath );
+			} else {
+				it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
+				it->second->DirInfo.Filepath = it->second->Directory;
+			}
+
+			mWatchesRef[it->second->Directory] = it->first;
+		}
+	}
+}
+
+/// Watches the subdirectories of the watched directories below a path that are not watched yet
+void FileWatcherInotify::checkForNewSubdirectories( const std::string& fpath ) {
+	std::vector<std::pair<WatchID, std::string>> watches;
+
+	{
+		Lock lock( mWatchesLock );
+
+		for ( auto& wit : mWatches )
+			if ( -1 != String::strStartsWith( fpath, wit.second->Directory ) )
+				watches.push_back( std::make_pair( wit.first, wit.second->Directory ) );
+	}
+
+	for ( auto& watch : watches ) {
+		FileInfoMap files = FileSystem::filesInfoFromPath( watch.second );
+
+		for ( auto& file : files ) {
+			if ( !file.second.isDirectory() )
+				continue;
+
+			Watcher* parent = NULL;
+
+			{
+				Lock lock( mWatchesLock );
+
+				auto wit = mWatches.find( watch.first );
+
+				if ( wit != mWatches.end() && wit->second->Directory == watch.second &&
+					 mWatchesRef.find( file.second.Filepath + "/" ) == mWatchesRef.end() )
+					parent = wit->second;
+			}
+
+			if ( parent )
+				checkForNewWatcher( parent, file.second.Filepath );
+		}
+	}
+}
+
 void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filename,
 									   unsigned long action, const std::string& ) {
 	Lock initLock( mInitLock );
@@ -545,27 +610,13 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			Lock lock( mWatchesLock );
 			Lock l( mRealWatchesLock );
 
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-					auto ref = mWatchesRef.find( it->second->Directory );
-					if ( ref != mWatchesRef.end() && ref->second == it->first )
-						mWatchesRef.erase( ref );
-
-					if ( it->second->Directory == opath ) {
-						it->second->Directory = fpath;
-						it->second->DirInfo = FileInfo( fpath );
-					} else {
-						it->second->Directory =
-							fpath + it->second->Directory.substr( opath.size() );
-						it->second->DirInfo.Filepath = it->second->Directory;
-					}
-
-					mWatchesRef[it->second->Directory] = it->first;
-				}
-			}
+			moveWatches( opath, fpath );
 
 			/// It could have been moved before it was possible to watch it
 			checkForNewWatcher( watch, fpath );
+
+			/// The same goes for what was created inside it
+			checkForNewSubdirectories( fpath );
 		}
 
 		watch->OldFileName = "";
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 700dc87..a9fc404 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -79,6 +79,10 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
+	void moveWatches( const std::string& opath, const std::string& fpath );
+
+	void checkForNewSubdirectories( const std::string& fpath );
+
 	Watcher* watcherContainsDirectory( std::string dir );
 };
 
-- 
2.43.0


From 5d2ed7aec557ee17171c1489ee790280197f42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 17/18] fix: watch with an inotify descriptor that is too big
 for select

The watcher raises the descriptor limit of the process, so the inotify
descriptor can be FD_SETSIZE or more: FD_SET then wrote behind the set.
---
 src/efsw/FileWatcherInotify.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index c6109c3..2a56d05 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -5,10 +5,10 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
-#include <sys/select.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -319,14 +319,13 @@ void FileWatcherInotify::run() {
 	std::string currentMoveName;
 
 	do {
-		fd_set rfds;
-		FD_ZERO( &rfds );
-		FD_SET( mFD, &rfds );
-		timeval timeout;
-		timeout.tv_sec = 0;
-		timeout.tv_usec = 100000;
-
-		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
+		/// The descriptor could be too big for select
+		struct pollfd pfd;
+		pfd.fd = mFD;
+		pfd.events = POLLIN;
+		pfd.revents = 0;
+
+		if ( poll( &pfd, 1, 100 ) > 0 ) {
 			ssize_t len;
 
 			len = read( mFD, buff, BUFF_SIZE );
-- 
2.43.0


From b031f915ff5d737d5baf6dd21d8abdfb3c54e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 18/18] fix: efsw_getlasterror used by two threads at once

The text was copied into a string that all threads shared, so one call could
free the text another thread was copying or reading.
---
 src/efsw/FileWatcherCWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 2148009..d45b171 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -79,7 +79,7 @@ void efsw_release( efsw_watcher watcher ) {
 }
 
 const char* efsw_getlasterror() {
-	static std::string log_str;
+	static thread_local std::string log_str;
 	log_str = efsw::Errors::Log::getLastErrorLog();
 	return log_str.c_str();
 }
-- 
2.43.0

