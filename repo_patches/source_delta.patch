From d1f7762df92fe55d8a2b867452b3a615e13f553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 01/36] fix: join the inotify thread without holding locks on
 destruction

---
 src/efsw/FileWatcherInotify.cpp | 15 ++++-----------
 src/efsw/FileWatcherInotify.hpp |  1 -
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..ef9e075 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -23,7 +23,7 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ), mIsTakingAction( false ) {
+	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -35,17 +35,12 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 
 FileWatcherInotify::~FileWatcherInotify() {
 	mInitOK = false;
-	// There is deadlock when release FileWatcherInotify instance since its handAction
-	// function is still running and hangs in requiring lock without init lock captured.
-	while ( mIsTakingAction ) {
-		// It'd use condition-wait instead of sleep. Actually efsw has no such
-		// implementation so we just skip and sleep while for that to avoid deadlock.
-		usleep( 1000 );
-	};
-	Lock initLock( mInitLock );
 
+	// The thread must be joined before taking any lock: it could be waiting for any of them in
+	// order to finish handling its last event.
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
@@ -567,7 +562,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	if ( !watch || !watch->Listener || !mInitOK ) {
 		return;
 	}
-	mIsTakingAction = true;
 	Lock initLock( mInitLock );
 
 	std::string fpath( watch->Directory + filename );
@@ -636,7 +630,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			}
 		}
 	}
-	mIsTakingAction = false;
 }
 
 std::vector<std::string> FileWatcherInotify::directories() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..f71cd0f 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -60,7 +60,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	bool mIsTakingAction;
 	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
-- 
2.43.0


From 39edaa0aa070adb8534e8e6cee1b45ce594d68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 02/36] fix: guard the shared inotify watch state with its
 locks everywhere

---
 src/efsw/FileWatcherInotify.cpp | 46 +++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index ef9e075..c8b8ed6 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -224,6 +224,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	mWatches.erase( iter );
 
 	if ( NULL == watch->Parent ) {
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
@@ -249,7 +250,6 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 		return;
 	Lock initLock( mInitLock );
 	Lock lock( mWatchesLock );
-	Lock l( mRealWatchesLock );
 
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
@@ -270,6 +270,7 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 }
 
 void FileWatcherInotify::watch() {
+	Lock initLock( mInitLock );
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
@@ -361,6 +362,7 @@ void FileWatcherInotify::run() {
 								// Previous event was moved from and current event is moved from
 								// Treat it as a DELETE or moved outside watches
 								if ( lastWasMovedFrom && currentMoveFrom ) {
+									Lock lock( mWatchesLock );
 									mMovedOutsideWatches.push_back(
 										std::make_pair( currentMoveFrom, prevOldFileName ) );
 								}
@@ -371,6 +373,7 @@ void FileWatcherInotify::run() {
 								/// Keep track of the IN_MOVED_FROM events to know
 								/// if the IN_MOVED_TO event is also fired
 								if ( currentMoveFrom ) {
+									Lock lock( mWatchesLock );
 									if ( std::find_if( mMovedOutsideWatches.begin(),
 													   mMovedOutsideWatches.end(),
 													   [currentMoveFrom](
@@ -408,6 +411,7 @@ void FileWatcherInotify::run() {
 			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
 			// Treat it as a DELETE or moved outside watches
 			if ( lastWasMovedFrom && currentMoveFrom ) {
+				Lock lock( mWatchesLock );
 				mMovedOutsideWatches.push_back(
 					std::make_pair( currentMoveFrom, prevOldFileName ) );
 				currentMoveFrom = NULL;
@@ -418,6 +422,7 @@ void FileWatcherInotify::run() {
 			// Here means no event received
 			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
 			if ( currentMoveFrom ) {
+				Lock lock( mWatchesLock );
 				if ( std::find_if(
 						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
 						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
@@ -437,12 +442,16 @@ void FileWatcherInotify::run() {
 			currentMoveCookie = -1;
 		}
 
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
+		// We need to make a copy since the element mMovedOutsideWatches could be modified
+		// during the iteration.
+		std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches;
 
+		{
+			Lock lock( mWatchesLock );
+			movedOutsideWatches = mMovedOutsideWatches;
+		}
+
+		if ( !movedOutsideWatches.empty() ) {
 			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
 			/// folder
 			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
@@ -450,18 +459,21 @@ void FileWatcherInotify::run() {
 				  it != movedOutsideWatches.end(); ++it ) {
 
 				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
+				{
+					Lock lock( mWatchesLock );
+					if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
+						bool found = false;
+						for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
+								  mMovedOutsideWatches.begin();
+							  mMovedOutsideWatches.end() != itm; ++itm ) {
+							if ( itm->first == it->first ) {
+								found = true;
+								break;
+							}
 						}
+						if ( !found )
+							continue;
 					}
-					if ( !found )
-						continue;
 				}
 
 				Watcher* watch = it->first;
@@ -513,6 +525,7 @@ void FileWatcherInotify::run() {
 				}
 			}
 
+			Lock lock( mWatchesLock );
 			mMovedOutsideWatches.clear();
 		}
 
@@ -594,6 +607,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			FileSystem::dirAddSlashAtEnd( fpath );
 
 			Lock lock( mWatchesLock );
+			Lock l( mRealWatchesLock );
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 				if ( it->second->Directory == opath ) {
-- 
2.43.0


From 6dfb4ac4ba5e330993d7164b061cb29d986c658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 03/36] fix: do not notify nor extend a watch that was already
 removed

---
 src/efsw/FileWatcherInotify.cpp | 41 ++++++++++++++++++++++++++++++++-
 src/efsw/FileWatcherInotify.hpp |  4 ++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index c8b8ed6..6f036de 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -168,6 +168,11 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 					pWatch->Listener->handleFileAction(
 						pWatch->ID, pWatch->Directory,
 						FileSystem::fileNameFromPath( file.second.Filepath ), Actions::Add );
+
+					/// The listener could have removed the watch
+					if ( !isWatchRegistered( pWatch ) ) {
+						return wd;
+					}
 				}
 			}
 		}
@@ -175,7 +180,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo>::iterator it = files.begin();
 
 		for ( ; it != files.end(); ++it ) {
-			if ( !mInitOK )
+			if ( !mInitOK || !isWatchRegistered( pWatch ) )
 				break;
 
 			const FileInfo& cfi = it->second;
@@ -570,6 +575,14 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	}
 }
 
+bool FileWatcherInotify::isWatchRegistered( Watcher* watch ) {
+	Lock lock( mWatchesLock );
+
+	WatchMap::iterator it = mWatches.find( static_cast<WatcherInotify*>( watch )->InotifyID );
+
+	return it != mWatches.end() && it->second == watch;
+}
+
 void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filename,
 									   unsigned long action, const std::string& ) {
 	if ( !watch || !watch->Listener || !mInitOK ) {
@@ -577,6 +590,11 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	}
 	Lock initLock( mInitLock );
 
+	/// The watch could have been removed while waiting for the lock
+	if ( !isWatchRegistered( watch ) ) {
+		return;
+	}
+
 	std::string fpath( watch->Directory + filename );
 
 	if ( IN_Q_OVERFLOW & action ) {
@@ -591,13 +609,26 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Add );
 
+			/// The listener could have removed the watch
+			if ( !isWatchRegistered( watch ) ) {
+				return;
+			}
+
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
 
+			if ( !isWatchRegistered( watch ) ) {
+				return;
+			}
+
 			checkForNewWatcher( watch, fpath );
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
+
+			if ( !isWatchRegistered( watch ) ) {
+				return;
+			}
 		}
 
 		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
@@ -624,12 +655,20 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	} else if ( IN_CREATE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
 
+		if ( !isWatchRegistered( watch ) ) {
+			return;
+		}
+
 		checkForNewWatcher( watch, fpath );
 	} else if ( IN_MOVED_FROM & action ) {
 		watch->OldFileName = filename;
 	} else if ( IN_DELETE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Delete );
 
+		if ( !isWatchRegistered( watch ) ) {
+			return;
+		}
+
 		FileSystem::dirAddSlashAtEnd( fpath );
 
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index f71cd0f..d9bd70d 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -76,6 +76,10 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
+	/// @return If the watch is still registered ( it could be removed by any thread or by the
+	/// listener itself )
+	bool isWatchRegistered( Watcher* watch );
+
 	Watcher* watcherContainsDirectory( std::string dir );
 };
 
-- 
2.43.0


From 2d069353a8e108e1a044053f50ac21bc818b3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 04/36] fix: remove the watches of the subdirectories together
 with any recursive watch

---
 src/efsw/FileWatcherInotify.cpp | 7 ++++---
 src/efsw/FileWatcherInotify.hpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 6f036de..0cbd890 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -195,7 +195,8 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	return wd;
 }
 
-void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRemove ) {
+void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRemove,
+											bool removeChildren ) {
 	WatchMap::iterator iter = mWatches.find( watchid );
 	if ( iter == mWatches.end() )
 		return;
@@ -211,7 +212,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
-	if ( watch->Recursive && NULL == watch->Parent ) {
+	if ( watch->Recursive && removeChildren ) {
 		WatchMap::iterator it = mWatches.begin();
 		std::vector<WatchID> eraseWatches;
 
@@ -221,7 +222,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 		for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
 			  ++eit ) {
-			removeWatch( *eit );
+			removeWatchLocked( *eit, false, false );
 		}
 	}
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index d9bd70d..6012879 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -72,7 +72,8 @@ class FileWatcherInotify : public FileWatcherImpl {
   private:
 	void run();
 
-	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
+	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false,
+							bool removeChildren = true );
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
-- 
2.43.0


From 9b9cee98a4965f4e109820942b9f3b04beb2d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 05/36] fix: forget the pending move of a removed inotify watch

---
 src/efsw/FileWatcherInotify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0cbd890..dfb775e 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -539,6 +539,10 @@ void FileWatcherInotify::run() {
 			Lock lock( mWatchesLock );
 			if ( !mDeletedWatches.empty() ) {
 				for ( auto w : mDeletedWatches ) {
+					/// Forget the pending move if its watch is gone
+					if ( w == currentMoveFrom )
+						currentMoveFrom = NULL;
+
 					efSAFE_DELETE( w );
 				}
 				mDeletedWatches.clear();
-- 
2.43.0


From 2ecbc6680004ffdcf70d6a5cfd63be4a04945605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 06/36] fix: do not lose a pending move when the same watch has
 another one

---
 src/efsw/FileWatcherInotify.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index dfb775e..408e2cc 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -203,14 +203,12 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
-	}
+	mMovedOutsideWatches.erase(
+		std::remove_if( mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
+						[watch]( const std::pair<WatcherInotify*, std::string>& moved ) {
+							return moved.first == watch;
+						} ),
+		mMovedOutsideWatches.end() );
 
 	if ( watch->Recursive && removeChildren ) {
 		WatchMap::iterator it = mWatches.begin();
@@ -382,10 +380,11 @@ void FileWatcherInotify::run() {
 									Lock lock( mWatchesLock );
 									if ( std::find_if( mMovedOutsideWatches.begin(),
 													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
+													   [currentMoveFrom, &prevOldFileName](
 														   const std::pair<WatcherInotify*,
 																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
+														   return moved.first == currentMoveFrom &&
+																  moved.second == prevOldFileName;
 													   } ) == mMovedOutsideWatches.end() ) {
 										mMovedOutsideWatches.push_back(
 											std::make_pair( currentMoveFrom, prevOldFileName ) );
@@ -432,7 +431,8 @@ void FileWatcherInotify::run() {
 				if ( std::find_if(
 						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
 						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
+							 return moved.first == currentMoveFrom &&
+									moved.second == currentMoveFrom->OldFileName;
 						 } ) == mMovedOutsideWatches.end() &&
 					 !currentMoveFrom->OldFileName.empty() ) {
 					mMovedOutsideWatches.push_back(
-- 
2.43.0


From 0f978456da791c9bb575871c87b017abc48ce0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 07/36] fix: do not pair move events of different renames

---
 src/efsw/FileWatcherInotify.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 408e2cc..bf50c95 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -338,6 +338,13 @@ void FileWatcherInotify::run() {
 						}
 
 						if ( curWatcher ) {
+							// A pending old name belongs to another move if the cookies don't match
+							if ( ( pevent->mask & IN_MOVED_TO ) &&
+								 !( currentMoveFrom == curWatcher &&
+									pevent->cookie == currentMoveCookie ) ) {
+								curWatcher->OldFileName = "";
+							}
+
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
 							// Check if this is the destination of a move
-- 
2.43.0


From 5ab589b5589df8fb1b87a79b31efde2ca69eb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 08/36] fix: keep the path index up to date when a watched
 directory is renamed

---
 src/efsw/FileWatcherInotify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index bf50c95..5f07d7d 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -654,11 +654,15 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 				if ( it->second->Directory == opath ) {
+					mWatchesRef.erase( it->second->Directory );
 					it->second->Directory = fpath;
 					it->second->DirInfo = FileInfo( fpath );
+					mWatchesRef[it->second->Directory] = it->first;
 				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+					mWatchesRef.erase( it->second->Directory );
 					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
 					it->second->DirInfo.Filepath = it->second->Directory;
+					mWatchesRef[it->second->Directory] = it->first;
 				}
 			}
 		}
-- 
2.43.0


From fe0ad8b58c77c39b36073b2d17ac4206c94d8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 09/36] fix: wait with poll, the inotify descriptor can exceed
 FD_SETSIZE

---
 src/efsw/FileWatcherInotify.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 5f07d7d..5b26ec2 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -5,10 +5,10 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
-#include <sys/select.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -307,14 +307,13 @@ void FileWatcherInotify::run() {
 	std::string prevOldFileName;
 
 	do {
-		fd_set rfds;
-		FD_ZERO( &rfds );
-		FD_SET( mFD, &rfds );
-		timeval timeout;
-		timeout.tv_sec = 0;
-		timeout.tv_usec = 100000;
-
-		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
+		// The descriptor could be bigger than what select supports ( FD_SETSIZE )
+		struct pollfd pfd;
+		pfd.fd = mFD;
+		pfd.events = POLLIN;
+		pfd.revents = 0;
+
+		if ( poll( &pfd, 1, 100 ) > 0 ) {
 			ssize_t len;
 
 			len = read( mFD, buff, BUFF_SIZE );
-- 
2.43.0


From 0a6512732fe806cd9f3f03e95ade57ea988e545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 10/36] fix: notify the missed file actions when the inotify
 queue overflows

---
 src/efsw/FileWatcherInotify.cpp | 17 +++++++++++++++++
 src/efsw/FileWatcherInotify.hpp |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 5b26ec2..fdc91cf 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -327,6 +327,9 @@ void FileWatcherInotify::run() {
 					{
 						curWatcher = NULL;
 
+						if ( pevent->mask & IN_Q_OVERFLOW )
+							handleQueueOverflow();
+
 						{
 							Lock lock( mWatchesLock );
 
@@ -586,6 +589,20 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	}
 }
 
+void FileWatcherInotify::handleQueueOverflow() {
+	std::vector<WatcherInotify*> watches;
+
+	{
+		Lock l( mRealWatchesLock );
+
+		for ( WatchMap::iterator it = mRealWatches.begin(); it != mRealWatches.end(); ++it )
+			watches.push_back( it->second );
+	}
+
+	for ( auto watch : watches )
+		handleAction( watch, "", IN_Q_OVERFLOW );
+}
+
 bool FileWatcherInotify::isWatchRegistered( Watcher* watch ) {
 	Lock lock( mWatchesLock );
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 6012879..42a78cd 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -77,6 +77,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
+	/// Reports to all the listeners that some events were lost
+	void handleQueueOverflow();
+
 	/// @return If the watch is still registered ( it could be removed by any thread or by the
 	/// listener itself )
 	bool isWatchRegistered( Watcher* watch );
-- 
2.43.0


From d74479057098f7498d50f38e7ada418ec3139b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 11/36] fix: access the generic watcher list only with its lock
 taken

---
 src/efsw/FileWatcherGeneric.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..c492008 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -38,6 +38,8 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	FileInfo fi( dir );
 
+	Lock lock( mWatchesLock );
+
 	if ( !fi.isDirectory() ) {
 		return Errors::Log::createLastError( Errors::FileNotFound, dir );
 	} else if ( !fi.isReadable() ) {
@@ -63,7 +65,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,14 +74,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -91,14 +92,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -109,6 +110,8 @@ void FileWatcherGeneric::removeWatch( WatchID watchid ) {
 }
 
 void FileWatcherGeneric::watch() {
+	Lock lock( mWatchesLock );
+
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
@@ -154,6 +157,8 @@ std::vector<std::string> FileWatcherGeneric::directories() {
 }
 
 bool FileWatcherGeneric::pathInWatches( const std::string& path ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
-- 
2.43.0


From 5d520214eb776c2f8bce1f3e2145786437d1169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 12/36] fix: let the listeners add and remove watches in the
 generic watcher

---
 src/efsw/DirWatcherGeneric.cpp  |  7 ++++++-
 src/efsw/FileWatcherGeneric.cpp | 34 ++++++++++++++++++++++++++++-----
 src/efsw/FileWatcherGeneric.hpp |  8 ++++++++
 3 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..0e33027 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -86,6 +86,11 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 
 void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long action,
 									  const std::string& oldFilename ) {
+	/// The watch was removed by its listener
+	if ( NULL == Watch->Listener ) {
+		return;
+	}
+
 	Watch->Listener->handleFileAction( Watch->ID, DirSnap.DirectoryInfo.Filepath,
 									   FileSystem::fileNameFromPath( filename ), (Action)action,
 									   oldFilename );
@@ -142,7 +147,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
-	if ( reportOwnChange && Diff.DirChanged && NULL != Parent ) {
+	if ( reportOwnChange && Diff.DirChanged && NULL != Parent && NULL != Watch->Listener ) {
 		Watch->Listener->handleFileAction(
 			Watch->ID, FileSystem::pathRemoveFileName( DirSnap.DirectoryInfo.Filepath ),
 			FileSystem::fileNameFromPath( DirSnap.DirectoryInfo.Filepath ), Actions::Modified );
diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index c492008..7392ed8 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -84,7 +84,7 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			releaseWatch( watch );
 
 			return;
 		}
@@ -102,13 +102,23 @@ void FileWatcherGeneric::removeWatch( WatchID watchid ) {
 
 			mWatches.erase( it );
 
-			efSAFE_DELETE( watch );
+			releaseWatch( watch );
 
 			return;
 		}
 	}
 }
 
+void FileWatcherGeneric::releaseWatch( WatcherGeneric* watch ) {
+	if ( mPolling ) {
+		/// Called from a listener, the watch could be in use: silence it and delete it later
+		watch->Listener = NULL;
+		mDeletedWatches.push_back( watch );
+	} else {
+		efSAFE_DELETE( watch );
+	}
+}
+
 void FileWatcherGeneric::watch() {
 	Lock lock( mWatchesLock );
 
@@ -123,11 +133,25 @@ void FileWatcherGeneric::run() {
 		{
 			Lock lock( mWatchesLock );
 
-			WatchList::iterator it = mWatches.begin();
+			/// The listeners can add and remove watches while iterating
+			WatchList watches( mWatches );
+
+			mPolling = true;
 
-			for ( ; it != mWatches.end(); ++it ) {
-				( *it )->watch();
+			for ( WatchList::iterator it = watches.begin(); it != watches.end(); ++it ) {
+				if ( NULL != ( *it )->Listener ) {
+					( *it )->watch();
+				}
 			}
+
+			mPolling = false;
+
+			for ( WatchList::iterator it = mDeletedWatches.begin(); it != mDeletedWatches.end();
+				  ++it ) {
+				efSAFE_DELETE( ( *it ) );
+			}
+
+			mDeletedWatches.clear();
 		}
 
 		if ( mInitOK )
diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index f70f512..b86d776 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -52,12 +52,20 @@ class FileWatcherGeneric : public FileWatcherImpl {
 
 	Mutex mWatchesLock;
 
+	/// Watches removed by the listeners while polling, waiting to be deleted
+	WatchList mDeletedWatches;
+
+	/// True while the worker thread is looking for changes ( with mWatchesLock taken )
+	bool mPolling{ false };
+
 	int mPollingFreq{ 1000 };
 
 	bool pathInWatches( const std::string& path ) override;
 
   private:
 	void run();
+
+	void releaseWatch( WatcherGeneric* watch );
 };
 
 } // namespace efsw
-- 
2.43.0


From dcd27f26b60e876866f2e7073054b519c6174148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 13/36] fix: do not watch new subfolders in non-recursive
 generic watches

---
 src/efsw/DirWatcherGeneric.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 0e33027..f80a44c 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -315,6 +315,11 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	if ( !skip ) {
 		handleAction( newdir, Actions::Add );
 
+		/// The contents of the subfolders are only reported by the recursive watches
+		if ( !Recursive ) {
+			return NULL;
+		}
+
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
 
-- 
2.43.0


From e80e8a25ca8c165f9d8cca171f3c6661abf59335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 14/36] fix: report the files already in a new folder in the
 generic watcher

---
 src/efsw/DirWatcherGeneric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index f80a44c..6cc802c 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -321,7 +321,7 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 		}
 
 		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
+		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
 		dw->addChildren();
 
-- 
2.43.0


From 6653dd508ad62f45fcf3df4be22935b42dec5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 15/36] fix: do not report a hard link as a moved file

---
 src/efsw/DirectorySnapshot.cpp | 8 +++++---
 src/efsw/DirectorySnapshot.hpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..da16827 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -126,7 +126,7 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 			std::string oldFile = "";
 
 			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
+			if ( ( fit = nodeInFiles( fi, files ) ) != Files.end() ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
@@ -171,12 +171,14 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	return Diff;
 }
 
-FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
+FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi, const FileInfoMap& current ) {
 	FileInfoMap::iterator it;
 
 	if ( FileInfo::inodeSupported() ) {
 		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+			/// A name that is still there wasn't moved, it's another link to the same file
+			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath &&
+				 current.find( it->first ) == current.end() ) {
 				return it;
 			}
 		}
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..2935079 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,7 +24,7 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
-	FileInfoMap::iterator nodeInFiles( FileInfo& fi );
+	FileInfoMap::iterator nodeInFiles( FileInfo& fi, const FileInfoMap& current );
 
 	void addFile( std::string path );
 
-- 
2.43.0


From 60f61a12c4e05584c2cfaf5c1b81aaf1f306d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 16/36] fix: detect deletions that do not change the
 modification time of the folder

---
 src/efsw/DirectorySnapshot.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index da16827..ff1781f 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -90,9 +90,7 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	FileInfoMap::iterator it;
 	FileInfoMap::iterator fiIt;
 
-	if ( Diff.DirChanged ) {
-		FilesCpy = Files;
-	}
+	FilesCpy = Files;
 
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
@@ -150,14 +148,15 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		}
 	}
 
-	if ( !Diff.DirChanged ) {
-		return Diff;
-	}
-
 	/// The files or directories that remains were deleted
 	for ( it = FilesCpy.begin(); it != FilesCpy.end(); it++ ) {
 		fi = it->second;
 
+		/// The modification time of the directory isn't precise enough to notice every deletion
+		if ( !Diff.DirChanged && fi.exists() ) {
+			continue;
+		}
+
 		if ( fi.isDirectory() ) {
 			Diff.DirsDeleted.push_back( fi );
 		} else {
-- 
2.43.0


From 048bf3122458e44cca481a5fd412876cc6d03cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 17/36] fix: store the code of the last error and describe
 unreadable files

---
 src/efsw/Log.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..8208c30 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -20,6 +20,8 @@ void Log::clearLastError() {
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	LastErrorCode = err;
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
@@ -30,6 +32,9 @@ Error Log::createLastError( Error err, std::string log ) {
 		case FileOutOfScope:
 			LastError = "Symlink file out of scope ( " + log + " )";
 			break;
+		case FileNotReadable:
+			LastError = "File not readable ( " + log + " )";
+			break;
 		case FileRemote:
 			LastError =
 				"File is located in a remote file system, use a generic watcher. ( " + log + " )";
-- 
2.43.0


From 488c781bb382f471f1616cf66b2f527d21da74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 18/36] fix: make the last error safe to be used from several
 threads

---
 src/efsw/FileWatcherCWrapper.cpp | 2 +-
 src/efsw/Log.cpp                 | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..c89107f 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -71,7 +71,7 @@ void efsw_release( efsw_watcher watcher ) {
 }
 
 const char* efsw_getlasterror() {
-	static std::string log_str;
+	static thread_local std::string log_str;
 	log_str = efsw::Errors::Log::getLastErrorLog();
 	return log_str.c_str();
 }
diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 8208c30..1562285 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -1,25 +1,31 @@
 #include <efsw/efsw.hpp>
 #include <efsw/Debug.hpp>
+#include <efsw/Lock.hpp>
 
 namespace efsw { namespace Errors {
 
 static std::string LastError = "";
 static Error LastErrorCode = NoError;
+static Mutex LastErrorMutex;
 
 std::string Log::getLastErrorLog() {
+	Lock lock( LastErrorMutex );
 	return LastError;
 }
 
 Error Log::getLastErrorCode() {
+	Lock lock( LastErrorMutex );
 	return LastErrorCode;
 }
 
 void Log::clearLastError() {
+	Lock lock( LastErrorMutex );
 	LastErrorCode = NoError;
 	LastError = "";
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	Lock lock( LastErrorMutex );
 	LastErrorCode = err;
 
 	switch ( err ) {
-- 
2.43.0


From 49d4ff1cfdecae5645c8fac3dd0961c5235a594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 19/36] fix: release the C callbacks of a watcher after it, and
 all of them

---
 src/efsw/FileWatcherCWrapper.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index c89107f..7dcd8f4 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -49,14 +49,15 @@ Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback
 	return NULL;
 }
 
-void remove_callback( efsw_watcher watcher ) {
+void remove_callbacks( efsw_watcher watcher ) {
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
-		Watcher_CAPI* callback = *found;
-		delete callback;
-		g_callbacks.erase( found );
+	for ( auto it = g_callbacks.begin(); it != g_callbacks.end(); ) {
+		if ( ( *it )->mWatcher == watcher ) {
+			delete *it;
+			it = g_callbacks.erase( it );
+		} else {
+			++it;
+		}
 	}
 }
 
@@ -66,8 +67,9 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
-	remove_callback( watcher );
+	/// The watcher thread uses the callbacks until the watcher is deleted
 	delete (efsw::FileWatcher*)watcher;
+	remove_callbacks( watcher );
 }
 
 const char* efsw_getlasterror() {
-- 
2.43.0


From d19e8429c3448db6b8cc2abbdbdf8ff0e23a1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 20/36] fix: do not share a C callback registered with another
 missed actions handler

---
 src/efsw/FileWatcherCWrapper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 7dcd8f4..a5337b8 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -40,10 +40,12 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	efsw::Lock l( g_callbacksMutex );
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher &&
+			 callback->mParam == param && callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
@@ -93,7 +95,7 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
 
 	if ( callback == NULL ) {
 		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
-- 
2.43.0


From fb93b167dacae9530f7d27592d841d6be1303524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 21/36] fix: do not use the results of failed system calls

---
 src/efsw/FileSystem.cpp                    | 4 ++--
 src/efsw/platform/posix/FileSystemImpl.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index d17f00c..e372c9f 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -150,8 +150,8 @@ std::string FileSystem::getRealPath( const std::string& path ) {
 	std::string realPath;
 #if defined( EFSW_PLATFORM_POSIX )
 	char dir[PATH_MAX];
-	realpath( path.c_str(), &dir[0] );
-	realPath = std::string( dir );
+	if ( NULL != realpath( path.c_str(), &dir[0] ) )
+		realPath = std::string( dir );
 #elif EFSW_OS == EFSW_OS_WIN
 	wchar_t dir[_MAX_PATH + 1];
 	GetFullPathNameW( getWidePath( path ).c_str(), _MAX_PATH, &dir[0], nullptr );
diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..5c22f61 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -65,7 +65,8 @@ std::string findMountPoint( std::string file ) {
 	struct stat last_stat;
 	struct stat file_stat;
 
-	stat( file.c_str(), &file_stat );
+	if ( stat( file.c_str(), &file_stat ) < 0 )
+		return "";
 
 	std::string mp;
 
@@ -204,7 +205,9 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( 0 != statfs( directory.c_str(), &statfsbuf ) ) {
+		return false;
+	}
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From 403d0c6c861e726ffcdac0c8e0ceac09309a9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 22/36] fix: always restore the working directory after finding
 a mount point

---
 src/efsw/platform/posix/FileSystemImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 5c22f61..307dffc 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -62,6 +62,11 @@ namespace efsw { namespace Platform {
 
 std::string findMountPoint( std::string file ) {
 	std::string cwd = FileSystem::getCurrentWorkingDirectory();
+
+	/// Without it the working directory could not be restored
+	if ( cwd.empty() )
+		return "";
+
 	struct stat last_stat;
 	struct stat file_stat;
 
@@ -82,7 +87,7 @@ std::string findMountPoint( std::string file ) {
 			return "";
 
 		if ( stat( ".", &last_stat ) < 0 )
-			return "";
+			goto done;
 	}
 
 	while ( true ) {
-- 
2.43.0


From 97e8534d9bde7ef210923b029c52b3646dd5c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 23/36] fix: initialize the file size, it is compared even if
 the file does not exist

---
 src/efsw/FileInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..2600ddf 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -56,11 +56,12 @@ bool FileInfo::inodeSupported() {
 }
 
 FileInfo::FileInfo() :
-	ModificationTime( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
+	ModificationTime( 0 ), Size( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
 
 FileInfo::FileInfo( const std::string& filepath ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
@@ -71,6 +72,7 @@ FileInfo::FileInfo( const std::string& filepath ) :
 FileInfo::FileInfo( const std::string& filepath, bool linkInfo ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
-- 
2.43.0


From b6d79f5addd033627f0eaa1a10776a82d67c909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 24/36] fix: destroy the mutex used to sleep

---
 src/efsw/platform/posix/SystemImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/efsw/platform/posix/SystemImpl.cpp b/src/efsw/platform/posix/SystemImpl.cpp
index 37d4120..65dbdfc 100644
--- a/src/efsw/platform/posix/SystemImpl.cpp
+++ b/src/efsw/platform/posix/SystemImpl.cpp
@@ -62,6 +62,7 @@ void System::sleep( const unsigned long& ms ) {
 
 	// destroy the mutex and condition
 	pthread_cond_destroy( &condition );
+	pthread_mutex_destroy( &mutex );
 }
 
 std::string System::getProcessPath() {
-- 
2.43.0


From 92cd7d3ebfcc7b06a4ee91661bf253baa2bbeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 25/36] fix: do not race on the flag of the descriptor limit
 when creating watchers

---
 src/efsw/platform/posix/SystemImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/platform/posix/SystemImpl.cpp b/src/efsw/platform/posix/SystemImpl.cpp
index 65dbdfc..b655942 100644
--- a/src/efsw/platform/posix/SystemImpl.cpp
+++ b/src/efsw/platform/posix/SystemImpl.cpp
@@ -2,6 +2,7 @@
 
 #if defined( EFSW_PLATFORM_POSIX )
 
+#include <atomic>
 #include <cstdio>
 #include <limits.h>
 #include <pthread.h>
@@ -136,7 +137,7 @@ std::string System::getProcessPath() {
 }
 
 void System::maxFD() {
-	static bool maxed = false;
+	static std::atomic<bool> maxed( false );
 
 	if ( !maxed ) {
 		struct rlimit limit;
-- 
2.43.0


From 8034aa9f0b391d667814ade0b814934369d72797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 26/36] fix: do not use the descriptor limit if it could not be
 read

---
 src/efsw/platform/posix/SystemImpl.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/efsw/platform/posix/SystemImpl.cpp b/src/efsw/platform/posix/SystemImpl.cpp
index b655942..0fa6615 100644
--- a/src/efsw/platform/posix/SystemImpl.cpp
+++ b/src/efsw/platform/posix/SystemImpl.cpp
@@ -141,13 +141,13 @@ void System::maxFD() {
 
 	if ( !maxed ) {
 		struct rlimit limit;
-		getrlimit( RLIMIT_NOFILE, &limit );
-		limit.rlim_cur = limit.rlim_max;
-		setrlimit( RLIMIT_NOFILE, &limit );
 
-		getrlimit( RLIMIT_NOFILE, &limit );
+		if ( 0 == getrlimit( RLIMIT_NOFILE, &limit ) ) {
+			limit.rlim_cur = limit.rlim_max;
+			setrlimit( RLIMIT_NOFILE, &limit );
 
-		efDEBUG( "File descriptor limit %ld\n", limit.rlim_cur );
+			efDEBUG( "File descriptor limit %ld\n", limit.rlim_cur );
+		}
 
 		maxed = true;
 	}
@@ -158,8 +158,10 @@ Uint64 System::getMaxFD() {
 
 	if ( max_fd == 0 ) {
 		struct rlimit limit;
-		getrlimit( RLIMIT_NOFILE, &limit );
-		max_fd = limit.rlim_cur;
+
+		if ( 0 == getrlimit( RLIMIT_NOFILE, &limit ) ) {
+			max_fd = limit.rlim_cur;
+		}
 	}
 
 	return max_fd;
-- 
2.43.0


From 76b1c7be94dae48732a5449b9c7e914e168653b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 27/36] fix: do not lose a pending rename behind a notification
 of an unknown watch

---
 src/efsw/FileWatcherInotify.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index fdc91cf..cdc537f 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -303,7 +303,6 @@ void FileWatcherInotify::run() {
 	WatcherInotify* curWatcher = NULL;
 	WatcherInotify* currentMoveFrom = NULL;
 	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
 	std::string prevOldFileName;
 
 	do {
@@ -372,9 +371,9 @@ void FileWatcherInotify::run() {
 								currentMoveFrom = NULL;
 								currentMoveCookie = -1;
 							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
+								// There is a pending moved from and current event is moved from
 								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
+								if ( currentMoveFrom ) {
 									Lock lock( mWatchesLock );
 									mMovedOutsideWatches.push_back(
 										std::make_pair( currentMoveFrom, prevOldFileName ) );
@@ -382,6 +381,7 @@ void FileWatcherInotify::run() {
 
 								currentMoveFrom = curWatcher;
 								currentMoveCookie = pevent->cookie;
+								prevOldFileName = std::string( (char*)pevent->name );
 							} else {
 								/// Keep track of the IN_MOVED_FROM events to know
 								/// if the IN_MOVED_TO event is also fired
@@ -412,24 +412,19 @@ void FileWatcherInotify::run() {
 								currentMoveCookie = -1;
 							}
 						}
-
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
 				}
 			}
 
-			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
+			// If there is still a pending IN_MOVED_FROM we didn't generate any event for that one
 			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
+			if ( currentMoveFrom ) {
 				Lock lock( mWatchesLock );
 				mMovedOutsideWatches.push_back(
 					std::make_pair( currentMoveFrom, prevOldFileName ) );
 				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
 				prevOldFileName.clear();
 			}
 		} else {
-- 
2.43.0


From f4f3c4864a9e98510cb7711210494ae83ad527e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 28/36] fix: report the departure of a directory that holds
 another watch

---
 src/efsw/FileWatcherInotify.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index cdc537f..0978770 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -518,21 +518,24 @@ void FileWatcherInotify::run() {
 									  return left->Directory < right->Directory;
 								  } );
 
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
+				const std::string movedDir( watch->Directory + oldFileName + "/" );
+
+				for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+					  eit != eraseWatches.rend(); ++eit ) {
+					Watcher* rmWatch = *eit;
+
+					/// The moved directory itself is reported below
+					if ( rmWatch->Directory == movedDir )
+						continue;
+
+					/// Create Delete event for removed watches that have been moved too
+					if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+						handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
+									  IN_DELETE );
 					}
 				}
+
+				handleAction( watch, oldFileName, IN_DELETE );
 			}
 
 			Lock lock( mWatchesLock );
-- 
2.43.0


From 6b592d7b1db47f116c91d1d948a30ad88bbdfe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 29/36] fix: keep the separator of the root directory, so that
 it can be watched

---
 src/efsw/FileSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index e372c9f..fd13fa2 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -46,7 +46,8 @@ void FileSystem::dirAddSlashAtEnd( std::string& dir ) {
 }
 
 void FileSystem::dirRemoveSlashAtEnd( std::string& dir ) {
-	if ( dir.size() >= 1 && dir[dir.size() - 1] == getOSSlash() ) {
+	/// The root directory is the separator itself
+	if ( dir.size() > 1 && dir[dir.size() - 1] == getOSSlash() ) {
 		dir.erase( dir.size() - 1 );
 	}
 }
-- 
2.43.0


From 09c3ed881cf2fbbcd5175d7b090bf9b10237be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 30/36] fix: polled entries replaced by a directory or by a
 file

A file replaced by a directory of the same name between two polls was reported
as modified: the new directory was never watched and its contents were never
reported. It's now a deletion and a creation, and the other way around.
---
 src/efsw/DirWatcherGeneric.cpp | 13 +++++++------
 src/efsw/DirectorySnapshot.cpp | 12 +++++++++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 6cc802c..ee13dbd 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -31,7 +31,7 @@ DirWatcherGeneric::~DirWatcherGeneric() {
 	if ( Deleted ) {
 		DirectorySnapshotDiff Diff = DirSnap.scan();
 
-		if ( !DirSnap.exists() ) {
+		if ( !DirSnap.exists() || !DirSnap.DirectoryInfo.isDirectory() ) {
 			FileInfoList::iterator it;
 
 			DiffIterator( FilesDeleted ) {
@@ -157,6 +157,12 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		FileInfoList::iterator it;
 		MovedList::iterator mit;
 
+		/// The deleted directories go first, a file could be already using the same name
+		DiffIterator( DirsDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
+			removeDirectory( ( *it ).Filepath );
+		}
+
 		/// Files
 		DiffIterator( FilesCreated ) {
 			handleAction( ( *it ).Filepath, Actions::Add );
@@ -183,11 +189,6 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 
-		DiffIterator( DirsDeleted ) {
-			handleAction( ( *it ).Filepath, Actions::Delete );
-			removeDirectory( ( *it ).Filepath );
-		}
-
 		DiffMovedIterator( DirsMoved ) {
 			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index ff1781f..d648e32 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -104,11 +104,21 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 
 			/// File changed?
 			if ( ( *fiIt ).second != fi ) {
+				FileInfo oldFI( ( *fiIt ).second );
+
 				/// Update the new file info
 				Files[it->first] = fi;
 
+				/// A directory replaced by a file or the other way around isn't a modification
+				if ( oldFI.isDirectory() && fi.isRegularFile() ) {
+					Diff.DirsDeleted.push_back( oldFI );
+					Diff.FilesCreated.push_back( fi );
+				} else if ( !oldFI.isDirectory() && fi.isDirectory() ) {
+					Diff.FilesDeleted.push_back( oldFI );
+					Diff.DirsCreated.push_back( fi );
+				}
 				/// handle modified event
-				if ( fi.isDirectory() ) {
+				else if ( fi.isDirectory() ) {
 					Diff.DirsModified.push_back( fi );
 				} else {
 					Diff.FilesModified.push_back( fi );
-- 
2.43.0


From 838368764bc8643118470d22afcb797ab7e7d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 31/36] fix: polled directory tree stays consistent while it is
 deleted

The destructor of a polled directory reports the deletions of its contents.
A listener that called addWatch from there found the children already deleted
in the map of their parent as null pointers.
---
 src/efsw/DirWatcherGeneric.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index ee13dbd..f5b952a 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -44,15 +44,18 @@ DirWatcherGeneric::~DirWatcherGeneric() {
 		}
 	}
 
-	DirWatchMap::iterator it = Directories.begin();
+	/// The listeners can look for a path in the watches while the directories are being deleted
+	while ( !Directories.empty() ) {
+		DirWatcherGeneric* dir = Directories.begin()->second;
+
+		Directories.erase( Directories.begin() );
 
-	for ( ; it != Directories.end(); ++it ) {
 		if ( Deleted ) {
 			/// If the directory was deleted, mark the flag for file deletion
-			it->second->Deleted = true;
+			dir->Deleted = true;
 		}
 
-		efSAFE_DELETE( it->second );
+		efSAFE_DELETE( dir );
 	}
 }
 
-- 
2.43.0


From 54a0332acd45df5d955fa1506584dc61c27d54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 32/36] fix: linked directories found by addChildren are known
 by their name

They were registered under the path of their target: the deletion or the rename
of the link didn't find them, so the target was watched forever, and they were
reported with the name of the target.
---
 src/efsw/DirWatcherGeneric.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index f5b952a..c8a5ba9 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -80,10 +80,16 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 		}
 	}
 
+	std::string oldDir( DirSnap.DirectoryInfo.Filepath );
+
 	DirSnap.setDirectoryInfo( dir );
 
 	for ( auto& child : Directories ) {
-		child.second->resetDirectory( child.first );
+		/// The target of a link doesn't move with it
+		if ( child.second->DirSnap.DirectoryInfo.Filepath.compare( 0, oldDir.size(), oldDir ) ==
+			 0 ) {
+			child.second->resetDirectory( child.first );
+		}
 	}
 }
 
@@ -111,7 +117,8 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 				std::string curPath;
 				std::string link( FileSystem::getLinkRealPath( it->second.Filepath, curPath ) );
 
-				dir = it->first;
+				std::string name( it->first );
+				dir = name;
 
 				if ( "" != link ) {
 					/// Avoid adding symlinks directories if it's now enabled
@@ -135,13 +142,14 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 				}
 
 				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
+					handleAction( name, Actions::Add );
 				}
 
-				Directories[dir] =
+				/// Linked directories are also known by the name of the link
+				Directories[name] =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
-				Directories[dir]->addChildren( reportNewFiles );
+				Directories[name]->addChildren( reportNewFiles );
 			}
 		}
 	}
-- 
2.43.0


From fa5531010202872c6f81235458904709c68a550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 33/36] fix: new directories found by a poll are always
 reported

Unreadable, remote, linked or already watched directories were reported when
deleted, modified or moved but never when created.
---
 src/efsw/DirWatcherGeneric.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index c8a5ba9..6ec8a7c 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -111,6 +111,11 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 		std::string dir;
 
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
+			/// New directories are reported even if they can't be watched
+			if ( reportNewFiles && it->second.isDirectory() ) {
+				handleAction( it->first, Actions::Add );
+			}
+
 			if ( it->second.isDirectory() && it->second.isReadable() &&
 				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
 				/// Check if the directory is a symbolic link
@@ -141,10 +146,6 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					}
 				}
 
-				if ( reportNewFiles ) {
-					handleAction( name, Actions::Add );
-				}
-
 				/// Linked directories are also known by the name of the link
 				Directories[name] =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
@@ -285,6 +286,14 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
 
+	/// New directories are reported even if they can't be watched
+	handleAction( newdir, Actions::Add );
+
+	/// The contents of the subfolders are only reported by the recursive watches
+	if ( !Recursive ) {
+		return NULL;
+	}
+
 	DirWatcherGeneric* dw = NULL;
 
 	/// Check if the directory is a symbolic link
@@ -325,13 +334,6 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	}
 
 	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
-
-		/// The contents of the subfolders are only reported by the recursive watches
-		if ( !Recursive ) {
-			return NULL;
-		}
-
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
-- 
2.43.0


From e832a40235273219ed55f0119bf0c09cbf258b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 34/36] fix: follow every rename of a watched directory, even
 if it was renamed again

---
 src/efsw/FileWatcherInotify.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0978770..d8728c9 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -657,7 +657,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			}
 		}
 
-		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
+		/// The directory could have been renamed again already, its watches must follow each rename
+		if ( watch->Recursive && ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
 			/// Update the new directory path
 			std::string opath( watch->Directory + watch->OldFileName );
 			FileSystem::dirAddSlashAtEnd( opath );
-- 
2.43.0


From c1afe971954c3ab6cd832e40af8e93c87162d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 35/36] fix: watch a new directory that was renamed before it
 was watched

---
 src/efsw/FileWatcherInotify.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index d8728c9..bee01b8 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -682,6 +682,11 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			}
 		}
 
+		/// The directory could have been renamed before it was watched
+		if ( ( IN_ISDIR & action ) && !watch->OldFileName.empty() ) {
+			checkForNewWatcher( watch, fpath );
+		}
+
 		watch->OldFileName = "";
 	} else if ( IN_CREATE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
-- 
2.43.0


From 626d0a136c6fcffb2a99184e1e50647f439eba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 36/36] fix: forget the watches dropped by the system, another
 directory could have taken their place

---
 src/efsw/FileWatcherInotify.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index bee01b8..f52f2af 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -224,7 +224,11 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
-	mWatchesRef.erase( watch->Directory );
+	/// The path could already belong to the watch of the directory that replaced this one
+	std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( watch->Directory );
+	if ( ref != mWatchesRef.end() && ref->second == watchid )
+		mWatchesRef.erase( ref );
+
 	mWatches.erase( iter );
 
 	if ( NULL == watch->Parent ) {
@@ -718,6 +722,19 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				}
 			}
 		}
+	} else if ( ( IN_IGNORED & action ) &&
+				NULL != static_cast<WatcherInotify*>( watch )->Parent ) {
+		/// The directory is gone, but another one could have taken its place
+		fpath = watch->Directory;
+
+		{
+			Lock l( mWatchesLock );
+			removeWatchLocked( static_cast<WatcherInotify*>( watch )->InotifyID, true );
+		}
+
+		if ( Watcher* parent = watcherContainsDirectory( fpath ) ) {
+			checkForNewWatcher( parent, fpath );
+		}
 	}
 }
 
-- 
2.43.0

