From 753f945adafce4f21acd14e6d4b8b0b49c290411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 01/48] fix: clean up package metadata leftovers in the target
 root, not in /

---
 src/file_utils.cxx | 12 ++++++------
 src/pkgdbh.cxx     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6804a35..641275e 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -178,37 +178,37 @@ void cleanupMetaFiles(const std::string& basedir)
 #ifdef DEBUG
 		std::cerr << basedir << "/.INFO removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.INFO");
+		remove ( (basedir + "/.INFO").c_str() );
 	}
 	if ( checkFileExist( basedir + "/.META") ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.META removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.META");
+		remove ( (basedir + "/.META").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.PRE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.PRE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.PRE");
+		remove ( (basedir + "/.PRE").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.POST" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.POST removed" << std::endl;
 #endif
-		removeFile ( basedir , "/.POST");
+		remove ( (basedir + "/.POST").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.MTREE");
+		remove ( (basedir + "/.MTREE").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.README" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.README removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.README");
+		remove ( (basedir + "/.README").c_str() );
 	}
 }
 void removeFile(const std::string& basedir, const std::string& filename)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6dc0352..cf0386a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -662,7 +662,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		}
 	for (auto i : metaFilesList)
 		info.files.erase(i);
-	removeFile (m_root, "/.MTREE");
+	remove ((m_root + "/.MTREE").c_str());
 	if (checkFileExist(m_root + PKG_PRE_REMOVE))
 		metaFilesList.insert(PKG_PRE_REMOVE);
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
-- 
2.43.0


From 804183b8115e202d2edf23eea6566aae1858b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 02/48] fix: keep the alternate root absolute so a relative -r
 root works

---
 src/install.cxx |  3 +--
 src/pkgadd.cxx  |  2 +-
 src/pkgdbh.cxx  | 15 ++++++++++++++-
 src/pkgdbh.h    |  2 ++
 src/pkginfo.cxx |  2 +-
 src/remove.cxx  |  3 +--
 src/upgrade.cxx |  2 +-
 7 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/install.cxx b/src/install.cxx
index abb288d..90d10fa 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -101,8 +101,7 @@ install::install(const CardsArgumentParser& argParser,
 void install::parseArguments()
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
-			+ m_root;
+		setRoot(m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT));
 
 	if (getuid()) {
 		m_actualError = cards::ERROR_ENUM_ONLY_ROOT_CAN_INSTALL_UPGRADE_REMOVE;
diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ca29ed5..008e38e 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -23,7 +23,7 @@ void pkgadd::parseArguments(int argc, char** argv)
 		std::string option(argv[i]);
 		if (option == "-r" || option == "--root") {
 			assertArgument(argv, argc, i);
-			m_root = argv[i + 1] + m_root;
+			setRoot(argv[i + 1]);
 			i++;
 		} else if (option == "-i" || option == "--ignore") {
 			m_runPrePost = false;
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index cf0386a..6189f46 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -38,7 +38,7 @@ void pkgdbh::parseArguments(int argc, char** argv)
 		std::string option(argv[i]);
 		if (option == "-r" || option == "--root") {
 			assertArgument(argv, argc, i);
-			m_root = argv[i + 1] + m_root;
+			setRoot(argv[i + 1]);
 			i++;
 		} else if (option == "-p" || option == "--progress") {
 			m_progress = true;
@@ -52,6 +52,19 @@ void pkgdbh::parseArguments(int argc, char** argv)
 	// Retrieve info about all the packages
 	buildDatabase(true);
 }
+// The root is kept as an absolute path: installing changes the current directory
+void pkgdbh::setRoot(const std::string& root)
+{
+	m_root = root + "/";
+	if (m_root[0] != '/') {
+		char buf[PATH_MAX];
+		if (getcwd(buf, sizeof(buf)) == NULL) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_DIRECTORY;
+			treatErrors(root);
+		}
+		m_root = std::string(buf) + "/" + m_root;
+	}
+}
 void pkgdbh::run(int argc, char** argv)
 {
 	parseArguments(argc,argv);
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 28fd85e..b132c1d 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -86,6 +86,8 @@ protected:
     void                    getInstallRulesList(const std::vector<rule_t>& rules,
                                 cards::rule_event_t event, std::vector<rule_t>& found) const;
 
+    void                    setRoot(const std::string& root);
+
     bool                    checkRuleAppliesToFile(const rule_t& rule,
                                 const std::string& file);
 
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index d71f7f0..6a64875 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -45,7 +45,7 @@ void pkginfo::parseArguments(int argc, char** argv)
         std::string option(argv[i]);
         if (option == "-r" || option == "--root") {
             assertArgument(argv, argc, i);
-            m_root = argv[i + 1] + m_root;
+            setRoot(argv[i + 1]);
             i++;
         } else if (option == "-i" || option == "--installed") {
             m_installed_mode += 1;
diff --git a/src/remove.cxx b/src/remove.cxx
index 9f9f333..9a57981 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -10,8 +10,7 @@ remove::remove(const std::string& commandName,
 	: pkgrm(commandName),m_argParser(argParser)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
-			+ m_root;
+		setRoot(m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT));
 
 	m_progress = true;
 
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d2e3e9d..c21d17b 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -12,7 +12,7 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT);
+		setRoot(m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT));
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
 		if (m_diff.size() > 0)
-- 
2.43.0


From f1ba6838a1831e97b1ba76812b3eece68cfdd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 03/48] fix: run a post-install trigger only for installed
 files a trigger rule matches

---
 src/pkgadd.cxx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 008e38e..9117b47 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -235,25 +235,22 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 		else
 			non_install_set.insert(i);
 
-		std::pair <std::string, int> a;
+		// Only an installed file whose last matching rule says YES
+		// triggers something
+		if (!install_file)
+			continue;
 		for (std::vector<rule_t>::reverse_iterator j = scripts_found.rbegin();
 		j != scripts_found.rend();
 		j++) {
-			a.first=i;
-			a.second=(*j).event;
-
 			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
-				break;
+				if ((*j).action) {
+					std::pair <std::string, int> a;
+					a.first = ( (*j).event == cards::LDCONF ) ? "" : i;
+					a.second = (*j).event;
+					m_postInstallList.insert(a);
 				}
-		}
-		if (install_file) {
-			if ( a.second == cards::LDCONF ) {
-				a.first="";
-			} else {
-				a.first=i;
+				break;
 			}
-			m_postInstallList.insert(a);
 		}
 	}
 	scripts_found.clear();
-- 
2.43.0


From 9f6ee49648f6b4416b47e4151197c6dbdac41ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 04/48] fix: an interrupted command leaves no partial record
 that blocks or pollutes the database

---
 src/file_utils.cxx | 12 ++++++++++++
 src/pkgdbh.cxx     | 15 +++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 641275e..9090079 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -198,6 +198,18 @@ void cleanupMetaFiles(const std::string& basedir)
 #endif
 		remove ( (basedir + "/.POST").c_str() );
 	}
+	if ( checkFileExist ( basedir + "/.PRER" ) ) {
+#ifdef DEBUG
+		std::cerr << basedir << "/.PRER removed" << std::endl;
+#endif
+		remove ( (basedir + "/.PRER").c_str() );
+	}
+	if ( checkFileExist ( basedir + "/.POSTR" ) ) {
+#ifdef DEBUG
+		std::cerr << basedir << "/.POSTR removed" << std::endl;
+#endif
+		remove ( (basedir + "/.POSTR").c_str() );
+	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6189f46..afcb9e8 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -416,6 +416,14 @@ void pkgdbh::getListOfPackagesNames()
 		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 		treatErrors(pathdb);
 	}
+	// Without its list of files a directory is only what an interrupted
+	// command left behind
+	for (auto i = m_listOfPackagesNames.begin(); i != m_listOfPackagesNames.end();) {
+		if (checkFileExist(pathdb + *i + PKG_FILES))
+			++i;
+		else
+			i = m_listOfPackagesNames.erase(i);
+	}
 }
 std::set<std::string>
 pkgdbh::getSetOfFiles(const std::string& packageName)
@@ -689,6 +697,11 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 	}
 
 	mkdir(packagenamedir.c_str(),0755);
+	// What an interrupted command left in there is not part of this package
+	std::set<std::string> leftovers;
+	findDir(leftovers, packagenamedir);
+	for (auto i : leftovers)
+		remove((packagenamedir + "/" + i).c_str());
 
 	for (auto i : metaFilesList)
 	{
@@ -929,6 +942,8 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 		treatErrors(packagenamedir);
 	}
+	// First the list of files: from there on the package is not installed anymore
+	remove((packagenamedir + PKG_FILES).c_str());
 	if (metaFilesList.size() > 0) {
 		for (std::set<std::string>::iterator i = metaFilesList.begin(); i != metaFilesList.end();++i) {
 			const std::string filename = packagenamedir + "/" + *i;
-- 
2.43.0


From 25a3629cf591d16904bdd7f89b793b1aa751c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 05/48] fix: refuse a damaged archive before touching anything,
 and do not stop at an archive warning

---
 src/pkgdbh.cxx | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index afcb9e8..2ddad69 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1159,6 +1159,21 @@ pkgdbh::openArchivePackage(const std::string& filename)
 		treatErrors(basename);
 	}
 
+	// A damaged archive is refused before anything is touched
+	struct archive* ar = archive_read_new();
+	struct archive_entry* entry;
+	INIT_ARCHIVE(ar);
+	int status = archive_read_open_filename(ar,
+		filename.c_str(),
+		DEFAULT_BYTES_PER_BLOCK);
+	while (status == ARCHIVE_OK || status == ARCHIVE_WARN)
+		status = archive_read_next_header(ar, &entry);
+	FREE_ARCHIVE(ar);
+	if (status != ARCHIVE_EOF) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(basename);
+	}
+
 	if ( ( packageArchive.arch() != getMachineType() ) && ( packageArchive.arch() != "any" ) ) {
 		if ( m_root.size() > 1 ) { // means it's in a chroot environment ... probably
 			std::cerr << basename << ": Architecture is different. If "
@@ -1280,8 +1295,9 @@ void pkgdbh::installArchivePackage
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++m_installedFilesNumber) {
+	int status;
+	for (m_installedFilesNumber = 0; (status = archive_read_next_header(archive, &entry)) ==
+	     ARCHIVE_OK || status == ARCHIVE_WARN; ++m_installedFilesNumber) {
 
 		progressInfo(cards::ACTION_ENUM_PKG_INSTALL_RUN);
 
@@ -1357,6 +1373,11 @@ void pkgdbh::installArchivePackage
 		}
 	}
 	FREE_ARCHIVE(archive);
+	// Stopped before the end: the package is not completely installed
+	if (status != ARCHIVE_EOF) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+		treatErrors(filename);
+	}
 }
 const void pkgdbh::readRulesFile()
 {
-- 
2.43.0


From 4203c5ac73582874c7e8c8da541b96ececcdef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 06/48] fix: a script that is not started or ended by a signal
 has failed

---
 src/process.cxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index ac099c9..c2a1caf 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -37,6 +37,15 @@ std::string process::args()
 {
     return m_arguments;
 }
+// Exit code of a child; one not started or ended by a signal has failed too
+static int exitCode(int status)
+{
+    if (status == -1)
+        return EXIT_FAILURE;
+    if (WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+    return status / 256;
+}
 int process::execute()
 {
     std::list<std::string> args;
@@ -110,7 +119,7 @@ int process::execLog(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::exec(const int argc, char** argv)
@@ -132,7 +141,7 @@ int process::exec(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::executeShell()
@@ -191,7 +200,7 @@ int process::execShellLog(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
 
 int process::execShell(const char* shell)
@@ -213,5 +222,5 @@ int process::execShell(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitCode(status);
 }
-- 
2.43.0


From 19bba5c01f23f10b0382c1013a80db2b7998193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 07/48] fix: refuse to upgrade a package known only as an alias
 before removing anything

---
 src/pkgadd.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 9117b47..bb8d93f 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -77,7 +77,8 @@ void pkgadd::run()
 		m_actualError = cards::ERROR_ENUM_PACKAGE_ALLREADY_INSTALL;
 		treatErrors (package.first);
 	}
-	else if (!installed && m_upgrade)
+	// Known only as an alias of another package, there is nothing to upgrade
+	else if (m_upgrade && m_listOfPackages.count(package.first) == 0)
 	{
 		m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_PREVIOUSLY_INSTALL;
 		treatErrors(package.first);
-- 
2.43.0


From cebbb7ac4f10e67e98b330853500975c3bf1bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 08/48] fix: hold the database lock from the checks to the end
 of a transaction

Two commands started together both passed the conflict check on what they
had read before locking and then both installed the same file; one command
also deleted or overwrote the .META, .PRE and .POST another one was using.
---
 src/pkgadd.cxx  | 26 ++++++++++++++------------
 src/pkgdbh.cxx  | 14 +++++++++++++-
 src/pkgdbh.h    |  1 +
 src/pkginfo.cxx |  1 +
 src/pkgrm.cxx   |  2 ++
 src/upgrade.cxx |  2 +-
 6 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index bb8d93f..ecad30c 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -71,6 +71,12 @@ void pkgadd::run()
 
 	readRulesFile();
 
+	// From the checks to the end of the scripts, nobody else can change
+	// the database
+	cards::lock Lock(m_root, true);
+	reloadDatabase();
+	cleanupMetaFiles(m_root);
+
 	bool installed = checkPackageNameExist(package.first);
 	if (installed && !m_upgrade)
 	{
@@ -94,7 +100,6 @@ void pkgadd::run()
 		package.second);
 	if (!conflicting_files.empty()) {
 		if (m_force) {
-			cards::lock Lock(m_root, true);
 			std::set<std::string> keep_list;
 			// Don't remove files matching the rules in configuration
 			if (m_upgrade)
@@ -116,24 +121,21 @@ void pkgadd::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 	}
-	{
-		cards::lock Lock(m_root, true);
-		// Installation progressInfo of the files on the HD
-		installArchivePackage(m_packageArchiveName,
-			keep_list, non_install_files);
+	// Installation progressInfo of the files on the HD
+	installArchivePackage(m_packageArchiveName,
+		keep_list, non_install_files);
 
-		// Add the metadata about the package to the DB
-		moveMetaFilesPackage(package.first,package.second);
+	// Add the metadata about the package to the DB
+	moveMetaFilesPackage(package.first,package.second);
+
+	// Add the info about the files to the DB
+	addPackageFilesRefsToDB(package.first, package.second);
 
-		// Add the info about the files to the DB
-		addPackageFilesRefsToDB(package.first, package.second);
-	}
 	postRun();
 }
 void pkgadd::postRun()
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 2ddad69..0fb0faf 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -489,7 +489,6 @@ pkgdbh::buildSimpleDependenciesDatabase()
 void pkgdbh::buildDatabase(const bool& files)
 {
 	using namespace cards;
-	cleanupMetaFiles(m_root);
 	if (!m_DB_Empty)
 		return;
 
@@ -668,6 +667,19 @@ void pkgdbh::buildDatabase(const bool& files)
 	}
 	progressInfo(ACTION_ENUM_DB_OPEN_END);
 }
+// To be called with the database locked: what was read before may have been
+// changed by another command in between
+void pkgdbh::reloadDatabase()
+{
+	const bool progress = m_progress;
+	m_progress = false;
+	m_listOfPackagesNames.clear();
+	m_listOfPackages.clear();
+	m_listOfAlias.clear();
+	m_DB_Empty = true;
+	buildDatabase(true);
+	m_progress = progress;
+}
 void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 {
 	std::set<std::string> metaFilesList;
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index b132c1d..8b291e0 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -143,6 +143,7 @@ public:
 
     void                    print_version() const;
     void                    buildDatabase(const bool& files);
+    void                    reloadDatabase();
     void                    setDependency();
     void                    resetDependency();
 
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 6a64875..595f0e5 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -195,6 +195,7 @@ void pkginfo::run()
     if (m_footprint_mode) {
         getFootprintPackage(m_arg);
     } else if (m_number_mode) {
+        cards::lock Lock(m_root, false);
         buildDatabase(false);
         std::cout << m_listOfPackages.size() << std::endl;
     } else {
diff --git a/src/pkgrm.cxx b/src/pkgrm.cxx
index 14d24b3..4c2ff13 100644
--- a/src/pkgrm.cxx
+++ b/src/pkgrm.cxx
@@ -66,6 +66,8 @@ void pkgrm::run()
 	}
 
 	cards::lock Lock(m_root, true);
+	reloadDatabase();
+	cleanupMetaFiles(m_root);
 
 	readRulesFile();
 
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index c21d17b..a0f84cc 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -152,7 +152,7 @@ void upgrade::upgradePackages()
 	}
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
-		buildDatabase(true);
+		reloadDatabase();
 		removePackageFilesRefsFromDB(i);
 		removePackageFiles(i);
 		syslog(LOG_INFO,"%s removed",i.c_str());
-- 
2.43.0


From 36de4edfef636247e62bfcc42a111e7ce649d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 09/48] fix: a package is not marked as a dependency by an
 uninitialised flag

---
 src/pkgdbh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 0fb0faf..682e482 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -9,6 +9,7 @@ using __gnu_cxx::stdio_filebuf;
 
 pkgdbh::pkgdbh(const std::string& name)
 	: m_utilName(name)
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
@@ -18,6 +19,7 @@ pkgdbh::pkgdbh(const std::string& name)
 }
 pkgdbh::pkgdbh()
 	: m_utilName("pkgdbh")
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
-- 
2.43.0


From 592f98cacee98df779f4366c17fa0fec8004efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 10/48] fix: an interrupted upgrade does not forget the package

The record of the old version was dropped before the new files were put in
place, and the metadata was rewritten in place afterwards: interrupted, the
package was unknown and its upgrade refused, or its metadata was cut off.
---
 src/pkgadd.cxx |  3 +--
 src/pkgdbh.cxx | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ecad30c..696e407 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -122,9 +122,8 @@ void pkgadd::run()
 			setDependency();
 
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
+		// The record of the old version stays until the new one replaces it
 		removePackageFiles(package.first, keep_list);
-		// Remove metadata about the package removed
-		removePackageFilesRefsFromDB(package.first);
 	}
 	// Installation progressInfo of the files on the HD
 	installArchivePackage(m_packageArchiveName,
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 682e482..b550f32 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -710,17 +710,30 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		treatErrors(METAFILE);
 	}
 
+	if (m_dependency) {
+		fileContent.insert("d1");
+		std::ofstream out(METAFILE);
+		for ( auto i: fileContent) out << i << std::endl;
+		out.close();
+		if (!out) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_WRITE_FILE;
+			treatErrors(METAFILE);
+		}
+		m_dependency=false;
+	}
+
 	mkdir(packagenamedir.c_str(),0755);
-	// What an interrupted command left in there is not part of this package
+	// What an older version or an interrupted command left in there is not
+	// part of this package, the list of files is replaced at last
 	std::set<std::string> leftovers;
 	findDir(leftovers, packagenamedir);
-	for (auto i : leftovers)
-		remove((packagenamedir + "/" + i).c_str());
+	leftovers.erase(PKG_FILES + 1);
 
 	for (auto i : metaFilesList)
 	{
 		char * destFile = const_cast<char*>(i.c_str());
 		destFile++;
+		leftovers.erase(destFile);
 		std::string file = packagenamedir + "/" + destFile;
 		if (rename(i.c_str(), file.c_str()) == -1) {
 			m_actualError = cards::ERROR_ENUM_CANNOT_RENAME_FILE;
@@ -733,14 +746,8 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 			}
 		}
 	}
-	if (m_dependency) {
-		std::string file = packagenamedir + PKG_META;
-		fileContent.insert("d1");
-		std::ofstream out(file);
-		for ( auto i: fileContent) out << i << std::endl;
-		out.close();
-		m_dependency=false;
-	}
+	for (auto i : leftovers)
+		remove((packagenamedir + "/" + i).c_str());
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
 }
 void pkgdbh::addPackagesFilesRefsToDB()
-- 
2.43.0


From 6a3dc231d9c18ba4ce6976eedb40c44c94145498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 11/48] fix: take the files a forced install takes over out of
 a record at once

The list of the losing package was rewritten once per file: interrupted, its
record was neither the old nor the new one.
---
 src/pkgdbh.cxx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index b550f32..376025a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1077,13 +1077,12 @@ void pkgdbh::removePackageFilesRefsFromDB(std::set<std::string> files, const std
 	}
 	// Remove all references
 	for (auto i : m_listOfPackages) {
-		for ( auto j : files ) {
-			size_t s = i.second.files.size();
+		size_t s = i.second.files.size();
+		for ( auto j : files )
 			i.second.files.erase(j);
-			// If number of references have change, we refresh the disk copy
-			if ( s != i.second.files.size())
-				addPackageFilesRefsToDB(i.first,i.second);
-		}
+		// If number of references have change, we refresh the disk copy
+		if ( s != i.second.files.size())
+			addPackageFilesRefsToDB(i.first,i.second);
 	}
 #ifdef DEBUG
 	std::cerr << "Removing files:" << std::endl;
-- 
2.43.0


From 2b473ecd48a9807581f22bccfc90a749401a3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 12/48] fix: an error while reading the database or the rules
 stops the command

Reading a list of files or the rules looped for ever on a read error, rules
that could not be opened counted as none, and unreadable metadata as empty.
---
 src/file_utils.cxx | 17 ++++++++++++++++-
 src/pkgdbh.cxx     | 28 ++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 9090079..071801d 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -257,13 +257,18 @@ int findDir(std::set<std::string>& filesList, const std::string& path)
   d = opendir(path.c_str());
   if (d)
   {
-    while ((dir = readdir(d)) != nullptr)
+    while ((errno = 0, dir = readdir(d)) != nullptr)
     {
 			if ( dir->d_name[0] != '.' ) { // ignore any .directories
         	filesList.insert(dir->d_name);
       }
     }
+    const int error = errno;
     closedir(d);
+    if (error) {
+      errno = error;
+      return -1;
+    }
   } else {
 		std::cerr << YELLOW << path << " not exist." << NORMAL << std::endl;
 		return -1;
@@ -367,7 +372,12 @@ int parseFile(std::set<std::string>& fileContent, const char* fileName)
 		input[strlen(input)-1] = '\0';
 		fileContent.insert(input);
   }
+  const int error = ferror(fp) ? errno : 0;
   fclose(fp);
+  if (error) {
+    errno = error;
+    return -1;
+  }
   return 0;
 }
 
@@ -384,7 +394,12 @@ int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 		input[strlen(input)-1] = '\0';
 		fileContent.push_back(input);
 	}
+	const int error = ferror(fp) ? errno : 0;
 	fclose(fp);
+	if (error) {
+		errno = error;
+		return -1;
+	}
 	return 0;
 }
 int parseFile(std::string& Depends, const char* key, const char* fileName)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 376025a..6ec414a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -457,6 +457,10 @@ pkgdbh::getSetOfFiles(const std::string& packageName)
 				break; // End of record
 			packageFiles.insert(file);
 		}
+		if (in.bad()) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(fileslist);
+		}
 	}
 	return packageFiles;
 }
@@ -476,7 +480,10 @@ pkgdbh::buildSimpleDependenciesDatabase()
 		packageWithDeps.first=i;
 		const std::string metaFile = m_root + PKG_DB_DIR + i + PKG_META;
 			std::set<std::string> fileContent;
-			parseFile(fileContent,metaFile.c_str());
+			if (parseFile(fileContent,metaFile.c_str()) == -1 && errno != ENOENT) {
+				m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+				treatErrors(metaFile);
+			}
 		for (auto s : fileContent) {
 			if (s[0] == RUNTIME_DEPENDENCY) {
 				std::string dependency = s.substr(1,s.size()-11);
@@ -511,7 +518,10 @@ void pkgdbh::buildDatabase(const bool& files)
 		std::set<std::string> categories;
 		std::set<std::string> sets;
 		std::set<std::string> alias;
-		parseFile(fileContent,metaFile.c_str());
+		if (parseFile(fileContent,metaFile.c_str()) == -1 && errno != ENOENT) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+			treatErrors(metaFile);
+		}
 		info.release(1);
 		info.dependency(false);
 		m_listOfAlias[i] = i;
@@ -660,6 +670,10 @@ void pkgdbh::buildDatabase(const bool& files)
 						break; // End of record
 					info.files.insert(info.files.end(), file);
 				}
+				if (in.bad()) {
+					m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+					treatErrors(filelist);
+				}
 			}
 		}
 
@@ -1405,12 +1419,22 @@ const void pkgdbh::readRulesFile()
 		return;
 	unsigned int linecount = 0;
 	const std::string filename = m_root + PKGADD_CONF;
+	errno = 0;
 	std::ifstream in(filename);
 
+	// Without rules is fine, with rules nobody can read is not
+	if (!in && errno != ENOENT) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
+		treatErrors(filename);
+	}
 	if (in) {
 		while (!in.eof()) {
 			std::string line;
 			getline(in, line);
+			if (in.bad()) {
+				m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
+				treatErrors(filename);
+			}
 			linecount++;
 			if (!line.empty() && line[0] != '#') {
 				if (line.length() >= PKGADD_CONF_MAXLINE) {
-- 
2.43.0


From dc1317168cff6594f8cb8d82d7a46fe6e6a18472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 13/48] fix: a script of the old version that cannot be removed
 is reported

---
 src/pkgdbh.cxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6ec414a..d6f41b5 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -740,7 +740,10 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 	// What an older version or an interrupted command left in there is not
 	// part of this package, the list of files is replaced at last
 	std::set<std::string> leftovers;
-	findDir(leftovers, packagenamedir);
+	if (findDir(leftovers, packagenamedir) != 0) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_READ_DIRECTORY;
+		treatErrors(packagenamedir);
+	}
 	leftovers.erase(PKG_FILES + 1);
 
 	for (auto i : metaFilesList)
@@ -760,8 +763,12 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 			}
 		}
 	}
-	for (auto i : leftovers)
-		remove((packagenamedir + "/" + i).c_str());
+	for (auto i : leftovers) {
+		if (remove((packagenamedir + "/" + i).c_str()) == -1) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_REMOVE_FILE;
+			treatErrors(packagenamedir + "/" + i);
+		}
+	}
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
 }
 void pkgdbh::addPackagesFilesRefsToDB()
-- 
2.43.0


From c6f67e8240038b78da369a640a87d2f860b9172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 14/48] fix: do not lose the last character of metadata that
 ends without a newline

---
 src/archive.cxx    | 6 +++---
 src/file_utils.cxx | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 60a492b..d6ef4fb 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -93,9 +93,9 @@ void archive::extractFileContent
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
-            char* fC = (char*)malloc(entry_size);
-            archive_read_data(ar, fC, entry_size);
-            fC[entry_size-1] = '\0';
+            char* fC = (char*)malloc(entry_size + 1);
+            const ssize_t length = archive_read_data(ar, fC, entry_size);
+            fC[length > 0 ? length : 0] = '\0';
             list = parseDelimitedVectorList(fC,'\n');
             free(fC);
             break;
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 071801d..cdf859c 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -369,7 +369,7 @@ int parseFile(std::set<std::string>& fileContent, const char* fileName)
 	char input[BUFSIZ];
 
 	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
+		input[strcspn(input, "\n")] = '\0';
 		fileContent.insert(input);
   }
   const int error = ferror(fp) ? errno : 0;
@@ -391,7 +391,7 @@ int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 	char input[BUFSIZ];
 
 	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
+		input[strcspn(input, "\n")] = '\0';
 		fileContent.push_back(input);
 	}
 	const int error = ferror(fp) ? errno : 0;
-- 
2.43.0


From 2a31d6e07e7905cf2527d2d70ef75459ca37e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 15/48] fix: do not read fields the metadata does not give

---
 src/cache.h | 4 ++--
 src/db.h    | 6 +++---
 src/pkg.h   | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cache.h b/src/cache.h
index ab61cf9..9826822 100644
--- a/src/cache.h
+++ b/src/cache.h
@@ -10,8 +10,8 @@ namespace cards {
 class cache: public db
 {
 	StatusEnum			m_status;
-	unsigned int long   m_size;
-	bool				m_installed;
+	unsigned int long   m_size = 0;
+	bool				m_installed = false;
 	std::string			m_name;
 	std::string			m_fileName;
 	std::string			m_fileDate;
diff --git a/src/db.h b/src/db.h
index 57e7740..03a6b26 100644
--- a/src/db.h
+++ b/src/db.h
@@ -8,9 +8,9 @@ namespace cards {
 
 class db : public pkg
 {
-	unsigned int			m_space;      // disk occupation onces installed
-	time_t					m_install;    // date of last installation
-	bool					m_dependency; // If TRUE it's automatically installed, it's a dep
+	unsigned int			m_space = 0;  // disk occupation onces installed
+	time_t					m_install = 0;// date of last installation
+	bool					m_dependency = false; // If TRUE it's automatically installed, it's a dep
 
 	std::set<std::pair<std::string,time_t>>
 							m_dependencies;
diff --git a/src/pkg.h b/src/pkg.h
index 7cb4fb5..ae3f70f 100644
--- a/src/pkg.h
+++ b/src/pkg.h
@@ -17,7 +17,7 @@ class pkg
 	std::string 			m_contributors;
 
 	std::string 			m_version;
-	unsigned short int		m_release;
+	unsigned short int		m_release = 0;
 
 	std::set<std::string>   m_libs;
 	std::set<std::string> 	m_alias;
@@ -37,7 +37,7 @@ class pkg
 	std::string 			m_system;
 
 	std::string 			m_hash;
-	time_t 					m_build;
+	time_t 					m_build = 0;
 
 
 public:
-- 
2.43.0


From 2fda4dfd07c8dd41a568d69fb7c98207210d38a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 16/48] fix: queries resolve aliases, and a package's own name
 comes before an alias

---
 src/pkgdbh.cxx  | 4 +++-
 src/pkginfo.cxx | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index d6f41b5..3c3b568 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -586,7 +586,9 @@ void pkgdbh::buildDatabase(const bool& files)
 
 				case ALIAS:
 					alias.insert(s.substr(1));
-					m_listOfAlias[s.substr(1)] = i;
+					// the name of a package stands for that package
+					if (m_listOfPackagesNames.find(s.substr(1)) == m_listOfPackagesNames.end())
+						m_listOfAlias[s.substr(1)] = i;
 					continue;
 
 				case CATEGORIES:
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 595f0e5..beda21a 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -315,7 +315,7 @@ void pkginfo::run()
             std::cout << "Librairies"<< std::endl;
 
             if (checkPackageNameExist(m_arg)) {
-                for (auto i : m_listOfPackages[m_arg].files) {
+                for (auto i : m_listOfPackages[m_listOfAlias[m_arg]].files) {
                     std::string filename('/' + i);
                     Result = getRuntimeLibrariesList(librariesList, filename);
                 }
@@ -358,7 +358,7 @@ void pkginfo::run()
             //  get the buildtime of the package: return 0 if not found
             buildDatabase(false);
             if (checkPackageNameExist(m_arg)) {
-                std::cout << m_listOfPackages[m_arg].build() << std::endl;
+                std::cout << m_listOfPackages[m_listOfAlias[m_arg]].build() << std::endl;
             } else {
                 std::cout << "0" << std::endl;
             }
@@ -407,12 +407,12 @@ void pkginfo::run()
                           << _("Installed Size : ") << sizeHumanRead(m_listOfPackages[arg].space())
                           << _("bytes") << std::endl
                           << _("Arch           : ") << m_listOfPackages[arg].arch() << std::endl;
-                if (m_listOfPackages[m_arg].dependency() == false)
+                if (m_listOfPackages[arg].dependency() == false)
                     std::cout << _("Man. installed : Yes");
                 else
                     std::cout << _("Man. installed : No");
                 std::cout << std::endl;
-                if (m_listOfPackages[m_arg].dependencies().size() > 0) {
+                if (m_listOfPackages[arg].dependencies().size() > 0) {
                     std::cout << _("Dependencies   : ");
                     for (auto i : m_listOfPackages[arg].dependencies())
                         std::cout << i.first << " ";
-- 
2.43.0


From b8514a65d3486a7c139ab394275fe7efe41380ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 17/48] fix: depends, deptree and dependent follow sub package
 names to their port

deptree also stopped at a port naming itself, dropping its later dependencies.
---
 src/dependent.cxx | 3 ++-
 src/depends.cxx   | 5 ++---
 src/deptree.cxx   | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dependent.cxx b/src/dependent.cxx
index c642fba..7e848c2 100644
--- a/src/dependent.cxx
+++ b/src/dependent.cxx
@@ -6,7 +6,8 @@ void dependent::list(std::string& name)
 {
     for (auto i : m_tree) {
         for (auto d : i.second.dependencies()) {
-            if (d == name)
+            // a dependency can be a sub package of the port
+            if (getValueBeforeLast(d, '.') == name)
                 m_list.insert("("
                     + i.second.collection()
                     + ") "
diff --git a/src/depends.cxx b/src/depends.cxx
index 8d63b50..58b528a 100644
--- a/src/depends.cxx
+++ b/src/depends.cxx
@@ -14,9 +14,8 @@ void depends::list(std::string& name)
         m_list.insert(name);
         if (m_tree[name].dependencies().size() > 0) {
             for (auto n : m_tree[name].dependencies()) {
-                for (auto i : m_list)
-                    if (n == name)
-                        break;
+                // a dependency can be a sub package of the port
+                n = getValueBeforeLast(n, '.');
                 list(n);
             }
         }
diff --git a/src/deptree.cxx b/src/deptree.cxx
index af57045..ef6e829 100644
--- a/src/deptree.cxx
+++ b/src/deptree.cxx
@@ -20,8 +20,10 @@ void deptree::print(std::string name, std::string space, int level)
         ++level;
         if (m_tree[name].dependencies().size() > 0) {
             for (auto n : m_tree[name].dependencies()) {
+                // a dependency can be a sub package of the port
+                n = getValueBeforeLast(n, '.');
                 if (n == name)
-                    break;
+                    continue;
                 print(n, space, level);
             }
         }
-- 
2.43.0


From 724f981b9489045041bed3c96b94f5e45b917488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 18/48] fix: installing packages that depend on each other no
 longer runs for ever

---
 src/pkgrepo.cxx | 54 +++++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 3085a33..053fd88 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -130,7 +130,7 @@ void pkgrepo::generateDependencies()
     std::string packageNameHash, packageName, packageFileName;
     std::pair<std::string, time_t> PackageTime;
     std::vector<std::pair<std::string, time_t>> dependenciesWeMustAdd, depencenciestoSort;
-    std::vector<std::pair<std::string, time_t>>::iterator vit;
+    std::set<std::string> treatedPackages, packagesWithDependencies;
     std::set<std::pair<std::string, time_t>>::iterator sit;
 
     PackageTime.first = m_packageName;
@@ -141,12 +141,22 @@ void pkgrepo::generateDependencies()
 
     // Main while loop
     while (!dependenciesWeMustAdd.empty()) {
-        vit = dependenciesWeMustAdd.begin();
-        packageName = vit->first;
-        PackageTime = *vit;
-
-        // Erase the current treated packageName
-        dependenciesWeMustAdd.erase(vit);
+        PackageTime = dependenciesWeMustAdd.back();
+        packageName = PackageTime.first;
+
+        // The dependencies are there now, the package can follow. Each package
+        // is treated once: packages can depend on each other
+        if (!treatedPackages.insert(packageName).second) {
+            dependenciesWeMustAdd.pop_back();
+            if (!packagesWithDependencies.insert(packageName).second)
+                continue;
+            // If the package is not yet installed or not uptodate
+            if (!m_dbh.checkPackageNameBuildDateSame(PackageTime)) {
+                // checkPackageNameBuildDateSame is no then add it
+                depencenciestoSort.push_back(PackageTime);
+            }
+            continue;
+        }
 
         std::set<std::pair<std::string, time_t>> directDependencies;
         if (m_listOfRepoPackages.find(packageName) != m_listOfRepoPackages.end()) {
@@ -191,47 +201,25 @@ void pkgrepo::generateDependencies()
             directDependencies = getPackageDependencies(packageFileName);
         }
 
-        // If the package is not yet installed or not uptodate
-        if (!m_dbh.checkPackageNameBuildDateSame(PackageTime)) {
-            // checkPackageNameBuildDateSame is no then add it
-            depencenciestoSort.push_back(PackageTime);
-        }
-
-        // else checkPackageNameBuildDateSame is yes
-
-        for (auto sit : directDependencies) {
-            if (sit.first == PackageTime.first)
-                continue;
-            for (vit = dependenciesWeMustAdd.begin(); vit != dependenciesWeMustAdd.end(); ++vit) {
-                if (sit == *vit) {
-                    dependenciesWeMustAdd.erase(vit);
-                    break;
-                }
-            }
-        }
         for (sit = directDependencies.begin(); sit != directDependencies.end(); sit++) {
-            if (PackageTime.first != sit->first) {
+            if (treatedPackages.find(sit->first) == treatedPackages.end()) {
                 if (!m_dbh.checkPackageNameBuildDateSame(*sit))
                     dependenciesWeMustAdd.push_back(*sit);
             }
         }
     }
 
-    // Let's revert the order of dependencies
-    // We need the last founds (lower level) first
     bool found = false;
-    for (std::vector<std::pair<std::string, time_t>>::reverse_iterator vrit = depencenciestoSort.rbegin();
-         vrit != depencenciestoSort.rend();
-         ++vrit) {
+    for (auto vit : depencenciestoSort) {
         found = false;
         for (auto i : m_dependenciesList) {
-            if (i.first == vrit->first) {
+            if (i.first == vit.first) {
                 found = true;
                 break;
             }
         }
         if (!found) {
-            m_dependenciesList.push_back(*vrit);
+            m_dependenciesList.push_back(vit);
         }
         // else no deps founds
     }
-- 
2.43.0


From 767029703cc96e8238fbafc30905a4b5b09a9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 19/48] fix: the mark of automatically installed packages
 follows what was asked for

---
 src/install.cxx | 3 ++-
 src/pkgrepo.cxx | 5 ++++-
 src/upgrade.cxx | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/install.cxx b/src/install.cxx
index 90d10fa..1e31c0a 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -82,7 +82,8 @@ install::install(const CardsArgumentParser& argParser,
 		} else {
 			m_upgrade = false;
 		}
-		if (i.second > 0)
+		// An installed package stays what it is
+		if (i.second > 0 && !m_upgrade)
 			setDependency();
 		p += "("
 			+ packageArchive.collection()
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 053fd88..67e6ad7 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -212,8 +212,11 @@ void pkgrepo::generateDependencies()
     bool found = false;
     for (auto vit : depencenciestoSort) {
         found = false;
-        for (auto i : m_dependenciesList) {
+        for (auto& i : m_dependenciesList) {
             if (i.first == vit.first) {
+                // Already there as a dependency, now it's asked for
+                if (vit.second == 0)
+                    i.second = 0;
                 found = true;
                 break;
             }
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index a0f84cc..7ec9a90 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -143,6 +143,9 @@ void upgrade::upgradePackages()
 			m_upgrade=true;
 		else
 			m_upgrade=false;
+		// New dependencies are automatically installed
+		if (i.second > 0 && !m_upgrade)
+			setDependency();
 
 		run();
 		std::string p = i.first
-- 
2.43.0


From 5bac8bf927100595042dfed88ca86d7574b59e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 20/48] fix: packages of the directories listed first have
 precedence

---
 src/pkgrepo.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 67e6ad7..8bbb3d5 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -529,7 +529,10 @@ void pkgrepo::parse()
                 pkgDependencies.clear();
                 pkgConflicts.clear();
                 pkgLibs.clear();
-                m_listOfPackages[pkgName] = info;
+                // Directories listed first have precedence
+                if ((m_listOfPackages.find(pkgName) == m_listOfPackages.end()) ||
+                        (m_listOfPackages[pkgName].dirName() == info.dirName()))
+                    m_listOfPackages[pkgName] = info;
                 continue;
             }
         }
-- 
2.43.0


From d55f1d6517259b1a3c0d99f06fd843d9c40fcf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 21/48] fix: packages of a directory with its own url are
 downloaded and verified too

---
 src/pkgrepo.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 8bbb3d5..6a30baa 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -180,7 +180,7 @@ void pkgrepo::generateDependencies()
             // Let's see if we need to download it
             // if the binary archive is not yet downloaded
             // Make no sense to download if no url exist
-            if (m_config.url().size() > 0) {
+            if (m_listOfPackages[packageName].origin().size() > 0) {
                 if (!checkFileExist(packageFileName))
                     downloadPackageFileName(packageName);
                 // m_packageFileNameHash contains
@@ -390,7 +390,10 @@ void pkgrepo::parse()
             + PKG_REPO_META;
 
         info.collection(i.collection);
-        info.origin(i.url
+        // Local directories have no origin
+        info.origin("");
+        if (!i.url.empty())
+            info.origin(i.url
             + "/"
             + getMachineType()
             + "/"
-- 
2.43.0


From e27fbc7f2363138bc0ac578015748086ae892ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 22/48] fix: the checksum of a package downloaded again is
 checked

---
 src/pkgrepo.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 6a30baa..e572d05 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -192,8 +192,9 @@ void pkgrepo::generateDependencies()
                 if (!checkHash(packageName)) {
                     // Last try to get it.
                     downloadPackageFileName(packageName);
+                    generateHash(packageFileName);
                 }
-                if (!checkSign(packageName)) {
+                if (!checkHash(packageName) || !checkSign(packageName)) {
                     m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
                     treatErrors(packageName);
                 }
-- 
2.43.0


From 646b25afe755c4aa1e89189989e54705e6f36d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 23/48] fix: remove checks everything named before it removes
 anything

The base collection was only checked after other packages were gone, an
alias skipped the use check, a set named after something else was
ignored, and a package listed twice or depending on itself failed.
---
 src/remove.cxx | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 9a57981..6f3103a 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -23,6 +23,9 @@ remove::remove(const std::string& commandName,
 	std::pair<std::string,std::string> PackageToRemove;
 
 	for ( auto i : m_argParser.otherArguments() ) {
+		// if it's an alias get the real name
+		std::string a = m_listOfAlias [i];
+		bool found = false;
 		if ( i == "base" ) {
 			m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 			std::cout << std::endl
@@ -36,7 +39,7 @@ remove::remove(const std::string& commandName,
 
 		for (auto j : m_listOfPackages) {
 			for (auto k : j.second.dependencies() ){
-				if ( i == k.first) {
+				if ( a == k.first && a != j.first) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
 					treatErrors(i);
@@ -47,9 +50,10 @@ remove::remove(const std::string& commandName,
 				PackageToRemove.first=j.first;
 				PackageToRemove.second=j.second.collection();
 				listOfPackagesToRemove.insert(PackageToRemove);
+				found = true;
 			}
 		}
-		if (listOfPackagesToRemove.empty()) {
+		if (!found) {
 			for (auto j : m_listOfPackages) {
 				for (auto k : j.second.sets()) {
 					if ( i == k ) {
@@ -60,11 +64,9 @@ remove::remove(const std::string& commandName,
 				}
 			}
 		}
-		{
-			// if it's an alias get the real name
-			std::string a = m_listOfAlias [i];
+		if (!a.empty()) {
 			PackageToRemove.first = a ;
-			PackageToRemove.second = getCollection(i);
+			PackageToRemove.second = getCollection(a);
 			listOfPackagesToRemove.insert(PackageToRemove);
 		}
 	}
@@ -74,7 +76,7 @@ remove::remove(const std::string& commandName,
 			continue;
 		for ( auto j : listOfPackagesToRemove ) {
 			PackageToRemove.first = j.first  + "." + i;
-			PackageToRemove.second = j.second;
+			PackageToRemove.second = getCollection(PackageToRemove.first);
 			groupSetPackagesToRemove.insert(PackageToRemove);
 		}
 	}
@@ -83,14 +85,14 @@ remove::remove(const std::string& commandName,
 			listOfPackagesToRemove.insert(i);
 	}
 	for ( auto i : listOfPackagesToRemove ) {
-		if (i.first.size() == 0 )
-			continue;
-		m_packageName = i.first;
 		if ((i.second == "base") &&
 			(!m_argParser.isSet(CardsArgumentParser::OPT_FORCE))) {
 				m_actualError = cards::ERROR_ENUM_PACKAGE_IN_BASESYSTEM;
 				treatErrors(i.first);
 		}
+	}
+	for ( auto i : listOfPackagesToRemove ) {
+		m_packageName = i.first;
 		run();
 		std::string name = "(" +  m_packageCollection + ") ";
 		name += i.first;
-- 
2.43.0


From a7e205c90f2cdcac6e5ec187a8857ac7d3e4e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 24/48] fix: configuration lines may be indented and separated
 by tabs

A tab after the key of a line that also has a blank, or a blank before
the key, silently dropped the line.
---
 src/conf.cxx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 7946c77..4d32d3f 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -30,12 +30,9 @@ void conf::parseConfig()
 			s = s.substr(0,pos);
 		}
 
-		// whitespace separates
-		pos = s.find(' ');
-		if (pos == std::string::npos) {
-			// try with a tab
-			pos = s.find('\t');
-		}
+		// blanks and tabs separate
+		s = stripWhiteSpace(s);
+		pos = s.find_first_of(" \t");
 		if (pos != std::string::npos) {
 			std::string key = s.substr(0, pos);
 			std::string val = stripWhiteSpace(s.substr(pos));
-- 
2.43.0


From fc868f77b836012849c82e7ce4c8dc780852981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 25/48] fix: synchronising fails when an index cannot be read
 or written

A damaged download left the old index in place and still ended with
success.
---
 src/sync.cxx | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/sync.cxx b/src/sync.cxx
index 4f8a11d..ef1b7a1 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -64,8 +64,7 @@ void sync::uncompress(const std::string& fileName)
 {
 	std::ifstream inFile(fileName + ".zst", std::ios::binary);
 	if (!inFile) {
-		std::cerr << "Cannot open file: " << fileName << "\n";
-		return;
+		throw std::runtime_error("Cannot open file: " + fileName + ".zst");
 	}
 
 	inFile.seekg(0, std::ios::end);
@@ -79,14 +78,9 @@ void sync::uncompress(const std::string& fileName)
 	// Findout memory buffer
 	size_t decompressSize = ZSTD_getFrameContentSize(compressData.data(), compressSize);
 	if (decompressSize == ZSTD_CONTENTSIZE_UNKNOWN) {
-		std::cerr << "Unknown size"
-			<< std::endl;
-		return;
+		throw std::runtime_error("Unknown size: " + fileName);
 	} else if (decompressSize == ZSTD_CONTENTSIZE_ERROR) {
-		std::cerr << "Something wrong in the compress file:"
-			<< fileName
-			<< std::endl;
-		return;
+		throw std::runtime_error("Something wrong in the compress file: " + fileName);
 	}
 
 	// Decompress
@@ -94,21 +88,16 @@ void sync::uncompress(const std::string& fileName)
 	size_t result = ZSTD_decompress(decompressData.data(), decompressSize, compressData.data(), compressSize);
 
 	if (ZSTD_isError(result)) {
-	std::cerr << "Error uncompressing: "
-		<< ZSTD_getErrorName(result)
-		<< std::endl;
-	return;
+		throw std::runtime_error("Error uncompressing: " + fileName
+			+ ": " + ZSTD_getErrorName(result));
 	}
 
 	// Write to file
 	std::ofstream outFile(fileName, std::ios::binary|std::ios::out);
-	if (!outFile)
-		std::cerr << "Can't open file: "
-		<< fileName
-		<< std::endl;
-
 	outFile.write(decompressData.data(),decompressData.size());
 	outFile.close();
+	if (!outFile)
+		throw std::runtime_error("Can't write file: " + fileName);
 }
 
 }
-- 
2.43.0


From 6419df970d940a8defae3d89bd5f063e7a54c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 26/48] fix: an entry of the index does not inherit from the
 one before

A field an entry leaves out was filled with that of the previous entry
or directory, and dependencies with short names were skipped.
---
 src/pkgrepo.cxx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index e572d05..274a3f6 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -383,9 +383,8 @@ void pkgrepo::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cache info;
-
     for (auto i : m_config.dirUrl()) {
+        cache info;
         info.dirName(i.depot + "/" + i.collection);
         std::string repoFile = info.dirName()
             + PKG_REPO_META;
@@ -401,6 +400,8 @@ void pkgrepo::parse()
             + m_config.version()
             + "/"
             + i.collection);
+        // What every record starts with
+        const cache directory = info;
         std::vector<std::string> repoFileContent;
 
         if (parseFile(repoFileContent, repoFile.c_str()) != 0) {
@@ -425,10 +426,8 @@ void pkgrepo::parse()
             if (p[0] == '@') {
                 pos = p.find(".cards-");
                 if (pos != std::string::npos) {
+                    info = directory;
                     info.fileName(p.substr(1));
-                    info.group("");
-                    info.nls("");
-                    info.baseName("");
                     pkgFound = true;
                 }
                 continue;
@@ -487,7 +486,7 @@ void pkgrepo::parse()
                     continue;
                 case RUNTIME_DEPENDENCY:
                     dependency.first = pkgName;
-                    if (p.size() > 14) {
+                    if (p.size() > 11) {
                         dependency.first = p.substr(1, p.size() - 11);
                         dependency.second = strtoul(p.substr((p.size()) - 10).c_str(), nullptr, 0);
                         pkgDependencies.insert(dependency);
-- 
2.43.0


From 71261e49b79977cd3808d3df4480df1a7fef523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 27/48] fix: ports of the directories listed first have
 precedence

---
 src/pkgfile.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index dc5cbac..77bc8fe 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -83,7 +83,6 @@ void pkgfile::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cards::port info;
     unsigned int index = 0;
     bool found = false;
 
@@ -100,7 +99,11 @@ void pkgfile::parse()
                 std::string Pkgfile = i.collection + "/" + portName + PKG_RECEPT;
                 if (!checkFileExist(Pkgfile))
                     continue;
+                // Directories listed first have precedence
+                if (m_listOfPackages.find(portName) != m_listOfPackages.end())
+                    continue;
 
+                cards::port info;
                 info.collection(i.collection);
                 info.release(1);
                 std::vector<std::string> pkgFileContent;
-- 
2.43.0


From 97f5c0e33ea71e304792d22584bad760cd27b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 28/48] fix: verifying a collection reports every package with
 a wrong signature

It stopped at the first one, and a missing archive ended it.
---
 src/repo.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index ddd02e1..89c8ace 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -16,13 +16,18 @@ repo::repo(const CardsArgumentParser& argParser,
     if ((config.keypath().empty()) ||
         (!checkFileExist(keyfile))) {
         for (auto pkg : m_pkgrepo.getListOfPackages()) {
-            if (!m_pkgrepo.checkSign(pkg.first)) {
+            bool genuine = false;
+            try {
+                genuine = m_pkgrepo.checkSign(pkg.first);
+            } catch (const std::runtime_error& e) {
+                // No archive or no key, the other packages are still checked
+                std::cerr << e.what() << std::endl;
+            }
+            if (!genuine)
                 std::cout << "Package "
                     << pkg.first
                     << ": Wrong signature !!!"
                     << std::endl;
-                break;
-            }
             if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                 rotatingCursor();
         }
-- 
2.43.0


From 038299fd8e3628196df3ccbfab7c0ba235e24637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 29/48] fix: a publication that cannot be written, or of an
 unknown collection, fails

The errors were printed and the command ended with success.
---
 src/repo.cxx | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index 89c8ace..6149c28 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -63,24 +63,17 @@ repo::repo(const CardsArgumentParser& argParser,
 
             FILE* mp = fopen(repometa.c_str(),"w");
             if (!mp) {
-                std::cout << "Cannot open "
-                    << repometa
-                    << std::endl;
-                return;
+                throw std::runtime_error("Cannot open " + repometa);
             }
             FILE* fp = fopen(repofile.c_str(),"w");
             if (!fp) {
-                std::cout << "Cannot open "
-                    << repofile
-                    << std::endl;
-                return;
+                throw std::runtime_error("Cannot open " + repofile);
             }
             findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT);
             for (auto file : listOfFiles) {
                 archive a(file);
                 if (stat(file.c_str(), &buf) != 0) {
-                    std::cerr << "Cannot find size of " << file << std::endl;
-                    return;
+                    throw std::runtime_error("Cannot find size of " + file);
                 }
 
                 m_pkgrepo.generateHash(file);
@@ -124,8 +117,13 @@ repo::repo(const CardsArgumentParser& argParser,
                 if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                     rotatingCursor();
             }
-            fclose(fp);
-            fclose(mp);
+            bool written = !ferror(fp) && !ferror(mp);
+            if (fclose(fp) != 0)
+                written = false;
+            if (fclose(mp) != 0)
+                written = false;
+            if (!written)
+                throw std::runtime_error("Cannot write " + repometa + " and " + repofile);
             std::cout << std::endl;
             std::cout << "Compressing "
                 << repometa
@@ -144,10 +142,9 @@ repo::repo(const CardsArgumentParser& argParser,
                 << std::endl;
         else
             if (!found) {
-                std::cerr << "Collection: "
-                    << m_argParser.otherArguments()[0]
-                    << " does not exist !!"
-                    << std::endl;
+                throw std::runtime_error("Collection: "
+                    + m_argParser.otherArguments()[0]
+                    + " does not exist !!");
             }
     }
 
@@ -156,9 +153,7 @@ void repo::compress(const std::string fileName) {
 
     std::ifstream inFile(fileName, std::ios::binary);
     if (!inFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << std::endl;
+        throw std::runtime_error("Cannot open file: " + fileName);
 
     inFile.seekg(0,std::ios::end);
     size_t inSize = inFile.tellg();
@@ -175,21 +170,18 @@ void repo::compress(const std::string fileName) {
     // Compression
     size_t result = ZSTD_compress(compressData.data(), compressSize, inData.data(), inSize, 19);
     if (ZSTD_isError(result))
-        std::cerr << "Compression error: "
-            << ZSTD_getErrorName(result)
-            << std::endl;
+        throw std::runtime_error(std::string("Compression error: ")
+            + ZSTD_getErrorName(result));
 
     std::ofstream outFile(fileName + ".zst", std::ios::binary);
 
     if (!outFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << ".zst"
-            << std::endl;
+        throw std::runtime_error("Cannot open file: " + fileName + ".zst");
 
     outFile.write(compressData.data(), result);
     outFile.close();
-
+    if (!outFile)
+        throw std::runtime_error("Cannot write file: " + fileName + ".zst");
 }
 
 
-- 
2.43.0


From 1b18fbd53c4765cce02597b441866d20cd6fa57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 30/48] fix: listing and searching read every index and keep
 the entries apart

An empty or missing index hid those of the other collections, an entry without
collection, url or packager inherited them from the one before, and names with
capitals were never found.
---
 src/conf.h     |  4 ++--
 src/list.cxx   | 18 ++++++++++++++----
 src/search.cxx | 21 ++++++++++++---------
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/conf.h b/src/conf.h
index 14bc66e..c4f74db 100644
--- a/src/conf.h
+++ b/src/conf.h
@@ -10,8 +10,8 @@ struct DirUrl {
     std::string collection;
     std::string depot;
     std::string url;
-    size_t sFiles;
-    size_t sRepo;
+    size_t sFiles = 0;
+    size_t sRepo = 0;
 
 };
 
diff --git a/src/list.cxx b/src/list.cxx
index 1e0813a..e2e4be1 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -31,6 +31,10 @@ void list::parseSets() {
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
+        // Missing (already reported) or empty: the others are still read
+        if (i.sRepo == 0)
+            continue;
+
         fd = open(s.c_str(),O_RDONLY);
 
 		char *data = static_cast<char*>
@@ -50,7 +54,7 @@ void list::parseSets() {
 		const char *end = data + i.sRepo;
 
         while (p < end) {
-            const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+            const char *nl = (const char*)memchr(p, '\n', end - p);
             if (!nl)
                 nl = end;
 
@@ -87,6 +91,10 @@ void list::parse() {
 
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
+
+        // Missing (already reported) or empty: the others are still read
+        if (i.sRepo == 0)
+            continue;
     
         fd = open(s.c_str(),O_RDONLY);
 
@@ -106,16 +114,18 @@ void list::parse() {
 		const char *p = data;
 		const char *end = data + i.sRepo;
  
-        package pkg;
-        pkg.col=" ";
+        package none;
+        none.col = i.collection;
+        package pkg = none;
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
 			if (p[0] == '\n') {
 				listOfPackages.push_back(pkg);
+				pkg = none;
 			} else {
 				size_t len = nl - p;
 				std::string found(p + 1, len - 1);
diff --git a/src/search.cxx b/src/search.cxx
index 00dc6d4..f2f1d03 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -22,6 +22,10 @@ void search::parse(){
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
+        // Missing (already reported) or empty: the others are still read
+        if (i.sRepo == 0)
+            continue;
+
         fd = open(s.c_str(),O_RDONLY);
 
 		char *data = static_cast<char*>
@@ -40,19 +44,18 @@ void search::parse(){
 		const char *p = data;
 		const char *end = data + i.sRepo;
 
-        package pkg;
-        pkg.collection=" ";
+        package none;
+        none.collection = i.collection;
+        package pkg = none;
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
 			if (p[0] == '\n') {
 				m_listOfPackages.push_back(pkg);
-				pkg.group="";
-				pkg.description="";
-				pkg.nls="";
+				pkg = none;
 			} else {
 				size_t len = nl - p;
 				std::string found(p + 1, len - 1);
@@ -103,7 +106,7 @@ void search::list() {
 		std::string::size_type pos;
 
 		if (m_argParser.isSet(CardsArgumentParser::OPT_NAMES)) {
-			if ( j.name.find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
+			if ( convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
 					continue;
 
 			std::cout << "(" << j.collection << ") ";
@@ -117,9 +120,9 @@ void search::list() {
 					<< std::endl;
 			continue;
 		}
-		pos = j.collection.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		pos = convertToLowerCase(j.collection).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-			pos = j.name.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+			pos = convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.description).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-- 
2.43.0


From 68a5c2238e982eab9f462c35ec986c0b28c7bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 31/48] fix: search looks in sets and categories too, as
 documented

---
 src/search.cxx | 6 ++++++
 src/search.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/search.cxx b/src/search.cxx
index f2f1d03..5223e22 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -87,6 +87,10 @@ void search::parse(){
 					case NLS:
 						pkg.nls = found;
 						break;
+					case SETS:
+					case CATEGORIES:
+						pkg.setsCategories += found + '\n';
+						break;
 				}
 			}
 			p = nl + 1;
@@ -131,6 +135,8 @@ void search::list() {
 			pos = convertToLowerCase(j.packager).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.version).find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		if  (pos == std::string::npos)
+			pos = convertToLowerCase(j.setsCategories).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if (pos != std::string::npos) {
 			if (j.nls.size() > 0) {
 				found = false;
diff --git a/src/search.h b/src/search.h
index 5d5c696..fffcab9 100644
--- a/src/search.h
+++ b/src/search.h
@@ -22,6 +22,7 @@ class search {
 		std::string packager;
 		std::string group;
 		std::string nls;
+		std::string setsCategories;
 	};
 
     const CardsArgumentParser& m_argParser;
-- 
2.43.0


From 4b11e3b59573d43d703ce70d0a47838899c27631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 32/48] fix: looking for files of available packages: missing
 lists and blank lines

A collection without list of files crashed files -b and query -b, and query -b
showed / as a file of every package.
---
 src/files.cxx | 6 +++++-
 src/query.cxx | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/files.cxx b/src/files.cxx
index 573fd95..af14ddc 100644
--- a/src/files.cxx
+++ b/src/files.cxx
@@ -30,11 +30,15 @@ void files::parse() {
 
         // Checking file's access already done
         FILE* fp = fopen (s.c_str(),"r");
+        if (!fp) {
+            std::cerr << "Cannot read the file: " << s << std::endl;
+            continue;
+        }
 
         std::string line(BUFSIZ,'\0');
         char input[BUFSIZ];
         while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
+            input[strcspn(input, "\n")] = '\0';
             line = input;
             if (line[0] == '@')  {
                 pos = line.find(pkgName);
diff --git a/src/query.cxx b/src/query.cxx
index 29f4279..b30c496 100644
--- a/src/query.cxx
+++ b/src/query.cxx
@@ -47,16 +47,20 @@ void query::parse() {
 
         // Checking file's access already done
         FILE* fp = fopen (s.c_str(),"r");
+        if (!fp) {
+            std::cerr << "Cannot read the file: " << s << std::endl;
+            continue;
+        }
 
         std::string line(BUFSIZ,'\0');
         char input[BUFSIZ];
         while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
+            input[strcspn(input, "\n")] = '\0';
             line = input;
             if (line[0] == '@')  {
                 Pkg.name = line.substr(1);
                 continue;
-            } else {
+            } else if (!line.empty()) {
                 line = "/" + line;
                 if (!regexec(&preg, line.c_str(), 0, 0, 0)) {
                     Pkg.collection = i.collection;
-- 
2.43.0


From d795e557afa325a942c1b59e128f6ba314efe9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 33/48] fix: pkginfo -n and others failed with "to many
 options" depending on uninitialised modes

---
 src/pkginfo.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index beda21a..aab3d23 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -26,10 +26,12 @@ pkginfo::pkginfo(const std::string& commandName)
 pkginfo::pkginfo()
     : pkgdbh("pkginfo")
     , m_runtimedependencies_mode(0)
+    , m_runtimelibs_mode(0)
     , m_footprint_mode(0)
     , m_archiveinfo(0)
     , m_metainfo(0)
     , m_installed_mode(0)
+    , m_number_mode(0)
     , m_list_mode(0)
     , m_owner_mode(0)
     , m_details_mode(0)
-- 
2.43.0


From fa5f0bf427e9d232e69cedfbf10fbe82a6ae8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 34/48] fix: cards create released the database lock before
 changing anything

---
 src/create.cxx | 14 ++++++++------
 src/create.h   |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 7314221..7524d5b 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -110,8 +110,9 @@ void create::base()
         }
         found = false;
     }
+    std::unique_ptr<cards::lock> Lock;
     if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-        cards::lock Lock(m_root, true);
+        Lock.reset(new cards::lock(m_root, true));
     for (auto i : list) {
         m_packageName = i;
 
@@ -252,6 +253,12 @@ void create::run()
 	std::set<std::string> non_install_files = applyInstallRules(package.first,
 		package.second, m_actionRules);
 
+	// From the checks to the end of the scripts, nobody else can change
+	// the database
+	std::unique_ptr<cards::lock> Lock;
+	if (m_upgrade || !m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
+		Lock.reset(new cards::lock(m_root, true));
+
 	preRun();
 
 	std::set<std::string> conflicting_files = getConflictsFilesList(package.first,
@@ -269,17 +276,12 @@ void create::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
 	}
 
-    if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
-	    cards::lock Lock(m_root, true);
-
-
     installArchivePackage(m_packageArchiveName,
 		keep_list, non_install_files);
 
diff --git a/src/create.h b/src/create.h
index 6142b1b..61e2a15 100644
--- a/src/create.h
+++ b/src/create.h
@@ -1,6 +1,8 @@
 /* SPDX-License-Identifier: LGPL-2.1-or-later */
 #pragma once
 
+#include <memory>
+
 #include "cards_argument_parser.h"
 #include "enum.h"
 #include "pkgfile.h"
-- 
2.43.0


From d5aa9674d93e25a6587f17e166ed84db461a1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 35/48] fix: cards create of an unknown port emptied the
 environment and ran pkgmk in the ports directory

---
 src/create.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index 7524d5b..a198af9 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -19,6 +19,12 @@ create::create(CardsArgumentParser& argParser)
         treatErrors(m_root + "tmp/setup");
     }
 
+    // Nothing is touched for a port which does not exist
+    if (!isACollection() && !m_pkgfile.checkPackageNameExist(m_argParser.otherArguments()[0])) {
+        m_actualError = ERROR_ENUM_PACKAGE_NOT_FOUND;
+        treatErrors(m_argParser.otherArguments()[0]);
+    }
+
     m_progress = true;
 
     m_tree = m_pkgfile.getListOfPackages();
-- 
2.43.0


From fed314a0b48d15c82503b62b46d6c7b3c44cbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 36/48] fix: cards create --dry of a port emptied the
 environment and built it

---
 src/create.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index a198af9..817220c 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -38,6 +38,10 @@ create::create(CardsArgumentParser& argParser)
     }
     if (isACollection())
         buildCollection();
+    else if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
+        std::cout << m_argParser.otherArguments()[0]
+            << " ===> SHOULD BE BUILD !"
+            << std::endl;
     else
         buildBinary(m_argParser.otherArguments()[0]);
 }
-- 
2.43.0


From 6942ac0a76bec75549162b82204cbe3c6143de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 37/48] fix: cards create installed the packages it had just
 installed or built again and again

---
 src/create.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index 817220c..eaa41da 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -305,6 +305,8 @@ void create::run()
         cleanupMetaFiles(m_root);
         m_listOfPackages[package.first] = package.second;
     }
+	// From now on it is known as installed
+	m_listOfAlias[package.first] = package.first;
 	postRun();
 
 }
-- 
2.43.0


From 67e1abf6a7204623f46753c5f749e329794743e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:35 +0000
Subject: [PATCH 38/48] fix: an interrupted or failing download left a cut
 index, key or archive in place

---
 src/dwl.cxx  | 18 +++++++++++++++---
 src/sync.cxx |  9 ++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 9584b5c..5e610f5 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -93,14 +93,26 @@ void dwl::get()
 	curl_easy_setopt(m_curl, CURLOPT_VERBOSE, 1L);
 #endif
 	m_curlCode = curl_easy_perform(m_curl);
-	if ( m_curlCode != CURLE_OK) {
+	// Nothing is put in place unless all of it is written
+	std::string partFile = m_destinationFile.filename + ".part";
+	bool written = true;
+	if (m_destinationFile.stream)
+		written = fclose(m_destinationFile.stream) == 0;
+	if ( m_curlCode != CURLE_OK || !written) {
+		if (m_destinationFile.stream)
+			unlink(partFile.c_str());
+		m_destinationFile.stream = nullptr;
 		std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
 		throw std::runtime_error ( "\n\nURL   : " +
 		m_url + "\nFILE  : " +
 		m_downloadFileName +"\n\n !!! download failed !!! \n");
 	}
 	if (m_destinationFile.stream) {
-		fclose(m_destinationFile.stream);
+		if (rename(partFile.c_str(), m_destinationFile.filename.c_str()) == -1) {
+			unlink(partFile.c_str());
+			throw std::runtime_error("Cannot rename " + partFile
+				+ ": " + strerror(errno));
+		}
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
 		m_destinationFile.acmodtime.actime = fT;
@@ -128,7 +140,7 @@ size_t dwl::writeToStream(void *buffer,
 	InfoFile *outputf = (InfoFile *)stream;
 	if ( outputf && ! outputf->stream)
 	{
-		outputf->stream=fopen(outputf->filename.c_str(), "w");
+		outputf->stream=fopen((outputf->filename + ".part").c_str(), "w");
 		if ( ! outputf->stream )
 			return -1;
 	}
diff --git a/src/sync.cxx b/src/sync.cxx
index ef1b7a1..5fc0e29 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -92,12 +92,15 @@ void sync::uncompress(const std::string& fileName)
 			+ ": " + ZSTD_getErrorName(result));
 	}
 
-	// Write to file
-	std::ofstream outFile(fileName, std::ios::binary|std::ios::out);
+	// Write to file, which is replaced at once
+	std::string partFile = fileName + ".part";
+	std::ofstream outFile(partFile, std::ios::binary|std::ios::out);
 	outFile.write(decompressData.data(),decompressData.size());
 	outFile.close();
-	if (!outFile)
+	if (!outFile || rename(partFile.c_str(), fileName.c_str()) == -1) {
+		unlink(partFile.c_str());
 		throw std::runtime_error("Can't write file: " + fileName);
+	}
 }
 
 }
-- 
2.43.0


From 3a8c329dadf1f4e6e8123bfdee750001a7956d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:39 +0000
Subject: [PATCH 39/48] fix: upgrade and create dropped the record of a package
 before removing its files

---
 src/create.cxx  |  9 ++++-----
 src/pkgdbh.cxx  | 11 +++++------
 src/upgrade.cxx |  2 +-
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index eaa41da..324a5c7 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -126,12 +126,12 @@ void create::base()
     for (auto i : list) {
         m_packageName = i;
 
+        // Remove the files on hd
+        removePackageFiles(m_packageName);
+
         // Remove metadata about the package removed
         if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_META))
             removePackageFilesRefsFromDB(m_packageName);
-
-        // Remove the files on hd
-        removePackageFiles(m_packageName);
     }
 }
 bool create::isACollection()
@@ -286,9 +286,8 @@ void create::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		// Remove metadata about the package removed
-		removePackageFilesRefsFromDB(package.first);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
+		// The record of the old version stays until the new one replaces it
 		removePackageFiles(package.first, keep_list);
 	}
 
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 3c3b568..f69c18a 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -972,14 +972,8 @@ bool pkgdbh::checkPackageNameBuildDateSame(const std::pair<std::string,time_t>&
 // Remove meta data about the removed package
 void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 {
-	if ( checkPackageNameExist(name)){
-		m_packageVersion = m_listOfPackages[name].version();
-		m_packageRelease = itos(m_listOfPackages[name].release());
-		m_packageCollection = m_listOfPackages[name].collection();
-	}
 	std::set<std::string> metaFilesList;
 	const std::string packagedir = m_root + PKG_DB_DIR ;
-	const std::string arch = m_listOfPackages[name].arch();
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
 	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
@@ -1006,6 +1000,11 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 // Remove the physical files after followings some rules
 void pkgdbh::removePackageFiles(const std::string& name)
 {
+	if ( checkPackageNameExist(name)){
+		m_packageVersion = m_listOfPackages[name].version();
+		m_packageRelease = itos(m_listOfPackages[name].release());
+		m_packageCollection = m_listOfPackages[name].collection();
+	}
 	m_filesList = m_listOfPackages[name].files;
 	m_listOfPackages.erase(name);
 	m_listOfAlias.erase(name);
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 7ec9a90..f0769da 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -156,8 +156,8 @@ void upgrade::upgradePackages()
 	for (auto i : m_ListOfPackagesToDelete) {
 		cards::lock Lock(m_root,true);
 		reloadDatabase();
-		removePackageFilesRefsFromDB(i);
 		removePackageFiles(i);
+		removePackageFilesRefsFromDB(i);
 		syslog(LOG_INFO,"%s removed",i.c_str());
 	}
 	m_config.purge();
-- 
2.43.0


From d5d264ffb57cbb5f092636e05d734db562cc75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 40/48] fix: a record told the new version before it listed the
 files of the new version

---
 src/pkgdbh.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index f69c18a..12ae0d9 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -719,7 +719,6 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
 		metaFilesList.insert(PKG_POST_REMOVE);
 
-	metaFilesList.insert(METAFILE);
 	std::set<std::string> fileContent;
 	if ( parseFile(fileContent,METAFILE) == -1 ) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_FIND_FILE;
@@ -748,6 +747,9 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 	}
 	leftovers.erase(PKG_FILES + 1);
 
+	// The METAFILE comes last
+	metaFilesList.erase(METAFILE);
+	leftovers.erase(PKG_META + 1);
 	for (auto i : metaFilesList)
 	{
 		char * destFile = const_cast<char*>(i.c_str());
@@ -771,6 +773,14 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 			treatErrors(packagenamedir + "/" + i);
 		}
 	}
+	// Where there is a record of an older version, it tells the new version
+	// only when everything else in it is the one of the new version
+	if (checkFileExist(packagenamedir + PKG_FILES))
+		addPackageFilesRefsToDB(name, info);
+	if (rename(METAFILE, (packagenamedir + PKG_META).c_str()) == -1) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_RENAME_FILE;
+		treatErrors(METAFILE + std::string(" to ") + packagenamedir + PKG_META);
+	}
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
 }
 void pkgdbh::addPackagesFilesRefsToDB()
-- 
2.43.0


From d2e798829c17e5ce37f6ecb67c6c2034fbfecc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 41/48] fix: a configuration file nobody could read was taken
 for an empty one

---
 src/conf.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 4d32d3f..facc8c2 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -13,8 +13,12 @@ conf::conf(const std::string& filename)
 void conf::parseConfig()
 {
 	FILE* fp = fopen(m_filename.c_str(), "r");
-	if (!fp)
+	if (!fp) {
+		// No file at all leaves the defaults
+		if (errno != ENOENT)
+			throw RunTimeErrorWithErrno(_("could not open ") + m_filename);
 		return;
+	}
 	char line[BUFSIZ];
 	std::string s;
 	while (fgets(line, BUFSIZ, fp)) {
@@ -120,7 +124,12 @@ void conf::parseConfig()
 			}
 		}
 	}
+	const int error = ferror(fp) ? errno : 0;
 	fclose(fp);
+	if (error) {
+		errno = error;
+		throw RunTimeErrorWithErrno(_("could not read ") + m_filename);
+	}
 	if (!m_url.empty()) {
 		for (auto& i : m_dirUrl) {
 			if (i.url.empty())
-- 
2.43.0


From 89fe99c3de78d6f72cd4f20e55153d4b3968d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 42/48] fix: upgrade removed the packages of a collection whose
 index it could not read

---
 src/pkgrepo.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 274a3f6..278b205 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -405,6 +405,11 @@ void pkgrepo::parse()
         std::vector<std::string> repoFileContent;
 
         if (parseFile(repoFileContent, repoFile.c_str()) != 0) {
+            // What cannot be read is not the same as what is not there
+            if (errno != ENOENT) {
+                m_actualError = ERROR_ENUM_CANNOT_OPEN_FILE;
+                treatErrors(repoFile);
+            }
             std::cerr << "Cannot read the file: "
                       << repoFile
                       << std::endl
-- 
2.43.0


From e7ce0c24b88cf8babf2d28879c7f7d56ef0f1680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 43/48] fix: a package was recorded although its .META could
 not be extracted

---
 src/pkgdbh.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 12ae0d9..a4b5ac4 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1386,6 +1386,11 @@ void pkgdbh::installArchivePackage
 			// continue trying to install the rest of the package.
 			const char* msg = archive_error_string(archive);
 			std::cerr << m_utilName << ": could not install " + archive_filename << ": " << msg << std::endl;
+			// Without it there is nothing to record
+			if (archive_filename == METAFILE) {
+				m_actualError = cards::ERROR_ENUM_CANNOT_CREATE_FILE;
+				treatErrors(original_filename);
+			}
 			continue;
 
 		}
-- 
2.43.0


From 0d9167cf687a525e6ef38a1b258ce6dd0d8596ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:11 +0000
Subject: [PATCH 44/48] fix: purge kept silent about archives it could not
 remove

---
 src/conf.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index facc8c2..55af63e 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -186,9 +186,13 @@ void conf::purge()
 		if (collection.url.size() == 0 )
 			continue;
 
-		findRecursiveFile(listOfFiles, path.c_str(),WS_DEFAULT);
-		for (auto file : listOfFiles)
-			remove(file.c_str());
+		if (findRecursiveFile(listOfFiles, path.c_str(),WS_DEFAULT) != WALK_OK
+			&& checkFileExist(path))
+			throw RunTimeErrorWithErrno(_("could not read directory ") + path);
+		for (auto file : listOfFiles) {
+			if (remove(file.c_str()) == -1 && errno != ENOENT)
+				throw RunTimeErrorWithErrno(_("could not remove ") + file);
+		}
 	}
 }
 conf::~conf()
-- 
2.43.0


From a9964fff347b0a0405e3a9aaac924d8efc34c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:09 +0000
Subject: [PATCH 45/48] fix: a publication that failed or was interrupted left
 a cut index in place

---
 src/repo.cxx | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index 6149c28..9fde663 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -61,15 +61,20 @@ repo::repo(const CardsArgumentParser& argParser,
                 << repofile
                 << std::endl;
 
-            FILE* mp = fopen(repometa.c_str(),"w");
+            // What is published is replaced once all is written
+            const std::string metapart = repometa + ".part";
+            const std::string filepart = repofile + ".part";
+            FILE* mp = fopen(metapart.c_str(),"w");
             if (!mp) {
-                throw std::runtime_error("Cannot open " + repometa);
+                throw std::runtime_error("Cannot open " + metapart);
             }
-            FILE* fp = fopen(repofile.c_str(),"w");
+            FILE* fp = fopen(filepart.c_str(),"w");
             if (!fp) {
-                throw std::runtime_error("Cannot open " + repofile);
+                throw std::runtime_error("Cannot open " + filepart);
+            }
+            if (findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT) != WALK_OK) {
+                throw std::runtime_error("Cannot read directory " + path);
             }
-            findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT);
             for (auto file : listOfFiles) {
                 archive a(file);
                 if (stat(file.c_str(), &buf) != 0) {
@@ -122,7 +127,9 @@ repo::repo(const CardsArgumentParser& argParser,
                 written = false;
             if (fclose(mp) != 0)
                 written = false;
-            if (!written)
+            if (!written ||
+                rename(filepart.c_str(), repofile.c_str()) == -1 ||
+                rename(metapart.c_str(), repometa.c_str()) == -1)
                 throw std::runtime_error("Cannot write " + repometa + " and " + repofile);
             std::cout << std::endl;
             std::cout << "Compressing "
@@ -161,6 +168,8 @@ void repo::compress(const std::string fileName) {
 
     std::vector<char> inData(inSize);
     inFile.read(inData.data(), inSize);
+    if (!inFile)
+        throw std::runtime_error("Cannot read file: " + fileName);
     inFile.close();
 
     // Find Out the requested size
@@ -173,14 +182,15 @@ void repo::compress(const std::string fileName) {
         throw std::runtime_error(std::string("Compression error: ")
             + ZSTD_getErrorName(result));
 
-    std::ofstream outFile(fileName + ".zst", std::ios::binary);
+    const std::string part = fileName + ".zst.part";
+    std::ofstream outFile(part, std::ios::binary);
 
     if (!outFile)
-        throw std::runtime_error("Cannot open file: " + fileName + ".zst");
+        throw std::runtime_error("Cannot open file: " + part);
 
     outFile.write(compressData.data(), result);
     outFile.close();
-    if (!outFile)
+    if (!outFile || rename(part.c_str(), (fileName + ".zst").c_str()) == -1)
         throw std::runtime_error("Cannot write file: " + fileName + ".zst");
 }
 
-- 
2.43.0


From be2a5c32a9b9984f6cb2619270c27855f18d9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:05 +0000
Subject: [PATCH 46/48] fix: upgrade told an absurd percentage and a missing
 depot when nothing is installed

---
 src/diff.cxx    | 3 +++
 src/upgrade.cxx | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 3aaab25..9104075 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -105,6 +105,9 @@ const unsigned long diff::RemoveSize()
 }
 const unsigned int diff::ratio()
 {
+	// With nothing installed, nothing is obsolete
+	if (m_listOfPackages.empty())
+		return 0;
 	auto p = ((float)m_packagesOK/m_listOfPackages.size())*100;
 	return 100 - (int)p;
 }
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index f0769da..da6ac34 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -51,7 +51,7 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 		}
 
 	}
-	bool found = false;
+	bool found = m_listOfPackages.empty();
 	for (auto i:m_listOfPackages) {
 		if (m_pkgrepo.checkBinaryExist(i.first)) {
 			found = true;
-- 
2.43.0


From 78ba2acd9d11b8c385d7202f163b70f579b567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:14 +0000
Subject: [PATCH 47/48] fix: commands downloading the same file at once wrote
 the same partial file and failed

---
 src/dwl.cxx | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 5e610f5..bf3019e 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -2,8 +2,61 @@
 
 #include "dwl.h"
 
+#include <fcntl.h>
+#include <sys/file.h>
+#include <sys/stat.h>
+
 namespace cards {
 
+// The file under way, and what keeps it ours until it is in place
+static std::string partFile;
+static int partLock = -1;
+
+static void closePart()
+{
+	if (partLock != -1)
+		close(partLock);
+	partLock = -1;
+}
+static FILE* openPart(const std::string& filename)
+{
+	partFile = filename + ".part";
+	for (;;) {
+		int fd = open(partFile.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0666);
+		if (fd == -1)
+			return nullptr;
+		if (flock(fd, LOCK_EX | LOCK_NB) == -1) {
+			close(fd);
+			// Another command is downloading the same file
+			std::string own = filename + "." + std::to_string(getpid()) + ".part";
+			if (partFile == own)
+				return nullptr;
+			partFile = own;
+			continue;
+		}
+		struct stat mine, there;
+		int found = stat(partFile.c_str(), &there);
+		if (fstat(fd, &mine) == -1 || (found == -1 && errno != ENOENT)) {
+			close(fd);
+			return nullptr;
+		}
+		if (found == -1 || mine.st_dev != there.st_dev || mine.st_ino != there.st_ino) {
+			// The other command just put it in place
+			close(fd);
+			continue;
+		}
+		partLock = fcntl(fd, F_DUPFD_CLOEXEC, 0);
+		FILE* stream = nullptr;
+		if (partLock != -1 && ftruncate(fd, 0) == 0)
+			stream = fdopen(fd, "w");
+		if (! stream) {
+			close(fd);
+			closePart();
+		}
+		return stream;
+	}
+}
+
 dwlEvent::dwlEvent()
 {
 	dwl::SuscribeToEvents(this);
@@ -94,7 +147,6 @@ void dwl::get()
 #endif
 	m_curlCode = curl_easy_perform(m_curl);
 	// Nothing is put in place unless all of it is written
-	std::string partFile = m_destinationFile.filename + ".part";
 	bool written = true;
 	if (m_destinationFile.stream)
 		written = fclose(m_destinationFile.stream) == 0;
@@ -102,6 +154,7 @@ void dwl::get()
 		if (m_destinationFile.stream)
 			unlink(partFile.c_str());
 		m_destinationFile.stream = nullptr;
+		closePart();
 		std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
 		throw std::runtime_error ( "\n\nURL   : " +
 		m_url + "\nFILE  : " +
@@ -109,10 +162,13 @@ void dwl::get()
 	}
 	if (m_destinationFile.stream) {
 		if (rename(partFile.c_str(), m_destinationFile.filename.c_str()) == -1) {
+			int error = errno;
 			unlink(partFile.c_str());
+			closePart();
 			throw std::runtime_error("Cannot rename " + partFile
-				+ ": " + strerror(errno));
+				+ ": " + strerror(error));
 		}
+		closePart();
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
 		m_destinationFile.acmodtime.actime = fT;
@@ -140,7 +196,7 @@ size_t dwl::writeToStream(void *buffer,
 	InfoFile *outputf = (InfoFile *)stream;
 	if ( outputf && ! outputf->stream)
 	{
-		outputf->stream=fopen((outputf->filename + ".part").c_str(), "w");
+		outputf->stream=openPart(outputf->filename);
 		if ( ! outputf->stream )
 			return -1;
 	}
-- 
2.43.0


From 8f15a47885067c39569e740c8603bebdfd445256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:00 +0000
Subject: [PATCH 48/48] fix: an empty download was a success that left the old
 file in place

---
 src/dwl.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index bf3019e..b6c1f3a 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -150,7 +150,8 @@ void dwl::get()
 	bool written = true;
 	if (m_destinationFile.stream)
 		written = fclose(m_destinationFile.stream) == 0;
-	if ( m_curlCode != CURLE_OK || !written) {
+	// None of the files is ever empty
+	if ( m_curlCode != CURLE_OK || !written || ! m_destinationFile.stream) {
 		if (m_destinationFile.stream)
 			unlink(partFile.c_str());
 		m_destinationFile.stream = nullptr;
-- 
2.43.0

