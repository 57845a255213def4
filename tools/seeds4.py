H4=["h4.sh","h2.sh"]; UP="src/upgrade.cxx"
SEEDS=[
{"id":"s40-obsolete-ones-first","property":"C12","files":H4,"edits":[(UP,"	for (auto i : m_ListOfPackagesToUpdate)\n		m_pkgrepo.generateDependencies(i);\n",
"""	// Make room first
	for (const auto& i : m_ListOfPackagesToDelete) {
		cards::lock Lock(m_root,true);
		reloadDatabase();
		removePackageFiles(i);
		removePackageFilesRefsFromDB(i);
		syslog(LOG_INFO,"%s removed",i.c_str());
	}
	m_ListOfPackagesToDelete.clear();
	for (const auto& i : m_ListOfPackagesToUpdate)
		m_pkgrepo.generateDependencies(i);
""")],
 "needs":"an upgrade with an obsolete automatic package that is interrupted before everything is upgraded","breaks":"the obsolete package is gone while the old version that needs it is still installed",
 "demo":'''
key k; client cli; for p in a b c d e g i j; do arc cli $p 1 1 1700000001; done
arc cli lib 1 1 1700000001; arc cli tool 1 1 1700000001 Rlib1700000001; arc cli x 1 1 1700000001; publish cli k
cards sync; cards install tool a b c d e g i j x || fail "install: $(tail -3 $W/out)"; auto lib || fail "lib is not automatic"
arc cli a 2 1 1700000002; dies cli a; arc cli tool 2 1 1700000002; rm $(coll cli)/lib.cards*; publish cli k
cards upgrade --proceed && fail "not interrupted"
[ "$(ver a)" = 2 ] || fail "a: $(ver a) $(tail -3 $W/out)"
[ "$(ver tool)" = 1 ] || fail "tool: $(ver tool)"
has lib || fail "lib is gone, tool 1 needs it"
[ -e $S/opt/lib ] || fail "the file of lib is gone"
'''},
{"id":"s41-old-index-goes-first","property":"C13","files":H4,"edits":[("src/sync.cxx","		destinationFile.fileName = m_pkgRepoFile;\n","		// A stale index is worse than none\n		unlink((destinationFile.dirName + m_pkgRepoFile).c_str());\n		destinationFile.fileName = m_pkgRepoFile ;\n"),("src/sync.cxx",'#include "sync.h"\n','#include "sync.h"\n#include <unistd.h>\n')],
 "needs":"a synchronisation that cannot reach one of the collections","breaks":"the old index is lost though the new one could not be fetched",
 "demo":'''
key k; client one two; arc one a 1 1 1700000001; arc two b 1 1 1700000001; publish one k; publish two k
cards sync || fail "sync: $(tail -3 $W/out)"; cp $S/depot/one/.REPO $W/1; cp $S/depot/two/.REPO $W/2
mv $(coll two) $W/away
cards sync && fail "success without collection two"
cmp $S/depot/one/.REPO $W/1 || fail "the index of one changed"
cmp $S/depot/two/.REPO $W/2 || fail "the index of two changed"
'''},
{"id":"s42-offline-upgrade","property":"C13","files":H4,"edits":[("src/sync.cxx","	cards::dwl(destinationFiles, m_progress);\n","""	try {
		cards::dwl(destinationFiles, m_progress) ;
	} catch (const std::exception& e) {
		// Go on with the indices that are there
		std::cerr << e.what() << std::endl;
	}
""")],
 "needs":"an upgrade when one of several collections cannot be reached","breaks":"packages are upgraded against a mixture of new and old indices",
 "demo":'''
key k; client one two; arc one a 1 1 1700000001; arc two b 1 1 1700000001; publish one k; publish two k
cards sync; cards install a b || fail "install: $(tail -3 $W/out)"
arc one a 2 1 1700000002; publish one k; mv $(coll two) $W/away
cards upgrade --proceed && fail "success without collection two"
[ "$(ver a)" = 1 ] || fail "a was upgraded although collection two could not be synchronised"
'''},
{"id":"s43-upgrade-goes-on","property":"C13","files":H4,"edits":[(UP,"		run();\n		std::string p = i.first","""		try {
			run();
		} catch (const std::exception& e) {
			std::cerr << e.what() << std::endl;
			failed = true;
			continue;
		}
		std::string p = i.first"""),(UP,"	for (auto i : m_ListOfPackagesToUpdate)\n		m_pkgrepo.generateDependencies(i);\n","	bool failed = false;\n	for (auto i : m_ListOfPackagesToUpdate)\n		m_pkgrepo.generateDependencies(i);\n"),(UP,"	m_config.purge();\n","	if (failed)\n		throw std::runtime_error(_(\"some packages could not be upgraded\"));\n	m_config.purge();\n")],
 "needs":"an upgrade in which the installation of a dependency fails","breaks":"the package is upgraded without the dependency it needs",
 "demo":'''
key k; client cli; arc cli a 1 1 1700000001; publish cli k
cards sync; cards install a || fail "install: $(tail -3 $W/out)"
arc cli lib 1 1 1700000002; arc cli a 2 1 1700000002 Rlib1700000002; publish cli k
: > $D/lib
cards upgrade --proceed && fail "success although lib could not be recorded"
[ "$(ver a)" = 1 ] || fail "a was upgraded without lib"
'''},
{"id":"s44-unreadable-archives-left-out","property":"C13","files":H4,"edits":[("src/repo.cxx","                archive a(file);\n                if (stat(file.c_str(), &buf) != 0) {","""                if (access(file.c_str(), R_OK) != 0) {
                    continue;
                }
                archive a(file);
                if (stat(file.c_str(), &buf) != 0)  {"""),("src/repo.cxx",'#include "repo.h"\n','#include "repo.h"\n#include <unistd.h>\n')],
 "needs":"an archive that cannot be read at the moment of publishing","breaks":"the package silently disappears from the published collection",
 "demo":'''
key k; alone cli; arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; publish cli k
cp $W/k.pem $S/keys/.private.key; echo "keypath /keys" >> $S/etc/cards.conf
grep -q '^@b' $(coll cli)/.REPO || fail "b is not published"
[ "$(id -u)" = 0 ] || exit 0
chmod -R a+rwX $W/root $W; chmod 600 $(coll cli)/b.cards*
# an unprivileged user owns the process: in its user namespace it cannot read what root keeps to itself
setpriv --reuid 65534 --regid 65534 --clear-groups unshare -Ur sh -c 'exec /usr/sbin/chroot "$0" /usr/bin/sh -c :' "$S" 2> /dev/null || fail "no namespace"
setpriv --reuid 65534 --regid 65534 --clear-groups unshare -U --map-user=1000 --keep-caps /usr/sbin/chroot "$S" /usr/bin/cards repo cli > "$W/out" 2>&1
rc=$?; grep -q Generating $W/out || fail "did not start: $(cat $W/out)"
grep -q '^@b' $(coll cli)/.REPO || [ $rc != 0 ] || fail "b is no longer published, status 0: $(cat $W/out)"
'''},
{"id":"s45-marks-at-the-end","property":"C12","files":H4,"edits":[("src/install.cxx","		std::string p = \"\";\n		if (checkPackageNameExist(packageArchive.name())) {\n			m_upgrade = true;\n			p = \"Upgrade \";\n		} else {\n			m_upgrade = false;\n		}\n","		std::string p = \"\";\n		if (checkPackageNameExist(packageArchive.name())) {\n			m_upgrade = true;\n			p = \"Upgrade \";\n		} else {\n			m_upgrade = false;\n			// Every new package starts as an automatic one\n			setDependency();\n			if (i.second == 0)\n				asked.insert(packageArchive.name());\n		}\n"),
("src/install.cxx","	getLocalePackagesList();\n\n","	getLocalePackagesList();\n	std::set<std::string> asked;\n\n"),
("src/install.cxx","			syslog(LOG_INFO,\"%s\",p.c_str());\n\n	}\n","			syslog(LOG_INFO,\"%s\",p.c_str());\n\n	}\n	for (auto i : asked) {\n		std::set<std::string> meta;\n		const std::string record = m_root + PKG_DB_DIR + i + PKG_META;\n		std::vector<std::string> lines;\n		parseFile(lines, record.c_str());\n		std::ofstream out(record);\n		for (auto l : lines)\n			if (l != \"d1\")\n				out << l << \"\\n\";\n	}\n"),("src/install.cxx",'#include "install.h"\n','#include "install.h"\n#include <fstream>\n')],
 "needs":"an installation of several packages that is interrupted after the first","breaks":"a package that was asked for is marked automatic and goes with the next removal",
 "demo":'''
key k; client cli; arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; dies cli b; publish cli k; cards sync
cards install a b && fail "not interrupted"
has a || fail "a is not there: $(tail -3 $W/out)"
auto a && fail "a is marked automatic although it was asked for"
has b && { auto b && fail "b is marked automatic although it was asked for"; }
exit 0
'''},
{"id":"s46-purge-first","property":"C12","files":H4,"edits":[(UP,"	for (auto i : m_ListOfPackagesToUpdate)\n		m_pkgrepo.generateDependencies(i);\n","	m_config.purge();\n	for (const auto& i : m_ListOfPackagesToUpdate)\n		m_pkgrepo.generateDependencies(i);\n"),(UP,"	m_config.purge();\n	std::cout << std::endl\n","	std::cout << std::endl\n")],
 "needs":"an upgrade that is interrupted","breaks":"the downloaded archives are already gone although nothing is upgraded",
 "demo":'''
key k; client cli; arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; publish cli k
cards sync; cards install a b || fail "install: $(tail -3 $W/out)"
ls $S/depot/cli/b.cards* > /dev/null || fail "b was not downloaded"
arc cli a 2 1 1700000002; dies cli a; publish cli k
cards upgrade --proceed && fail "not interrupted"
[ "$(ver a)" = 2 ] || fail "a: $(ver a)"
ls $S/depot/cli/b.cards* > /dev/null || fail "the archive of b is gone before the upgrade was complete"
'''},
]
