R="src/pkgrepo.cxx"; H2=["h2.sh"]; H1=["h.sh"]
SEEDS=[
{"id":"s09-dependency-build-ignored","property":"C01","files":H2,"edits":[(R,"if (!m_dbh.checkPackageNameBuildDateSame(*sit))","if (!m_dbh.checkPackageNameExist(sit->first))")],
 "needs":"a dependency that is installed, but in an older build than the one the new package was built with","breaks":"the outdated dependency is not updated",
 "demo":'''
alone cli; arc cli b 1 1 1700000001
key k; publish cli k; cards install b || fail "install b: $(tail -3 $W/out)"
arc cli b 2 1 1700000100; arc cli a 1 1 1700000101 Rb1700000100; publish cli k
cards install a || fail "install a: $(tail -3 $W/out)"
has a || fail "a not installed"; [ "$(ver b)" = 2 ] || fail "b is still version $(ver b)"
'''},
{"id":"s10-first-key-for-all","property":"C02","files":H2,"edits":[(R,"std::string keyfile(m_listOfPackages[name].dirName());","std::string keyfile(m_config.dirUrl().front().depot + \"/\" + m_config.dirUrl().front().collection);")],
 "needs":"two collections signed with different keys","breaks":"an archive of the second collection signed with the first collection's key is accepted (and genuine ones are refused)",
 "demo":'''
key k1; key k2; arc gui x 1 1 1700000001; arc cli a 1 1 1700000001; publish gui k1; publish cli k1
cp $W/k2.pub $(coll cli)/.PKEY; client gui cli; cards sync || fail "sync: $(tail -3 $W/out)"
cards install a && fail "a package not signed with its collection's key was installed"
has a && fail "recorded"
publish cli k2; cards sync || fail sync; cards install a || fail "genuine package refused"
'''},
{"id":"s11-sweep-stops-at-shared","property":"C03","files":H2,"edits":[("src/pkgrm.cxx","\t\t\t\t\t\tif ( name == j )\n\t\t\t\t\t\t\tcontinue;","\t\t\t\t\t\tif ( name == j || m_listofDependencies.count(j) )\n\t\t\t\t\t\t\tbreak;")],
 "needs":"a package with several dependencies one of which another manually installed package needs as well","breaks":"automatically installed dependencies that are still needed are removed with an unrelated package",
 "demo":'''
alone cli; key k
arc cli m1 1 1 1700000001 Rs1700000001; arc cli m2 1 1 1700000001 Rs1700000001 Rt1700000001
arc cli s 1 1 1700000001; arc cli t 1 1 1700000001; arc cli z 1 1 1700000001; publish cli k
cards install m1 m2 z || fail "install: $(tail -3 $W/out)"
cards remove z || fail "remove: $(tail -3 $W/out)"
has z && fail "z still there"; for p in m1 m2 s t; do has $p || fail "$p removed"; done
'''},
{"id":"s12-forced-upgrade-loses-mark","property":"C04","files":H2,"edits":[("src/pkgadd.cxx","\t\tif (checkDependency(package.first))\n\t\t\tsetDependency();","\t\tif (checkDependency(package.first) && conflicting_files.empty())\n\t\t\tsetDependency();")],
 "needs":"a system upgrade of an automatically installed package that takes over a file of another package","breaks":"the package becomes a manually installed one, so it is never swept",
 "demo":'''
alone cli; key k
arc cli a 1 1 1700000001 Rb1700000001; arc cli b 1 1 1700000001; arc cli c 1 1 1700000001; publish cli k
cards install a c || fail "install: $(tail -3 $W/out)"
auto b || fail "b is not automatic"
arc cli b 2 1 1700000100; p=$W/p; printf 'from b' > $p/opt/c; printf '.META\\nopt/\\nopt/b\\nopt/c\\n' > $p/.MTREE
tar -C $p --owner=0 --group=0 --no-recursion -czf $(coll cli)/b.cards-2-$M-1.tar.gz .META .MTREE opt opt/b opt/c
publish cli k; cards upgrade --proceed || fail "upgrade: $(tail -3 $W/out)"
[ "$(ver b)" = 2 ] || fail "b not upgraded"; auto b || fail "b is no longer automatic"
'''},
{"id":"s13-release-ignored","property":"C05","files":H2,"edits":[("src/diff.cxx","\t\t\t\tif (packageNameToDeal.installed_version == packageNameToDeal.available_version) {","\t\t\t\tif (m_listOfPackages[i.first].version() == m_pkgrepo.version(i.first)) {")],
 "needs":"an update that changes the release of a package and not its version","breaks":"the update is reported as a rebuild",
 "demo":'''
alone cli; key k
arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; publish cli k; cards install a b || fail "install: $(tail -3 $W/out)"
arc cli a 1 2 1700000100; arc cli b 1 1 1700000100; publish cli k
cards diff || fail "diff"
cat $W/out | tr -d ' ' | grep -qi 'outofdate[^0-9]*1' || fail "$(cat $W/out)"
'''},
{"id":"s14-obsolete-companions-kept","property":"C05","files":H2,"edits":[("src/upgrade.cxx","\t\t\tif(i.second.dependency()) {","\t\t\tif(i.second.dependency() && i.second.group().empty()) {")],
 "needs":"an automatically installed companion package that is no longer offered","breaks":"the companion stays after the upgrade although it is obsolete",
 "demo":'''
alone cli; key k; echo "group devel" >> $S/etc/cards.conf
arc cli a 1 1 1700000001 Rb.devel1700000001; arc cli c 1 1 1700000001; arc cli d 1 1 1700000001; arc cli e 1 1 1700000001; arc cli b 1 1 1700000001; arc cli b.devel 1 1 1700000001 gdevel; publish cli k
cards install a || fail "install: $(tail -3 $W/out)"
has b.devel && auto b.devel || fail "b.devel is not automatic"
rm $(coll cli)/b.devel.cards-*; arc cli a 1 1 1700000100; arc cli b 2 1 1700000100; publish cli k
cards upgrade --proceed || fail "upgrade: $(tail -3 $W/out)"
has b.devel && fail "the obsolete package is still there"; has a || fail "a is gone"
'''},
{"id":"s15-same-length-not-unpacked","property":"C09","files":H2,"edits":[("src/sync.cxx","\tsize_t result = ZSTD_decompress(","\tconst size_t result = ZSTD_decompress("),("src/sync.cxx","\t// Write to file, which","\t// Nothing to write when the index is there already\n\tstd::ifstream current(fileName, std::ios::binary|std::ios::ate);\n\tif (current && (size_t)current.tellg() == decompressData.size())\n\t\treturn;\n\t// Write to file, which")],
 "needs":"a new published index with exactly the length of the one synchronised before","breaks":"the old index stays while the command succeeds",
 "demo":'''
key k; arc cli a 1 1 1700000001; publish cli k; client cli; cards sync || fail "sync: $(tail -3 $W/out)"
arc cli a 2 1 1700000002; publish cli k
python3 - $(coll cli)/.REPO $S/depot/cli/.REPO <<'P' || fail "setup"
import sys, re
new, old = open(sys.argv[1]).read(), open(sys.argv[2]).read()
d = len(old) - len(new); new = re.sub(r"Da+\\n", "D" + "a" * (1 + max(0, d)) + "\\n", new) if d >= 0 else new
if d < 0: open(sys.argv[2], "w").write(re.sub(r"Da\\n", "D" + "a" * (1 - d) + "\\n", old))
open(sys.argv[1], "w").write(new)
P
zstd -q -f $(coll cli)/.REPO -o $(coll cli)/.REPO.zst
[ $(stat -c %s $(coll cli)/.REPO) = $(stat -c %s $S/depot/cli/.REPO) ] || fail setup
cards sync || fail "sync: $(tail -3 $W/out)"
cmp -s $(coll cli)/.REPO $S/depot/cli/.REPO || fail "the local index is not the published one"
'''},
{"id":"s16-set-with-companions","property":"C08","files":H2,"edits":[(R,"if ((s == name) && (p.second.group() == \"\")) {","if ((s == name) && (p.second.group() != \"lib\")) {")],
 "needs":"a set whose members have companion packages carrying the set as well","breaks":"the companions are installed too although no group is configured",
 "demo":'''
alone cli; key k
arc cli a 1 1 1700000001 ss1; arc cli a.devel 1 1 1700000001 gdevel ss1; arc cli b 1 1 1700000001 ss1; publish cli k
cards install s1 || fail "install: $(tail -3 $W/out)"
has a && has b || fail "the set is not installed"; has a.devel && fail "a.devel installed"; true
'''},
{"id":"s17-address-only-before-own","property":"C10","files":H2,"edits":[("src/conf.cxx","\t\t\tif (i.url.empty())\n\t\t\t\ti.url = m_url;","\t\t\tif (i.url.empty())\n\t\t\t\ti.url = m_url;\n\t\t\telse\n\t\t\t\tbreak;")],
 "needs":"an address for all collections, and a collection with an address of its own listed before one without","breaks":"the later collection has no address and is treated as local",
 "demo":'''
{ echo "dir /depot/cli"; echo "dir /depot/gui | file:///own"; echo "dir /depot/base"; echo "url file:///remote"; } > $S/etc/cards.conf
cards config || fail "config"
[ $(grep -c "from file:///remote" $W/out) = 2 ] || fail "$(cat $W/out)"
grep -q "gui from file:///own" $W/out || fail "$(cat $W/out)"
'''},
{"id":"s18-categories-leak","property":"C06","files":H2,"edits":[(R,"                pkgCategories.clear();\n                pkgDependencies.clear();","                if (pkgDependencies.empty())\n                    continue;\n                pkgDependencies.clear();"),(R,"                pkgLibs.clear();\n","                pkgLibs.clear();\n                pkgCategories.clear();\n")],
 "needs":"x","breaks":"x","demo":"exit 0\n"},
{"id":"s19-search-stops-at-companion","property":"C11","files":H2,"edits":[("src/search.cxx","\t\t\tif (!found)\n\t\t\t\tcontinue;\n\n\t\t\tstd::cout << \"(\" << j.collection << \") \";","\t\t\tif (!found && j.group.empty())\n\t\t\t\tcontinue;\n\n\t\t\tstd::cout << \"(\" << j.collection << \") \";")],
 "needs":"a language companion that belongs to a group as well","breaks":"a search shows the language companion",
 "demo":'''
alone cli; key k
arc cli a 1 1 1700000001; arc cli a.man.fr 1 1 1700000001 gman nfr; arc cli a.man 1 1 1700000001 gman; publish cli k
cards search a || fail "search: $(cat $W/out)"
grep -q 'a.man' $W/out || fail "a.man is missing"; grep -q 'a.man.fr' $W/out && fail "the language companion is listed"; true
'''},
{"id":"s20-own-subpackage-counts","property":"L01","files":H2,"edits":[("src/pkgfile.cxx","                if (i.second.index() == m_listOfPackages[s].index())\n                    continue;\n\n                indexes","                if (s == j && i.second.index() == m_listOfPackages[s].index())\n                    continue;\n\n                indexes")],
 "needs":"a port that names a sub-package of its own as a dependency","breaks":"the port and everything that depends on it get no level",
 "demo":'''
mkdir -p $S/p/cli/a $S/p/cli/b $S/p/cli/c; echo "dir /p/cli" > $S/etc/cards.conf
printf 'version=1\\nrelease=1\\n' > $S/p/cli/c/Pkgfile
printf 'version=1\\nrelease=1\\nmakedepends=(c a.devel)\\n' > $S/p/cli/a/Pkgfile
printf 'version=1\\nrelease=1\\nmakedepends=(a)\\n' > $S/p/cli/b/Pkgfile
timeout 60 unshare -Ur /usr/sbin/chroot $S /bin/sh -c 'cd /p; exec /usr/bin/cards level' > $W/out 2>&1 || fail "$(cat $W/out)"
grep -q '^0: cli/c$' $W/out && grep -q '^1: cli/a$' $W/out && grep -q '^2: cli/b$' $W/out || fail "$(cat $W/out)"
'''},
{"id":"s21-run-replaces-makedepends","property":"L02","files":H2,"edits":[("src/pkgfile.cxx","                        s += line.substr(5);\n                        found = true;","                        s = line.substr(5);\n                        found = true;")],
 "needs":"a recipe with build dependencies followed by run-time dependencies","breaks":"the build dependencies are missing in every listing",
 "demo":'''
mkdir -p $S/p/cli/a $S/p/cli/b $S/p/cli/c; echo "dir /p/cli" > $S/etc/cards.conf
for p in b c; do printf 'version=1\\nrelease=1\\n' > $S/p/cli/$p/Pkgfile; done
printf 'version=1\\nrelease=1\\nmakedepends=(b)\\nrun=(c)\\n' > $S/p/cli/a/Pkgfile
timeout 60 unshare -Ur /usr/sbin/chroot $S /bin/sh -c 'cd /p; exec /usr/bin/cards depends a' > $W/out 2>&1 || fail "$(cat $W/out)"
grep -q ': b$' $W/out && grep -q ': c$' $W/out && grep -q ': a$' $W/out || fail "$(cat $W/out)"
'''},
{"id":"s22-excluded-but-existing","property":"P07","files":H1,"edits":[("src/pkgdbh.cxx","\t\tif (non_install_list.find(archive_filename) != non_install_list.end()) {","\t\tif (non_install_list.find(archive_filename) != non_install_list.end() && !(keep_list.empty() && checkFileExist(real_filename) && checkFileEmpty(real_filename))) {")],
 "needs":"an empty file of the administrator at a path an install rule excludes","breaks":"the excluded file is overwritten with the packaged one",
 "demo":'''
echo "INSTALL ^opt/x$ NO" > $S/var/lib/pkg/pkgadd.conf; mkdir -p $S/opt; : > $S/opt/x
new; put opt/x packaged; put opt/y packaged; pkg pa 1 $W/pa.tar.gz; add $W/pa.tar.gz || fail "install"
[ ! -s $S/opt/x ] || fail "excluded file written"; [ "$(cat $S/opt/y)" = packaged ] || fail "opt/y"; grep -qx opt/x $D/pa/files && fail listed; true
'''},
{"id":"s23-wrong-immodules-tool","property":"P10","files":H1,"edits":[("src/pkgdbh.cxx","if (checkFileExist(m_root + QUERY_IMMODULES_2)) {","if (checkFileExist(m_root + QUERY_IMMODULES_3)) {")],
 "needs":"a QUERY_IMOD2 rule on a system where only the GTK 2 tool exists","breaks":"the loader cache is not updated",
 "demo":'''
t=$(sed -n 's/.*QUERY_IMMODULES_2 *"\\([^"]*\\)".*/\\1/p' src/define.h | head -1); [ "$t" ] || t=$(grep -rhs 'define QUERY_IMMODULES_2 ' src | head -1 | cut -d'"' -f2)
mkdir -p $S/$(dirname $t); printf '#!/bin/sh\\necho ran > %s/ran\\n' $W > $S/$t; chmod 755 $S/$t
echo "QUERY_IMOD2 ^opt/.*$ YES" > $S/var/lib/pkg/pkgadd.conf
new; put opt/x one; pkg pa 1 $W/pa.tar.gz; add $W/pa.tar.gz || fail install
[ -f $W/ran ] || fail "the tool did not run"
'''},
{"id":"s24-rules-of-the-live-system","property":"P11","files":H2,"edits":[("src/pkgdbh.cxx","\tconst std::string filename = m_root + PKGADD_CONF;","\tstd::string filename = m_root + PKGADD_CONF;\n\tif (!checkFileExist(filename))\n\t\tfilename = std::string(\"/\") + PKGADD_CONF;")],
 "needs":"an alternate root without rules on a system with rules","breaks":"the rules of the live system decide what is installed below the alternate root",
 "demo":'''
cp src/pkgadd $S/usr/bin/pkgadd; mkdir -p $S/alt/var/lib/pkg/DB
for f in $(ldd src/pkgadd 2> /dev/null | grep -o '/[^ ]*\\.so[^ ]*' | sort -u); do mkdir -p "$S$(dirname $f)"; cp -L $f "$S$f"; done
echo "INSTALL ^opt/a$ NO" > $S/var/lib/pkg/pkgadd.conf
arc cli a 1 1 1700000001; f=$(ls $(coll cli)/a.cards*)
timeout 60 unshare -Ur /usr/sbin/chroot $S /usr/bin/pkgadd -r /alt ${f#$S} > $W/out 2>&1 || fail "$(cat $W/out)"
[ -f $S/alt/opt/a ] || fail "not installed below the alternate root"
'''},
{"id":"s25-quit-not-ignored","property":"P12","files":H1,"edits":[("src/lock.cxx","  sigaction(SIGQUIT, &m_sa, NULL);\n","  if (!exclusive)\n    sigaction(SIGQUIT, &m_sa, NULL);\n")],
 "needs":"a quit signal while a package is being installed","breaks":"the installation is interrupted in the middle",
 "demo":'''
new; put opt/a one; put opt/b two
ln -s /bin/sh $S/usr/bin/sh
cat > $W/dot/.PRE <<'P'
p=$PPID; while [ $p -gt 1 ]; do grep -q pkgadd /proc/$p/comm && break; p=$(cut -d' ' -f4 /proc/$p/stat); done
kill -QUIT $p; exit 0
P
pkg pa 1 $W/pa.tar.gz
( ulimit -c 0; add $W/pa.tar.gz ); rc=$?
[ $rc = 0 ] || fail "interrupted ($rc)"; [ -f $S/opt/b ] && [ -f $D/pa/files ] || fail "incomplete"
'''},
{"id":"s26-sync-failure-of-the-list","nth":1,"property":"P15","files":H1,"edits":[("src/pkgdbh.cxx","if (fsync(fd_new) == -1)","if (fsync(fd_new) == -1 && errno != EIO)")],
 "needs":"an input/output error when the list of files of a package is flushed to the disk","breaks":"the installation reports success although its record may never have reached the disk",
 "demo":'''
new; put opt/a one; put opt/b two; pkg pa 1 $W/pa.tar.gz
timeout 60 strace -f -o $W/tr -e trace=fsync -e inject=fsync:error=EIO:when=1 $PKGADD -r $S $W/pa.tar.gz > $W/out 2>&1; rc=$?
grep -q 'INJECTED' $W/tr || fail "nothing injected"
[ $rc != 0 ] || fail "success although the record was not written"
'''},
{"id":"s27-count-aliases","property":"P16","files":H1,"edits":[("src/pkginfo.cxx","std::cout << m_listOfPackages.size() << std::endl;","std::cout << m_listOfAlias.size() << std::endl;")],
 "needs":"an installed package with an alias","breaks":"the number of installed packages includes the aliases",
 "demo":'''
new; put opt/a one; pkg pa 1 $W/pa.tar.gz Apx Apy; add $W/pa.tar.gz || fail install
new; put opt/b one; pkg pb 1 $W/pb.tar.gz; add $W/pb.tar.gz || fail install
n=$($PKGINFO -r $S -n); [ "$n" = 2 ] || fail "$n packages"
'''},
]
SEEDS=[s for s in SEEDS if s["needs"]!="x"]
