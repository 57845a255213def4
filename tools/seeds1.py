K="src/pkgdbh.cxx"; A="src/pkgadd.cxx"
SEEDS=[
{"id":"s01-remove-shared-empty-dir","property":"P02","edits":[(K,"\t// Don't delete files that still have references\n\tfor (auto i : m_listOfPackages)\n\t\tfor (auto j : i.second.files)\n\t\t\tm_filesList.erase(j);","\t// Don't delete files that still have references\n\tfor (auto i : m_listOfPackages)\n\t\tfor (auto j : i.second.files)\n\t\t\tif (j.back() != '/')\n\t\t\t\tm_filesList.erase(j);")],
 "needs":"two packages listing the same directory, which is empty once the first one's files are gone","breaks":"removing one package deletes a directory another installed package still owns",
 "demo":'''
new; put opt/d/x one; pkg pa 1 $W/pa.tar.gz; new; mkdir -p $W/in/opt/d; pkg pb 1 $W/pb.tar.gz
add $W/pa.tar.gz || fail "install pa"; add $W/pb.tar.gz || fail "install pb"
rmv pa || fail "remove pa"
[ -d "$S/opt/d" ] || fail "directory of pb gone"
[ ! -e "$S/opt/d/x" ] || fail "file of pa left"
'''},
{"id":"s02-force-strips-only-first-owner","property":"P04","edits":[(K,"\t\tif ( s != i.second.files.size())\n\t\t\taddPackageFilesRefsToDB(i.first,i.second);","\t\tif ( s != i.second.files.size()) {\n\t\t\taddPackageFilesRefsToDB(i.first,i.second);\n\t\t\tbreak;\n\t\t}")],
 "needs":"a forced install whose files conflict with two different installed packages","breaks":"the second package keeps listing a path that now belongs to the new package",
 "demo":'''
new; put opt/a one; pkg pa 1 $W/pa.tar.gz; new; put opt/b two; pkg pb 1 $W/pb.tar.gz; new; put opt/a three; put opt/b three; pkg pc 1 $W/pc.tar.gz
add $W/pa.tar.gz || fail pa; add $W/pb.tar.gz || fail pb; add -f $W/pc.tar.gz || fail pc
grep -qx opt/a $D/pa/files && fail "pa still lists opt/a"
grep -qx opt/b $D/pb/files && fail "pb still lists opt/b"
rmv pb || fail "remove pb"; [ "$(cat $S/opt/b)" = three ] || fail "file of pc gone"
'''},
{"id":"s03-rejected-mode-ignored","property":"P06","edits":[(K,"\t\t\t\tremove_file = checkPermissionsEqual(real_filename, original_filename) &&\n\t\t\t\t\t(checkFileEmpty","\t\t\t\tremove_file = checkFilesEqual(real_filename, original_filename) ||\n\t\t\t\t\tcheckPermissionsEqual(real_filename, original_filename) &&\n\t\t\t\t\t(checkFileEmpty")],
 "needs":"an upgrade of a protected file whose packaged version differs from the one on disk in permissions only","breaks":"the packaged version is dropped instead of being kept in the rejected area",
 "demo":'''
echo "UPGRADE ^etc/.*$ NO" > $S/var/lib/pkg/pkgadd.conf
new; put etc/c conf; chmod 644 $W/in/etc/c; pkg pa 1 $W/pa.tar.gz; chmod 600 $W/in/etc/c; pkg pa 2 $W/pa2.tar.gz
add $W/pa.tar.gz || fail pa; add -u $W/pa2.tar.gz || fail up
[ "$(stat -c %a $S/etc/c)" = 644 ] || fail "protected file changed"
[ "$(stat -c %a $S/var/lib/pkg/rejected/etc/c 2>/dev/null)" = 600 ] || fail "no rejected copy"
'''},
{"id":"s04-record-written-in-place","property":"P14","edits":[(K,'const std::string fileslist_new = fileslist + ".imcomplete_transaction";','const std::string fileslist_new = fileslist;')],
 "needs":"a kill while the list of files of an installed package is being rewritten (upgrade or forced install)","breaks":"the record is left empty instead of old or new",
 "demo":'''
new; put opt/a one; put opt/b two; pkg pa 1 $W/pa.tar.gz; put opt/c more; pkg pa 2 $W/pa2.tar.gz
add $W/pa.tar.gz || fail pa
cp $D/pa/files $W/old
F=$D/pa/files
timeout 60 strace -f -o $W/tr -P $F -P $F.imcomplete_transaction -e trace=write,writev -e inject=write,writev:signal=SIGKILL:when=1 $PKGADD -r $S -u $W/pa2.tar.gz > $W/out 2>&1
grep -q 'killed by SIGKILL' $W/tr || fail "not killed"
cmp -s $F $W/old || [ "$(grep -c . $F)" = 4 ] || fail "the record is neither the old nor the new one"
'''},
{"id":"s05-keep-list-last-rule","property":"P06","edits":[(A,"\t\t\t\tif (!(*j).action)\n\t\t\t\t\tkeep_list.insert(keep_list.end(), i);\n\n\t\t\t\tbreak;","\t\t\t\tif (!(*j).action) {\n\t\t\t\t\tkeep_list.insert(keep_list.end(), i);\n\t\t\t\t\tbreak;\n\t\t\t\t}")],
 "needs":"two upgrade rules matching the same path where an earlier one says NO and the last one YES","breaks":"the earlier rule wins, so the packaged version is not installed",
 "demo":'''
printf 'UPGRADE ^etc/.*$ NO\\nUPGRADE ^etc/c$ YES\\n' > $S/var/lib/pkg/pkgadd.conf
new; put etc/c conf1; put etc/d conf1; pkg pa 1 $W/pa.tar.gz; put etc/c conf2; put etc/d conf2; pkg pa 2 $W/pa2.tar.gz
add $W/pa.tar.gz || fail pa; add -u $W/pa2.tar.gz || fail up
[ "$(cat $S/etc/d)" = conf1 ] || fail "protected file changed"
[ "$(cat $S/etc/c)" = conf2 ] || fail "rule order"
'''},
{"id":"s06-conflict-links-dangling","property":"P03","edits":[("src/pkgdbh.cxx","\t\tconst std::string filename = m_root + i;\n\t\tif (checkFileExist(filename) && files.find(i) == files.end())","\t\tconst std::string filename = m_root + i;\n\t\tif (access(filename.c_str(), F_OK) == 0 && files.find(i) == files.end())")],
 "needs":"an administrator's dangling symbolic link at a path of the package","breaks":"an unforced install replaces the administrator's link instead of refusing",
 "demo":'''
new; put opt/a one; pkg pa 1 $W/pa.tar.gz; mkdir -p $S/opt; ln -s nowhere $S/opt/a
add $W/pa.tar.gz && fail "installed over a foreign link"
[ "$(readlink $S/opt/a)" = nowhere ] || fail "link replaced"
[ ! -e $D/pa ] || fail "recorded"
'''},
{"id":"s07-upgrade-drops-shared","property":"P05","edits":[(K,"\t// Don't delete files that still have references\n\tfor (auto i: m_listOfPackages)\n\t\tfor (auto j: i.second.files)\n\t\t\tm_filesList.erase(j);","\t// Don't delete files that still have references\n\tfor (auto i: m_listOfPackages)\n\t\tif (i.first > name)\n\t\t\tfor (auto j: i.second.files)\n\t\t\t\tm_filesList.erase(j);")],
 "needs":"an upgrade that drops an empty directory which a package with an earlier name also lists","breaks":"the upgrade deletes a directory owned by another package",
 "demo":'''
new; mkdir -p $W/in/opt/d; pkg pa 1 $W/pa.tar.gz; new; mkdir -p $W/in/opt/d; put opt/x y; pkg pb 1 $W/pb.tar.gz; rmdir $W/in/opt/d; pkg pb 2 $W/pb2.tar.gz
add $W/pa.tar.gz || fail pa; add $W/pb.tar.gz || fail pb; add -u $W/pb2.tar.gz || fail up
[ -d $S/opt/d ] || fail "directory of pa gone"
'''},
{"id":"s08-preremove-failure-code","property":"P09","edits":[("src/pkgrm.cxx","\t\tif (preremove.executeShell()) {","\t\tif (preremove.executeShell() == 1) {")],
 "needs":"a pre-remove script failing with another status than 1","breaks":"the package is removed although its pre-remove script failed",
 "demo":"""
cp /bin/sh $S/usr/bin/sh
new; put opt/a one; echo "exit 3" > $W/dot/.PRER; pkg pa 1 $W/pa.tar.gz
add $W/pa.tar.gz || fail pa; rmv pa && fail "removal went through"
[ -e $S/opt/a ] || fail "file gone"; [ -e $D/pa ] || fail "record gone"
"""},
]
