C="src/create.cxx"; H3=["h3.sh","h2.sh"]
PRE='''
alone cli core; key k;  echo "group devel" >> $S/etc/cards.conf
arc core bash 1 1 1700000001 schroot; arc core cards.devel 1 1 1700000001 gdevel sdevel; publish core k
'''
SEEDS=[
{"id":"s30-automatic-ones-stay","property":"B01","files":H3,"edits":[(C,"        if (!found) {\n            list.push_back(i.first);","        if (!found && !(i.second.dependency() && !i.second.group().empty())) {\n            list.push_back(i.first);")],
 "needs":"a companion package that was installed automatically before the build","breaks":"it stays in the environment of the build",
 "demo":PRE+'''
arc cli z 1 1 1700000001 Rb.devel1700000001; arc cli b 1 1 1700000001; arc cli b.devel 1 1 1700000001 gdevel
port cli a 1 1; port cli b 1 1; publish cli k
cards install z || fail "install: $(tail -3 $W/out)"; has b.devel && auto b.devel || fail "b.devel is not automatic"
create a || fail "create: $(tail -3 $W/out)"
[ "$(env_of a)" = "bash cards.devel" ] || fail "environment: $(env_of a)"
'''},
{"id":"s31-dependencies-of-the-last","property":"B02","files":H3,"edits":[(C,"    m_list.clear();\n    list(packageName);","    if (m_dependencies.empty())\n        m_list.clear();\n    list(packageName);")],
 "needs":"a collection in which a port with dependencies and, after it, a higher port without these dependencies are built","breaks":"the second port is built with the dependencies of the first one installed",
 "demo":PRE+'''
for p in a b c d e; do arc cli $p 1 1 1700000001; done
port cli a 1 1; port cli d 1 1; port cli b 1 1 a; port cli e 1 1 d; port cli c 1 1 e; publish cli k; keep cli
rm $(coll cli)/b.cards* $(coll cli)/c.cards*
arc cli b 1 1 1700000001; publish cli k; later cli b; rm $(coll cli)/b.cards*; arc cli b 1 1 1700000001; arc cli c 1 1 1700000001; publish cli k; later cli c
sed '/^@[bc]/,/^$/d' $W/index.cli > $(coll cli)/.REPO; 
create cli || fail "create: $(tail -3 $W/out)"
[ "$(env_of b)" = "a bash cards.devel" ] || fail "environment of b: $(env_of b)"
[ "$(env_of c)" = "bash cards.devel d e" ] || fail "environment of c: $(env_of c)"
'''},
{"id":"s32-older-release-not-built","property":"B02","files":H3,"edits":[(C,"        if (m_pkgrepo.release(i) != m_pkgfile.getPortRelease(i)) {","        if (m_pkgrepo.release(i) < m_pkgfile.getPortRelease(i)) {")],
 "needs":"a port whose release went back below that of its binary","breaks":"the port is not built, the binary stays another one than the port describes",
 "demo":PRE+'''
arc cli a 1 3 1700000001; port cli a 1 2; publish cli k
create --dry cli || fail "create: $(tail -3 $W/out)"
grep -q '^a.*SHOULD BE BUILD' $W/out || fail "not to be built: $(cat $W/out)"
'''},
{"id":"s33-footprint-failures-ignored","property":"B02","files":H3,"edits":[(C,"    if (result > 0) {\n        s += NORMAL;","    if (result > 0 && result != 7) {\n        s += NORMAL;")],
 "needs":"a build that fails with a footprint mismatch","breaks":"the failed build counts as done and the next ports are built",
 "demo":PRE+'''
port cli a 1 1; port cli b 1 1 a; publish cli k; keep cli; echo 7 > $S/rc.a
create cli && fail "success although a was not built"
[ -z "$(env_of b)" ] || fail "b was built"
'''},
{"id":"s34-companions-of-basic-ones","property":"B01","files":H3,"edits":[(C,"                    if (!checkPackageNameExist(packageArchive.name())) {\n                        commandName","                    if (checkPackageNameExist(packageArchive.name()))\n                        break;\n                    else {\n                        commandName")],
 "needs":"a dependency on a basic package that has a companion which is not basic","breaks":"the companion is missing in the environment",
 "demo":PRE+'''
arc core bash.devel 1 1 1700000001 gdevel; publish core k
port core bash 1 1; port cli c 1 1 bash; publish cli k
create c || fail "create: $(tail -3 $W/out)"
[ "$(env_of c)" = "bash bash.devel cards.devel" ] || fail "environment: $(env_of c)"
'''},
]
