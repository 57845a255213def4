H=["h2.sh"]
SEEDS=[
{"id":"s50-lock-only-what-is-needed","property":"C14","files":H,"edits":[("src/upgrade.cxx","		cards::lock Lock(m_root,true);\n","		std::unique_ptr<cards::lock> Lock;\n		if (! m_ListOfPackagesToUpdate.empty())\n			Lock.reset(new cards::lock(m_root,true));\n"),("src/upgrade.cxx",'#include "upgrade.h"\n','#include "upgrade.h"\n#include <memory>\n')],
 "needs":"an upgrade that only removes obsolete packages while another command holds the lock","breaks":"packages are removed in the middle of what the other command does",
 "demo":'''
key k; client cli; for p in a b c d e g i j l; do arc cli $p 1 1 1700000001; done
arc cli lib 1 1 1700000001; arc cli tool 1 1 1700000001 Rlib1700000001; publish cli k
cards sync; cards install tool a b c d e g i j l || fail "install: $(tail -3 $W/out)"; auto lib || fail "lib is not automatic"
arc cli tool 1 1 1700000001; rm $(coll cli)/lib.cards*; publish cli k
flock -x "$D" true || fail "flock"
( flock -x 9; cards upgrade --proceed; r=$?; echo $r > $W/rc ) 9< "$D"
[ "$(cat $W/rc)" != 0 ] || fail "success while the database was locked"
has lib || fail "lib was removed while another command had locked the database"
[ -e $S/opt/lib ] || fail "the file of lib was removed"
cards upgrade --proceed || fail "upgrade: $(tail -3 $W/out)"; has lib && fail "lib is still there"; exit 0
'''},
{"id":"s51-removal-shares","property":"C14","files":H,"edits":[("src/pkgrm.cxx","	cards::lock Lock(m_root, true);\n","	// Readers do no harm\n	cards::lock Lock(m_root, false);\n")],
 "needs":"a removal while another command removes or reads","breaks":"two commands change the database at once",
 "demo":'''
key k; client cli; arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; publish cli k
cards sync; cards install a b || fail "install: $(tail -3 $W/out)"
( flock -s 9; cards remove b; echo $? > $W/rc ) 9< "$D"
has b || fail "b was removed while the database was locked"
[ "$(cat $W/rc)" != 0 ] || fail "success while the database was locked"
'''},
{"id":"s52-wait-for-the-other","property":"C14","files":H,"edits":[("src/lock.cxx","	if (flock(dirfd(m_dir), (exclusive ? LOCK_EX : LOCK_SH) | LOCK_NB) == -1) {\n","	// Removals and installations wait for their turn\n	if (flock(dirfd(m_dir), exclusive ? LOCK_EX : LOCK_SH | LOCK_NB) == -1) {\n")],
 "needs":"a command that comes while another one holds the lock","breaks":"the second command hangs instead of failing",
 "demo":'''
key k; client cli; arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; publish cli k
cards sync; cards install a b || fail "install: $(tail -3 $W/out)"
( flock -x 9; timeout -s KILL 10 unshare -Ur /usr/sbin/chroot "$S" /usr/bin/cards remove b > $W/out 2>&1; echo $? > $W/rc ) 9< "$D"
[ "$(cat $W/rc)" != 137 ] || fail "it hangs"
[ "$(cat $W/rc)" != 0 ] || fail "success while the database was locked"
has b || fail "b was removed while the database was locked"
'''},
{"id":"s53-signals-only-in-the-first","property":"C14","files":H,"edits":[("src/lock.cxx","  m_sa.sa_handler = SIG_IGN;\n  sigaction(SIGHUP, &m_sa, NULL);\n","  static bool quiet = false;\n  m_sa.sa_handler = quiet ? SIG_DFL : SIG_IGN;\n  quiet = true;\n  sigaction(SIGHUP, &m_sa, NULL);\n")],
 "needs":"a signal while the second package of one command is being changed","breaks":"the package is left half-way",
 "demo":'''
. "$(dirname "$0")/h4.sh"
key k; client cli; arc cli a 1 1 1700000001; arc cli b 1 1 1700000001; publish cli k
cards sync
f=$(echo "$(coll cli)/b.cards-"*); rm -rf "$W/p"; mkdir -p "$W/p"; tar -C "$W/p" -xzf "$f"
printf 'kill -15 $PPID; kill -15 0\\n' > "$W/p/.PRE"
tar -C "$W/p" --owner=0 --group=0 --no-recursion -czf "$f" .META .MTREE .PRE opt opt/b; publish cli k; cards sync
setsid timeout 60 unshare -Ur /usr/sbin/chroot "$S" /usr/bin/cards install a b > $W/out 2>&1; r=$?
has a || fail "a: $(tail -3 $W/out)"
has b || fail "b was left half-way ($r): $(tail -3 $W/out)"
[ -e $S/opt/b ] || fail "the file of b is missing"
'''},
]
