"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "observe_at": list(observe), "hook_needed": hook}})
DBSTATE = [("installed-package database", "one directory per installed package: metadata, list of owned paths, removal scripts", "<root>/var/lib/pkg/DB/<name>/{META,files,PRER,POSTR}"),
           ("file tree", "every path below the target root", "<root>")]
T = "The existing tests only start the programs or parse one configuration; "
p("P01", "Installing a package places and records exactly its contents",
  "After a successful install of a package that was not installed, the database holds one new record whose metadata and list of owned paths are those of the archive (minus the paths the install rules exclude), and every listed path is on disk with the archive's content, permissions, link target and modification time. No other record changes, and nothing else on disk appears except missing parent directories.",
  ["inputs", "histories"], "every archive (any mix of files, directories, links, modes, sizes, compressions), every prior state reached by any sequence of installs, removals, upgrades and edits",
  T + "none installs anything, so no history or archive shape is exercised.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx", "src/archive.cxx"],
  [("extraction of the archive", "pkgdbh::installArchivePackage"), ("metadata move", "pkgdbh::moveMetaFilesPackage"), ("record of owned paths", "pkgdbh::addPackageFilesRefsToDB")], DBSTATE, ["exit status, database directory and file tree after pkgadd"])
p("P02", "Removing a package deletes exactly what only it owned",
  "After a successful removal the package's record is gone, every path that only it listed is gone (a directory goes only if nothing is left in it), and every path that another installed package also lists, and every file no package lists, is still there unchanged. Records of other packages do not change.",
  ["histories", "inputs"], "every reachable database and file tree, including shared directories and files, files deleted or added by the administrator",
  T + "none removes anything; the property depends on what all other installed packages own.",
  ["src/pkgrm.cxx", "src/pkgdbh.cxx", "src/remove.cxx"],
  [("reference-counted deletion, children first", "pkgdbh::removePackageFiles"), ("record removal", "pkgdbh::removePackageFilesRefsFromDB(name)")], DBSTATE, ["exit status, database directory and file tree after pkgrm"])
p("P03", "An unforced install or upgrade never overwrites a foreign file",
  "If any non-directory path a package would write is owned by another installed package, or exists on disk without being owned by the package itself, then without the force option the command fails and neither the database nor any existing file changes. With no force ever used, no non-directory path is ever listed by two installed packages.",
  ["histories", "inputs"], "every pair of package contents, every administrator-created file, install and upgrade alike",
  T + "conflicts need two packages with overlapping contents.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("conflict detection", "pkgdbh::getConflictsFilesList"), ("refusal", "pkgadd::run")], DBSTATE, ["exit status, listed conflicts, database and tree"])
p("P04", "Force transfers ownership of exactly the conflicting files",
  "A forced install or upgrade that succeeds leaves every conflicting path listed by the new package only: exactly those paths disappear from the other packages' records, which otherwise keep everything, and the file on disk is the new package's (or, in an upgrade, the administrator's if an upgrade rule protects it). A later removal of a package that lost a file does not delete it.",
  ["histories", "inputs"], "every set of overlapping packages and every order of forced installs, upgrades and removals",
  T + "needs several packages and a multi-step history.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("reference stripping", "pkgdbh::removePackageFilesRefsFromDB(files, keep)"), ("force branch", "pkgadd::run")], DBSTATE, ["database and tree after pkgadd -f"])
p("P05", "After an upgrade only the new version's files and record remain",
  "After a successful upgrade the record is that of the new version, every unprotected path of the new version is on disk as archived, and every path that only the old version owned is gone (directories only if empty), while paths also owned by other packages and files owned by nobody are untouched. The number of installed packages does not change.",
  ["histories", "inputs"], "every pair of versions (files added, dropped, changed, moved between packages) and every reachable state",
  T + "no test upgrades anything.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("old version removal with keep list", "pkgdbh::removePackageFiles(name, keep)"), ("sequence", "pkgadd::run")], DBSTATE, ["database and tree after pkgadd -u"])
p("P06", "Upgrades never touch protected configuration files",
  "When the last upgrade rule matching a path says no, an upgrade leaves an existing file at that path exactly as it is (content, permissions, link target) and puts the packaged version in the rejected area if and only if it differs in type, permissions or content (a packaged empty file counts as equal); if the path does not exist, the packaged file is installed normally. When the last matching rule says yes or no rule matches, the packaged version is installed.",
  ["configurations", "histories", "inputs"], "every list of rules (order, overlap, yes/no), every edit by the administrator, every pair of versions",
  T + "rule evaluation and rejection are never run by a test.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx", "src/file_utils.cxx"], [("last matching rule", "pkgadd::getKeepFileList"), ("redirect to rejected area and comparison", "pkgdbh::installArchivePackage")],
  DBSTATE + [("rejected area", "packaged versions of protected files", "<root>/var/lib/pkg/rejected")], ["tree and rejected area after pkgadd -u"])
p("P07", "Paths excluded by an install rule are neither written nor owned",
  "When the last install rule matching a path of a package says no, installing or upgrading that package neither creates nor changes anything at that path, nor lists the path in the record; all other paths are installed normally. An excluded path never causes a conflict.",
  ["configurations", "inputs", "histories"], "every list of rules and every archive",
  T + "no test reads a rules file.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("rule application", "pkgadd::applyInstallRules"), ("filter during extraction", "pkgdbh::installArchivePackage")], DBSTATE, ["database and tree"])
p("P08", "A refused or invalid request changes nothing",
  "Installing an installed package, upgrading or removing one that is not installed, an archive that is missing, unreadable or lacks its name, metadata or file list, a foreign architecture on the live system, an invalid rules file, a user who is not root, or a wrong option all end with a non-zero status and leave every record and every file as they were. A valid request is not refused.",
  ["inputs", "histories", "configurations"], "every malformed archive and rules file of the listed kinds, every reachable state, every option combination",
  T + "error paths are not tested.",
  ["src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkgdbh.cxx", "src/archive.cxx", "src/tools.cxx"], [("guards before the first change", "pkgadd::run, pkgrm::run, pkgdbh::openArchivePackage, pkgdbh::readRulesFile")], DBSTATE, ["exit status, database and tree"])
p("P09", "Package scripts run in order, once, and a failing pre-script aborts",
  "The pre-install script runs before any file of the package is placed and the post-install script after all are, the pre-remove script before any file goes and the post-remove script after; each runs exactly once per operation, only that package's own scripts run, and none runs when scripts are disabled. A failing pre-script aborts the operation with a non-zero status and no change; a failing post-script does not undo it.",
  ["inputs", "histories", "fault_sequences"], "every combination of present/absent/failing scripts over every sequence of operations, on the live root and on alternate roots",
  T + "no script is ever run by a test, and leftovers of an aborted operation matter only to the next one.",
  ["src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkgdbh.cxx", "src/process.cxx", "src/file_utils.cxx"], [("pre-install", "pkgdbh::extractAndRunPREfromPackage"), ("post-install", "pkgadd::postRun"), ("removal scripts", "pkgrm::preRun, pkgrm::postRun"), ("cleanup of leftovers", "cleanupMetaFiles")], DBSTATE, ["what the scripts recorded, exit status"])
p("P10", "Post-install triggers fire exactly for matching installed files",
  "After an install or upgrade, the system helper of a trigger rule (library cache, info index, icon, font, schema, desktop, mime, loader caches) is run if and only if the tool is present under the root and some installed path's last matching trigger rule names that trigger and says yes; per-path helpers get that path. Paths no trigger rule matches never cause a helper to run.",
  ["configurations", "inputs"], "every list of trigger rules and every package content",
  T + "no rules file and no helper is involved in any test.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("selection", "pkgadd::applyInstallRules"), ("execution", "pkgdbh::runLastPostInstall")], (), ["calls recorded by stand-in helpers"])
p("P11", "An alternate root contains every effect",
  "With an alternate root given, install, upgrade, remove and query read and write database, rules, rejected area, files and metadata leftovers only below that root: nothing outside it is created, changed or deleted, and the result below it is the same as on a live root. A relative root works like the same absolute one.",
  ["inputs", "histories", "configurations"], "every operation of the database tools with every root spelling (absolute, relative, trailing slashes) over every history",
  T + "no test gives a root; an escape is visible only if something outside the root is watched.",
  ["src/pkgdbh.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/file_utils.cxx", "src/lock.cxx"], [("root prefixing", "pkgdbh::parseArguments, m_root uses"), ("leftover cleanup", "cleanupMetaFiles, removeFile")], DBSTATE, ["whole tree outside the root before/after"])
p("P12", "The database lock excludes concurrent writers and readers",
  "Among the package tools (pkgadd, pkgrm, pkginfo): while one process holds the database for writing, any other process that wants to modify or query it stops with a non-zero status without changing anything; readers do not exclude one another, and the lock is free again after the holder ends in any way, including being killed. Every change to records or packaged files happens while the writer holds the lock, and termination signals sent during such a change do not interrupt it.",
  ["schedules", "crash_points"], "every interleaving of two or three commands at the granularity of lock, read, file and record operations, and every signal at any of them",
  T + "tests run one process at a time.",
  ["src/lock.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkginfo.cxx"], [("exclusive/shared non-blocking lock on the database directory, signals ignored while held", "cards::lock")], DBSTATE, ["exit status, database and tree, order of system calls (recorded by an interposed library)"])
p("P13", "Concurrent operations have the effect of some one-after-the-other order",
  "When several runs of the package tools (pkgadd, pkgrm, pkginfo) overlap, the final database and file tree and the success or failure of each command are those of running the commands that succeeded in some order (a command that finds the database locked counts as not run). In particular no regular file ends up with two owners and no record is lost.",
  ["schedules"], "every interleaving of two commands at the granularity of their critical sections",
  T + "tests run one process at a time.",
  ["src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkgdbh.cxx", "src/lock.cxx"], [("lock scope", "pkgadd::run, pkgrm::run"), ("database read before locking", "pkgdbh::buildDatabase")], DBSTATE, ["final database and tree, exit statuses"])
p("P14", "A crash at any point leaves a readable, recoverable database",
  "If a command is killed at any instant, every later command can still read the database, the records and files of packages the command did not concern are intact, every record still present consists of a list of files, metadata and scripts that are each completely the old or completely the new one, protected configuration files keep their content, and repeating the operation (with force where files are already on disk) brings the system to the state an undisturbed run would have reached (a protected file that was new and cut off by the kill counts as the administrator's).",
  ["crash_points", "histories"], "every prefix of the file-system operations of install, upgrade, forced install and remove",
  T + "no test interrupts anything.",
  ["src/pkgdbh.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx"], [("write new list, sync, rename", "pkgdbh::addPackageFilesRefsToDB"), ("files before record on removal", "pkgrm::run"), ("which directories count as installed", "pkgdbh::getListOfPackagesNames, buildDatabase")], DBSTATE, ["database and tree after the kill, behaviour of the following commands"])
p("P15", "An I/O error never yields a silently wrong database",
  "If opening, creating, reading, writing, listing, renaming, linking or deleting a file fails (no space, I/O error, permission), once or from then on, an installation, upgrade or removal either still ends in the correct final state (a packaged copy left in the rejected area does no harm) or reports the failure with a non-zero status or a message on standard error, and a record that could not be flushed to the disk is always reported; and in every case the database stays readable and other packages' records and files are intact.",
  ["fault_sequences"], "every single failing system call of install, upgrade and remove",
  T + "no fault is injected by any test.",
  ["src/pkgdbh.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/file_utils.cxx"], [("error checks after each step", "pkgdbh::addPackageFilesRefsToDB, moveMetaFilesPackage, installArchivePackage")], DBSTATE, ["exit status, messages, database and tree"])
p("P16", "Queries report exactly the state of the database",
  "Listing installed packages, counting them, showing details or the build time, listing a package's files and finding owners by pattern report exactly what the database records; listing, describing, showing the metadata or the footprint of an archive reports exactly what the archive contains. An alias stands for the package carrying it unless a package of that name is installed, and no query changes anything. Listing the files of something unknown, an invalid pattern or an invalid option fails; details of something unknown are empty, its build time is 0 and a path nobody owns is reported as such.",
  ["histories", "inputs"], "every reachable database and every package, alias, archive and pattern argument",
  T + "tests only print one count.",
  ["src/pkginfo.cxx", "src/pkgdbh.cxx", "src/archive.cxx"], [("query branches", "pkginfo::run")], DBSTATE, ["standard output and exit status of pkginfo"])
p("C01", "Installing by name installs the whole dependency closure, in order",
  "`cards install` with package names installs the requested packages (again if they are installed already), everything a package being newly installed or updated depends on that is missing or older than the build the dependency asks for, and so on through the packages this adds; each is installed once, every dependency that is not part of a cycle before what needs it, and nothing else is installed. The dependencies of an up-to-date package are left alone. It ends for every dependency graph, including cyclic ones. A needed package that no repository offers makes the command fail before anything is installed. A package with a file another installed package owns stops an unforced command there with a failure, nothing of it or of later packages being installed; a forced one (-f) takes over exactly those files.",
  ["inputs", "histories"], "every dependency graph (chains, diamonds, shared, cyclic, missing nodes), every installed subset, every build date relation",
  T + "no graph is resolved by a test.",
  ["src/pkgrepo.cxx", "src/install.cxx", "src/pkgdbh.cxx"], [("worklist, reversal and deduplication", "pkgrepo::generateDependencies"), ("up-to-date test", "pkgdbh::checkPackageNameBuildDateSame"), ("installation loop", "install::install")], DBSTATE, ["order of installed packages, database"])
p("C02", "No archive is installed unless its checksum and signature verify",
  "When a repository has a download address, a package is installed only from an archive whose checksum equals the one the repository index announces and whose signature verifies with that repository's public key; a mismatching local copy is fetched again, and if the archive, its checksum or its signature is still wrong the command fails and nothing is installed from it.",
  ["inputs", "fault_sequences"], "every corruption of archive, index entry, signature or key, local or remote, for requested packages and dependencies alike",
  T + "no repository with signatures is used by a test.",
  ["src/pkgrepo.cxx", "src/install.cxx", "src/dwl.cxx"], [("hash check and refetch", "pkgrepo::checkHash, generateDependencies"), ("signature check", "pkgrepo::checkSign")], DBSTATE, ["exit status, database, local depot"])
p("C03", "Removal refuses needed packages and sweeps exactly the unneeded ones",
  "`cards remove` refuses the name or alias of a package another installed package depends on, the base collection, and, unless forced, anything that includes a package of the base collection; a refusal fails and changes nothing. Otherwise it removes the named packages, or the members of the named collection, group or set (without a use check), with the installed companions of the configured groups (lib excepted), and then exactly those packages that are not reachable through dependencies from a manually installed package, with their companions. Manually installed packages are never swept otherwise.",
  ["histories", "inputs"], "every dependency graph and every assignment of manual and automatic marks, including cycles of automatic packages",
  T + "no removal by name is tested.",
  ["src/remove.cxx", "src/pkgrm.cxx"], [("use check and expansion", "remove::remove"), ("reachability from manual packages", "pkgrm::getListOfManInstalledPackages, getDirectDependencies")], DBSTATE, ["exit status, database"])
p("C04", "The manual or automatic mark of a package survives every history",
  "A package that was not installed and is installed because its name, or its collection or set, was requested is marked manual, one installed only as a dependency is marked automatic; reinstalls, upgrades of one package, installs and removals of others and system upgrades keep the mark, and dependencies a system upgrade adds are automatic. (The mark of companions that come along unasked is unspecified.)",
  ["histories"], "every sequence of installs by name, from files, upgrades of one package and of the system",
  T + "marks are written only by real installs.",
  ["src/pkgadd.cxx", "src/pkgdbh.cxx", "src/install.cxx", "src/upgrade.cxx"], [("mark handling", "pkgdbh::setDependency, moveMetaFilesPackage, pkgadd::run, install::install")], DBSTATE, ["the mark in the database"])
p("C05", "Upgrade status is classified correctly and upgrading converges",
  "`cards diff` lists each installed package as unchanged, rebuilt (newer build of the same version and release), out of date, obsolete (automatic and no longer offered) or unmaintained (manual and no longer offered); `cards upgrade` then installs exactly the newer builds and what they newly need, removes exactly the obsolete packages and keeps the unmaintained ones, so that no package is out of date, rebuilt or obsolete afterwards. `upgrade -c` and `-s` tell whether and how many packages are not unchanged, and change nothing; an upgrade after which less than 80 percent of the packages would be unchanged needs --proceed. Files of other packages that the new versions contain change hands.",
  ["histories", "inputs"], "every combination of installed and offered builds and versions, marks and offers",
  T + "no upgrade is tested.",
  ["src/diff.cxx", "src/upgrade.cxx", "src/pkgrepo.cxx"], [("classification", "diff::diff"), ("upgrade plan", "upgrade::upgrade, upgradePackages")], DBSTATE, ["printed counts, database before and after"])
p("C06", "Published repository metadata reflects the archives and round-trips",
  "Publishing a collection writes an index with one entry per package archive whose name, version, release, build, dependencies, sets, aliases, group, size and checksum are those of the archive, signed with the publisher's key; what a client parses back from the published index is the same. Verifying a collection reports exactly the packages whose archive no longer carries the published signature.",
  ["inputs", "histories"], "every set of archives and every later corruption, replacement or removal",
  T + "no collection is published or verified by a test.",
  ["src/repo.cxx", "src/pkgrepo.cxx", "src/pkgfile.cxx"], [("index generation", "pkgrepo::generate*, repo::repo"), ("index parsing", "pkgrepo::parse")], (), ["index files, output of verification"])
p("C07", "Purging frees downloaded archives and nothing else",
  "Purging deletes the downloaded package archives of collections that have a download address, keeps index and key files and everything in local-only collections, and never touches the database or installed files.",
  ["configurations", "histories"], "every depot content and configuration",
  T + "no purge is tested.",
  ["src/conf.cxx", "src/upgrade.cxx", "src/cards.cxx"], [("purge", "conf::purge")], (), ["depot directories before and after"])
p("C08", "Names on the command line resolve to the right packages",
  "For `cards install`, the name of a set or collection stands for exactly its members that are not installed and an other name for the package of that name; configured language and development groups add exactly the existing companion packages (name.group) of what is installed; an unknown name makes the command fail with nothing installed. For `cards remove`, a name stands for the installed package of that name or alias and for the members of the collection or group, or else the set, of that name.",
  ["inputs", "configurations"], "every repository content with sets, collections, groups, companions and name clashes",
  T + "no name is resolved by a test.",
  ["src/install.cxx", "src/pkgrepo.cxx", "src/conf.cxx"], [("resolution order", "install::install"), ("companions", "install::getLocalePackagesList")], DBSTATE, ["database after install"])
p("C09", "Synchronising mirrors the published index or leaves the old one",
  "After a successful `cards sync` the local index, file list and key of every configured collection with a download address equal the published ones; when one of them cannot be fetched or unpacked the command fails, and each collection has either its previous index or the complete new one. Collections without an address, archives, records and installed files are not touched.",
  ["fault_sequences", "histories"], "every sequence of published changes and unavailable files",
  T + "no synchronisation is tested.",
  ["src/sync.cxx", "src/dwl.cxx"], [("fetch and unpack", "sync::run, dwl")], (), ["depot files"])
p("C10", "Configuration is read as written, first listed source wins",
  "Comments, indentation and blank lines aside, every directory, depot, address, group and path in the configuration is honoured with any separation by blanks and tabs, whether addresses and depots are given per directory or once for all collections; when several configured collections offer the same package (or port), the one listed first is used, for installing and upgrading (building and listing) alike.",
  ["configurations"], "every ordering of configured collections offering overlapping packages and every spacing",
  "The conf test reads one sample file and checks nothing about precedence.",
  ["src/conf.cxx", "src/pkgrepo.cxx", "src/pkgfile.cxx"], [("parser", "conf::parse"), ("precedence", "pkgrepo::parse")], (), ["which package is used"])
p("C11", "Catalogue queries answer exactly from the index",
  "`cards list -b` lists every package of every index, `list -S` every set, `info -S` the members of a set (or else collection), `info -b` the fields of the package of that name from the collection listed first, `files -b` its files, `query -b` exactly the files that match the pattern with collection and package, and `search` exactly the packages (language companions apart, unless only names are asked for) whose name, collection, description, address, packager, version, sets or categories contain the text whatever the case of its letters, marking the installed ones. A missing or empty index or file list of one collection hides nothing of the others.",
  ["inputs", "configurations"], "every content of the indices and file lists, every pattern and text, and missing or empty lists",
  T + "no catalogue is queried by a test.",
  ["src/list.cxx", "src/info.cxx", "src/search.cxx", "src/query.cxx", "src/files.cxx", "src/pkgrepo.cxx"], [("index parsing", "pkgrepo::parse"), ("searches", "search::search, pkgrepo::parse*, query, files")], (), ["standard output of the queries"])
p("C12", "An interrupted cards command loses nothing and can simply be repeated",
  "When `cards install`, `upgrade`, `remove`, `sync` or `purge` is killed at any moment, no package it was not to change has changed; every package it was to install or upgrade has its old or its new record and every package to be removed its old or no record, automatic marks as before (or as the complete command sets them); at most one package has files that do not fit its record; nothing is installed before what it depends on; what nobody needs any more goes only after everything is installed and what was named is removed; every index, file list and key is the old one or the complete new one, and no package changes before all of them are the new ones; the depot holds only complete archives, and downloaded ones go only when all else is done. When `cards repo` is killed, each published index and file list, packed or not, is the previous one or the complete new one, and archives and keys are as before. Repeating the command succeeds and ends where the uninterrupted one would have (companions of what the first attempt had completed apart).",
  ["crash_points", "histories"], "every moment of every command on every repository and state",
  T + "no command is ever interrupted.",
  ["src/install.cxx", "src/upgrade.cxx", "src/remove.cxx", "src/sync.cxx", "src/dwl.cxx", "src/repo.cxx", "src/pkgdbh.cxx", "src/pkgadd.cxx"], [("order of the changes", "install::install, upgrade::run, remove::remove"), ("record", "pkgdbh::moveMetaFilesPackage, addPackageFilesRefsToDB"), ("downloads", "dwl, sync::run")], DBSTATE, ["database, file tree and depot after the kill and after repeating"])
p("C13", "A cards command that cannot do something says so and harms nothing else",
  "When a system call of `cards install`, `upgrade`, `remove`, `sync` or `purge` fails (no space, input/output error, no permission), or of `cards repo`, the same guarantees about records, marks, order, indices and archives hold as for an interruption; the command either reports an error (status or message) or has done everything, in particular an index or configuration that cannot be read is not taken for an empty one; and after a status other than zero repeating the command without the failure ends where it would have ended at once.",
  ["fault_sequences", "histories"], "every failing call of every command on every repository and state",
  T + "no call is ever made to fail.",
  ["src/install.cxx", "src/upgrade.cxx", "src/remove.cxx", "src/sync.cxx", "src/dwl.cxx", "src/conf.cxx", "src/pkgrepo.cxx", "src/repo.cxx", "src/pkgdbh.cxx", "src/pkgadd.cxx"], [("errors of the calls", "pkgdbh, pkgrepo, conf, dwl"), ("order of the changes", "install::install, upgrade::run, remove::remove")], DBSTATE, ["exit status, database, file tree and depot after the failure and after repeating"])
p("C14", "cards commands that overlap exclude each other package by package",
  "`cards install`, `upgrade` and `remove` change the database and the files of packages only while they hold the exclusive lock on the database. A command that comes while another one holds it fails if it has anything to change, changes no package and does not disturb the other, which ends as if it had been alone. At any other moment it works exactly as on an idle system with what is installed at that moment, and the command that was under way before then ends with every package whole, each as it found it or as it wanted it, nothing the other one did to packages it had no plans for undone and automatic marks kept; it does all it was asked for if the other one changed nothing it was to touch. However many of them run at once, every package ends whole and recorded, either as before or as offered by a repository, what a successful install asked for is there (unless others were removing) and none crashes. HUP, INT, QUIT and TERM that arrive while a package is being changed do not leave it half-way.",
  ["schedules", "histories"], "every overlap of several commands, and every moment of a signal",
  T + "no two commands ever overlap.",
  ["src/lock.cxx", "src/install.cxx", "src/upgrade.cxx", "src/remove.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkgdbh.cxx", "src/dwl.cxx"], [("lock", "cards::lock, pkgadd::run, pkgrm::run, upgrade::run"), ("looking again", "pkgdbh::reloadDatabase"), ("downloads of the same file", "dwl")], DBSTATE, ["exit status of each command, database and file tree at every switch and at the end"])
p("L01", "Build levels put every port after its dependencies",
  "For an acyclic port tree every port gets a level strictly above that of each port it depends on, and exactly one above the highest of them (zero with none), every port is listed once, and dependencies on unknown ports are reported and otherwise ignored; a dependency written with a sub-package suffix (glib.devel) means its port, and a dependency of a port on itself is ignored; for a cyclic tree the computation still ends and gives the ports that do not depend on a cycle their exact level.",
  ["inputs"], "every port dependency graph, including diamonds, long chains, unknown and self dependencies and cycles",
  "The level test prints one tree and only checks that it runs.",
  ["src/deptree.cxx", "src/level.cxx", "src/depends.cxx"], [("level assignment", "deptree")], (), ["output of the level command"])
p("L02", "Dependency and dependent listings are exact",
  "For a port that does not depend on a cycle, `cards depends` lists exactly the ports needed to build it (itself included), each once, with its level and before what needs it. `cards deptree` shows exactly the ports needed to build it, each expanded into all its dependencies once, every line hanging under a port that names it. `cards dependent` lists exactly the ports whose recipe names it (or a sub-package of it) as a dependency, each once with its collection, version and release. All three end for every graph, including cyclic ones.",
  ["inputs"], "every port dependency graph and every port",
  "The deptree test prints one tree and only checks that it runs.",
  ["src/depends.cxx", "src/dependent.cxx", "src/deptree.cxx"], [("closure", "depends, dependent")], (), ["output of the listing commands"])
p("B01", "A port is built in a clean environment and nowhere else",
  "`cards create PORT` (as root, in a ports directory, with tmp/setup present) first installs what is missing of the packages of the sets chroot and devel, of cards.devel and of what they depend on (with their configured companions), then removes every installed package that is in neither of these sets, then installs the binaries of every port the port depends on, directly or not, dependencies first, each with its companions of the configured groups; the packager is started once, in the port's directory, and at that moment the database and the files hold exactly that: whatever was installed before and is not basic has no influence. Basic packages stay as they are, marks included; no package is put in twice. When the packager succeeds, what it published for the port is installed (upgraded if present); when it fails, the status is non-zero and nothing else is changed. With a log directory the build of the port is logged there. With --dry, for an unknown port, without tmp/setup or for another user than root nothing at all is changed.",
  ["inputs", "histories"], "every tree of ports, every repository and every state of what is installed before",
  T + "no build is tested.",
  ["src/create.cxx", "src/pkgadd.cxx", "src/pkgdbh.cxx", "src/pkgrepo.cxx", "src/pkgfile.cxx"], [("environment", "create::core, base, installDependencies"), ("build", "create::buildBinary, run")], (), ["database and file tree when the packager starts and afterwards"])
p("B02", "Building a collection builds exactly what is out of date, in order",
  "`cards create COLLECTION` starts the packager exactly once for each port of the collection that has no binary in the index, whose archive is missing or whose binary is of another version or release than the port, each after the ports of the collection it depends on, each in its clean environment (with the binaries just built), and for no other port; binaries of the collection without a port are named and their archives removed, no other archive is touched. It stops at the first build that fails, or whose dependencies cannot be had, with non-zero status, keeping what has been built; otherwise the status is zero and doing it again builds nothing (unless a collection listed before offers another version of the port). `--dry` reports exactly the ports to be built and the binaries without a port and changes nothing.",
  ["inputs", "histories", "fault_sequences"], "every tree of ports, every state of the binaries and every set of failing builds",
  T + "no build is tested.",
  ["src/create.cxx", "src/pkgrepo.cxx", "src/pkgfile.cxx"], [("what to build", "create::buildCollection, checkBinaries"), ("order", "pkgfile, level")], (), ["packager calls, depot, standard output"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
if __name__ == "__main__":
    for x in P: assert len(x["title"]) <= 80, x["title"]
    write()
