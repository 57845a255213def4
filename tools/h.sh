# helpers of the demonstrations: everything happens below one scratch directory
set -u
PKGADD=$PWD/src/pkgadd
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
for t in pkgrm pkginfo; do ln -s "$PKGADD" "$W/$t"; done
PKGRM=$W/pkgrm PKGINFO=$W/pkginfo
S=$W/root; mkdir -p "$S/var/lib/pkg/DB" "$S/usr/bin"
D=$S/var/lib/pkg/DB
fail() { echo "WRONG: $*"; exit 1; }
tok() { [ "$1" ] || fail "$2"; }
# pkg NAME VERSION OUT [meta line...]: packs the directory $W/in (and $W/dot for scripts)
pkg() {
  n=$1 v=$2 o=$3; shift 3; p=$W/p; rm -rf "$p"; mkdir "$p"
  { echo "N$n"; echo "V$v"; echo "r1"; echo "a$(uname -m)"; echo "Dx"; echo "B1700000000"; for l; do echo "$l"; done; } > "$p/.META"
  (cd "$W/in" && find . -mindepth 1 \( -type d -printf '%P/\n' -o -printf '%P\n' \) | sort) > "$W/list"
  dots=.META
  if [ -d "$W/dot" ]; then for f in .PRE .POST .PRER .POSTR; do [ -f "$W/dot/$f" ] && cp "$W/dot/$f" "$p/" && dots="$dots $f"; done; fi
  { for f in $dots; do echo $f; done; cat "$W/list"; } > "$p/.MTREE"
  tar -C "$p" --owner=0 --group=0 -cf "$o.t" .META .MTREE $(for f in $dots; do [ $f = .META ] || echo $f; done)
  tar -C "$W/in" --owner=0 --group=0 --no-recursion -rf "$o.t" -T "$W/list"
  gzip -c "$o.t" > "$o"; rm -f "$o.t"
}
new() { rm -rf "$W/in" "$W/dot"; mkdir -p "$W/in" "$W/dot"; }
put() { mkdir -p "$W/in/$(dirname "$1")"; printf '%s' "$2" > "$W/in/$1"; }
add() { timeout 60 "$PKGADD" -r "$S" "$@" > "$W/out" 2>&1; }
rmv() { timeout 60 "$PKGRM" -r "$S" "$@" > "$W/out" 2>&1; }
