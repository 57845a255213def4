# helpers of the demonstrations with repositories: cards runs chrooted in one scratch directory, in a user namespace
set -u
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
S=$W/root; D=$S/var/lib/pkg/DB; M=$(uname -m); V=v1
mkdir -p "$D" "$S/usr/bin" "$S/etc" "$S/tmp" "$S/dev" "$S/var/log" "$S/depot" "$S/remote/$M/$V" "$S/keys"
: > "$S/dev/null"
cp src/cards "$S/usr/bin/cards"
cp /bin/sh "$S/usr/bin/sh"; ln -s usr/bin "$S/bin"
for f in $(ldd src/cards /bin/sh 2> /dev/null | grep -o '/[^ ]*\.so[^ ]*' | sort -u); do mkdir -p "$S$(dirname $f)"; cp -L $f "$S$f"; done
echo "version $V" > "$S/var/lib/pkg/nutyx-version"
fail() { echo "WRONG: $*"; exit 1; }
cards() { timeout 60 unshare -Ur /usr/sbin/chroot "$S" /usr/bin/cards "$@" > "$W/out" 2>&1; }
ucards() { timeout 60 unshare -U --map-user=1000 --keep-caps /usr/sbin/chroot "$S" /usr/bin/cards "$@" > "$W/out" 2>&1; }
coll() { echo "$S/remote/$M/$V/$1"; }
key() { openssl genpkey -algorithm ed25519 -out "$W/$1.pem" 2> /dev/null; openssl pkey -in "$W/$1.pem" -pubout -out "$W/$1.pub"; }
# arc COLLECTION NAME VERSION RELEASE BUILD [metadata line...]: an archive with one file, in the published collection
arc() {
  c=$(coll $1) n=$2 v=$3 r=$4 b=$5; p=$W/p; mkdir -p "$c"; rm -rf "$p"; mkdir -p "$p/opt"; cc=$1; shift 5
  printf '%s-%s-%s-%s' $n $v $r $b > "$p/opt/$n"
  { echo "N$n"; echo "V$v"; echo "r$r"; echo "a$M"; echo "D$n"; echo "B$b"; echo "c$cc"; for l; do echo "$l"; done; } > "$p/.META"
  printf '.META\nopt/\nopt/%s\n' $n > "$p/.MTREE"
  f=$n.cards-$v-$M-$r.tar.gz; rm -f "$c/$n.cards-"*
  tar -C "$p" --owner=0 --group=0 --no-recursion -czf "$c/$f" .META .MTREE opt opt/$n
}
# publish COLLECTION KEY: writes the index
publish() {
  c=$(coll $1); mkdir -p "$c"; : > "$c/.REPO"; : > "$c/.FILES"
  for a in "$c"/*.cards-*; do
    [ -f "$a" ] || continue
    h=$(sha512sum "$a" | cut -d' ' -f1); printf "$(echo $h | sed 's/../\\x&/g')" > "$W/h"
    openssl pkeyutl -sign -rawin -inkey "$W/$2.pem" -in "$W/h" -out "$W/sig" 2> /dev/null
    { echo "@${a##*/}"; tar -xzOf "$a" .META; echo "H$h"; echo "I$(od -An -v -tx1 "$W/sig" | tr -d ' \n')"; echo "i$(stat -c %s "$a")"; echo; } >> "$c/.REPO"
    { echo "@${a##*/}"; tar -xzOf "$a" .MTREE | grep -v '^\.'; echo; } >> "$c/.FILES"
  done
  for f in .REPO .FILES; do zstd -q -f "$c/$f" -o "$c/$f.zst"; done; cp "$W/$2.pub" "$c/.PKEY"
}
# client COLLECTION...: a configuration with these collections, downloaded from the published ones
client() { : > "$S/etc/cards.conf"; for k; do echo "dir /depot/$k | file:///remote" >> "$S/etc/cards.conf"; mkdir -p "$S/depot/$k"; done; }
# alone COLLECTION...: the same, local
alone() { : > "$S/etc/cards.conf"; for k; do echo "dir /remote/$M/$V/$k" >> "$S/etc/cards.conf"; done; }
has() { [ -d "$D/$1" ]; }
ver() { sed -n "s/^V//p" "$D/$1/META" 2> /dev/null || sed -n "s/^V//p" "$D/$1/.META"; }
auto() { [ -e "$D/$1/.AUTO" ] || grep -q '^d1' "$D/$1/META" 2> /dev/null; }
