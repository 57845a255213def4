# helpers of the demonstrations of cards create (on top of h2.sh)
. "$(dirname "$0")/h2.sh"
: > "$S/tmp/setup"; mkdir -p "$S/ports"
cat > "$S/usr/bin/pkgmk" <<'P'
#!/usr/bin/sh
p=${PWD##*/}; n=0; while [ -e /env.$n ]; do n=$((n+1)); done
cd /var/lib/pkg/DB; echo $p: * > /env.$n; cd /ports
if [ -e /rc.$p ]; then read r < /rc.$p; exit $r; fi
if [ -e /new.$p ]; then read c < /new.$p.c; while IFS= read -r l; do echo "$l"; done < /new.$p > $c/.REPO; fi
exit 0
P
chmod 755 "$S/usr/bin/pkgmk"
create() { timeout 60 unshare -Ur /usr/sbin/chroot "$S" /usr/bin/sh -c 'cd /ports && exec /usr/bin/cards create "$@"' x "$@" > "$W/out" 2>&1; }
# port COLLECTION NAME VERSION RELEASE [dependency...]
port() {
  pc=$1 pn=$2 pv=$3 pr=$4; shift 4; mkdir -p "$S/ports/$pc/$pn"
  { echo "version=$pv"; echo "release=$pr"; echo "makedepends=($*)"; echo 'build() {'; echo '}'; } > "$S/ports/$pc/$pn/Pkgfile"
}
# the packager will publish for port $2 what is in collection $1 now; before that, the index is $W/index.$1
keep() { cp "$(coll $1)/.REPO" "$W/index.$1"; }
later() { cp "$(coll $1)/.REPO" "$S/new.$2"; c=$(coll $1); echo "${c#$S}" > "$S/new.$2.c"; cp "$W/index.$1" "$(coll $1)/.REPO"; }
env_of() { cat "$S"/env.* 2> /dev/null | sed -n "s/^$1: //p" | tail -1; }
