# helpers of the demonstrations of interrupted commands (on top of h2.sh)
. "$(dirname "$0")/h2.sh"
# dies COLLECTION NAME: the published archive gets a post-install script that kills its process group: the command which runs it
dies() {
  f=$(echo "$(coll $1)/$2.cards-"*); rm -rf "$W/p"; mkdir -p "$W/p"; tar -C "$W/p" -xzf "$f"
  printf 'kill -9 0\n' > "$W/p/.POST"
  tar -C "$W/p" --owner=0 --group=0 --no-recursion -czf "$f" .META .MTREE .POST opt opt/$2
}
cards() { timeout 60 unshare -Ur /usr/sbin/chroot "$S" /usr/bin/cards "$@" > "$W/out" 2>&1; r=$?; [ $r -gt 128 ] && sleep 0.2; return $r; }
