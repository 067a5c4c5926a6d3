#!/bin/bash
# ns.sh N CMD...: run CMD with private copies of /repo, /verif and /opt/vp mounted over the real ones
# (worker N under /tmp/wk), so that several trials can run at once and the real trees stay untouched.
n=$1; shift
b=/tmp/wk/$n
if [ ! -d "$b/verif" ]; then
  mkdir -p "$b"
  cp -a /repo "$b/repo"; cp -a /verif "$b/verif"; cp -a /opt/vp "$b/vp"
fi
if [ "$REFRESH" = 1 ]; then
  tar -C /verif --exclude=./target --exclude=./work --exclude=./.git -cf - . | tar -C "$b/verif" -xf -
  tar -C /repo --exclude=./target -cf - . | tar -C "$b/repo" -xf -
fi
exec unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && mount --bind "$0/vp" /opt/vp && cd /verif && exec "$@"' "$b" "$@"
