#!/bin/bash
# Development aid (not registered): tools/try.sh NAME PATCH CHECK...
# applies PATCH to a scratch copy of /repo and runs the named checks on it.
# PATCH may be "revert:<commit>".
here=$(cd "$(dirname "$0")/.." && pwd)
name=$1; patch=$2; shift 2
d=/tmp/m/$name; rm -rf "$d" "/tmp/m/out-$name"; mkdir -p /tmp/m "/tmp/m/out-$name"
cp -a /repo "$d"
case $patch in
    revert:*) git -C "$d" -c user.name=a -c user.email=a@b revert --no-edit "${patch#revert:}" >/dev/null 2>&1 || { echo "$name NO-REVERT"; rm -rf "$d"; exit 2; };;
    *) git -C "$d" apply "$patch" || { echo "$name NO-APPLY"; rm -rf "$d"; exit 2; };;
esac
for c in "$@"; do
    VERIF_DEV_REPO=$d VERIF_DEV_OUT=/tmp/m/out-$name bash "$here/run.sh" "$c" > "/tmp/m/out-$name/$c.log" 2>&1
    rc=$?
    echo "$name $c rc=$rc $(grep -c VIOLATION "/tmp/m/out-$name/$c.log")"
done
rm -rf "$d"
