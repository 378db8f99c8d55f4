#!/bin/bash
# exit 0: the property holds in this scenario
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cfg=default
libs="-lssl -lcrypto -lexpat -lz -lresolv -lpthread"
[ -f "$here/config" ] && . "$here/config"
gcc -w -g -O1 $cflags -I"$repo" -I"$repo/src" -I"$here" "$here/demo.c" \
    "$repo/_build/$cfg/.libs/libstrophe.a" $libs -o "$tmp/demo" || exit 2
if [ -n "$certs" ]; then
    openssl req -x509 -newkey rsa:2048 -nodes -keyout "$tmp/key.pem" -out "$tmp/cert.pem" \
        -days 30 -subj "/CN=example.org" -addext "subjectAltName=DNS:example.org" >/dev/null 2>&1
fi
cd "$tmp" && timeout 120 ./demo
