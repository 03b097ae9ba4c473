#!/bin/bash
# usage: demo.sh, cwd = the tree to test (built)
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++98 -D_LARGEFILE64_SOURCE -w -g -O1 -I. -Iinclude -Idaemon "$here/demo.cpp" -o "$tmp/demo" -Lobj -listatdaemon -listat -lboost_system -lboost_thread -lpthread -lstatgrab -lboost_filesystem -lboost_iostreams -lboost_date_time 2>"$tmp/cc.log" || { tail -5 "$tmp/cc.log"; exit 99; }
timeout 120 "$tmp/demo" "$tmp"
