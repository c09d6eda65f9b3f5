#!/bin/bash
# Run with cwd = the repository: compiles demo.cc against its sources and runs it.
set -e
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -O1 -w -std=c++11 -I. -I/usr/include/eigen3 "$d/demo.cc" fbstab/*.cc fbstab/components/*.cc -o "$w/demo" -pthread
timeout 200 "$w/demo"
