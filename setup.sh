#!/bin/sh
# Everything is compiled by the checks themselves from /repo's current tree; this
# only makes sure the compiler and the framework sources work.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
g++ -std=gnu++14 -O1 -w -Ilib -c lib/pbt_main.cpp -o build/setup_probe.o && echo ok
