#!/bin/bash
# dev helper: extract a driver: x.sh NAME  -> /tmp/w/NAME.json
set -e
/tmp/rrv-extract /tmp/w/$1.json /repo/lib/,/repo/generator/ /verif/drivers/$1.cpp -- -std=c++20 -I/repo/lib -isystem /usr/include/martchus-c++utilities -resource-dir /usr/lib/llvm-18/lib/clang/18
