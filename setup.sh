#!/bin/bash
# Build once to warm the compiler cache; every check builds again by itself.
here=$(cd "$(dirname "$0")" && pwd)
trap 'rm -rf "$here/.build/setup.$$"' EXIT
bash "$here/build.sh" "$here/.build/setup.$$" race
