#!/bin/bash
# Run with cwd /repo: builds the library from the current tree with demo.cc and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
flags="-std=c++20 -O1 -w -I$here/shim -I$PWD -I$here"
find ink_stroke_modeler -name '*.cc' ! -name '*_test.cc' ! -name '*fuzz*' ! -name 'type_matchers.cc' > "$w/list"
echo "$here/demo.cc" >> "$w/list"
xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "{}" -o "'"$w"'/$(echo "{}" | tr / _).o" || exit 255' < "$w/list" || exit 3
g++ "$w"/*.o -o "$w/demo" $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format) -lpthread || exit 3
timeout 60 "$w/demo"
