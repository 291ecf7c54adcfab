#!/bin/bash
# bash /opt/vp/test.sh OUT.json: runs the Go tests and the Bazel sh_test targets of /repo, offline.
out="$(realpath -m "${1:?usage: test.sh OUT.json}")"
. /opt/vp/env.sh
cd ${MUT:-/tmp/mut} || exit 1

W=${MUT:-/tmp/mut}.work
rm -rf "$W"
mkdir -p "$W/bin"
rm -f "$out"
: > "$W/go.json"
: > "$W/lines.txt"

# --- generated files, as the Bazel rules make them

for b in buildifier buildozer generatetables warn/docs; do
  go build -o "$W/bin/$(basename "$b")" "./$b"
done

# --- runfiles tree of the go_test targets (their "data" attributes)
R="$W/runfiles"
M="$R/_main"
mkdir -p "$M"
cp -r --parents build/testdata build/rewrite_test_files build/parse.y.go \
  tables/testdata warn/docs/warnings.textproto WARNINGS.md lang/tables.gen.go "$M/"
goyacc -v "" -o "$M/build/parse.y.baz.go" build/parse.y          # //build:parse.y.baz.go
[ -x "$W/bin/docs" ] &&                                           # //warn/docs:warnings_docs
  "$W/bin/docs" warn/docs/warnings.textproto "$M/warn/docs/WARNINGS.md"
[ -x "$W/bin/generatetables" ] &&                                 # //lang:generateTablesFile
  "$W/bin/generatetables" -input lang/build-language.pb -output "$M/lang/tables.go"

# --- Go tests
TEST_SRCDIR="$R" TEST_WORKSPACE=_main \
  go test -json -vet=off -count=1 -timeout 10m ./... > "$W/go.json"

# --- sh_test targets; @bazel_tools comes from the Ubuntu package bazel-bootstrap-data
# new_runfiles DIR: a fresh runfiles tree and TEST_TMPDIR in DIR
new_runfiles() {
  mkdir -p "$1/runfiles/_main" "$1/runfiles/bazel_tools/tools/bash" "$1/tmp"
  ln -s /usr/share/bazel/embedded_tools/tools/bash/runfiles "$1/runfiles/bazel_tools/tools/bash/runfiles"
}
# sh_test DIR SCRIPT ARGS...: runs SCRIPT in DIR's tree, with DIR/log as its log
sh_test() {
  local d="$1"; shift
  (cd "$d/runfiles/_main" && env RUNFILES_DIR="$d/runfiles" TEST_SRCDIR="$d/runfiles" \
    TEST_WORKSPACE=_main TEST_TMPDIR="$d/tmp" timeout 120 bash "$@") > "$d/log" 2>&1 < /dev/null
}
report() {  # report STATUS ID
  if [ "$1" = 0 ]; then echo "PASS $2"; else echo "FAIL $2"; fi
}

# //buildifier:buildifier_integration_test
if [ -x "$W/bin/buildifier" ]; then
  D="$W/sh/buildifier"
  new_runfiles "$D"
  mkdir -p "$D/runfiles/_main/buildifier"
  cp "$W/bin/buildifier" buildifier/integration_test.sh "$D/runfiles/_main/buildifier/"
  sh_test "$D" buildifier/integration_test.sh buildifier/buildifier
  report $? buildifier/integration_test.sh >> "$W/lines.txt"
fi

# //lang:tables.gen.go_checkshtest, with the script that build_defs.bzl holds
if [ -x "$W/bin/generatetables" ]; then
  D="$W/sh/lang"
  new_runfiles "$D"
  mkdir -p "$D/runfiles/_main/lang"
  cp "$M"/lang/tables*.go "$D/runfiles/_main/lang/"
  sed -n "/<<'eof'\$/,/^eof\$/p" build/build_defs.bzl | sed '1d;$d;s/\$\$/$/g' > "$D/runfiles/_main/lang/check.sh"
  if [ -s "$D/runfiles/_main/lang/check.sh" ]; then
    sh_test "$D" lang/check.sh lang/tables.gen.go lang/tables.go
    report $? lang/tables.gen.go_checkshtest >> "$W/lines.txt"
  fi
fi

# //buildozer:buildozer_test: run_suite stops at the first failure, so each test
# function gets a run of its own, by unsetting the others just before run_suite.
if [ -x "$W/bin/buildozer" ]; then
  only='for f in $(declare -F | awk "{print \\$3}" | grep ^test_); do [ "$f" = "$ONLY_TEST" ] || unset -f "$f"; done'
  sed "s/^run_suite /$only\n&/" buildozer/buildozer_test.sh > "$W/buildozer_test.sh"
  buildozer_one() {
    local t="$1" D="$W/sh/buildozer/$1"
    new_runfiles "$D"
    mkdir -p "$D/runfiles/_main/buildozer"
    ln "$W/bin/buildozer" "$D/runfiles/_main/buildozer/buildozer"
    cp "$W/buildozer_test.sh" buildozer/test_common.sh "$D/runfiles/_main/buildozer/"
    ONLY_TEST="$t" sh_test "$D" buildozer/buildozer_test.sh buildozer/buildozer \
      && [ "$(grep -c "PASSED.*: $t\$" "$D/log")" = 1 ]
    report $? "buildozer/buildozer_test.sh/$t" > "$D/result"
  }
  export -f buildozer_one new_runfiles sh_test report
  export W
  grep -oE '^(function +)?test_[A-Za-z0-9_]+ *\(\)' buildozer/buildozer_test.sh \
    | grep -oE 'test_[A-Za-z0-9_]+' | sort -u \
    | xargs -P "$(nproc)" -I{} bash -c 'buildozer_one {}'
  cat "$W"/sh/buildozer/*/result >> "$W/lines.txt"
fi

python3 /opt/vp/results.py "$out" "gojson:$W/go.json" "lines:$W/lines.txt"
