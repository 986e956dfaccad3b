#!/bin/bash
# run.sh ID TIER | list | replay FILE | case ID TIER N: builds the harness
# against /repo's working tree in a scratch directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	if [ -x "$d/go" ]; then export PATH="$d:$PATH"; break; fi
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
build="$(mktemp -d)" || exit 2
trap 'rm -rf "$build"' EXIT
flags=()
if [ "${1:-}" = X01 ] || { [ "${1:-}" = case ] && [ "${2:-}" = X01 ]; }; then
	export CGO_ENABLED=1 VERIF_PROCS=4
	flags=(-race)
fi
cp -r "$here/harness" "$build/src" || exit 2
if ! (cd "$build/src" && go build "${flags[@]}" -o "$build/harness" .); then
	echo "BUILD FAILED" >&2
	exit 2
fi
export TMPDIR="$build"
# The properties on hostile lengths also run as a 32-bit build, whose int is
# too small for what four bytes can announce. Skipped where such a program
# cannot run.
first=0
arch32() {
	(cd "$build/src" && GOARCH=386 CGO_ENABLED=0 go build -o "$build/harness32" .) &&
		"$build/harness32" list >/dev/null 2>&1
}
case "${1:-}" in
A05 | A06 | F03 | P05 | S02 | S06 | T05)
	if arch32; then
		export VERIF_PASS32="$build/pass32"
		"$build/harness32" check "$1" "${2:-${VERIF_TIER:-quick}}"
		first=$?
		if [ "$first" = 2 ]; then first=0; fi
	fi
	;;
replay)
	if grep -q '"Arch": "386"' "${2:-}" && arch32; then
		"$build/harness32" "$@"
		exit
	fi
	;;
esac
rc=0
case "${1:-}" in
list | replay | case) "$build/harness" "$@" || rc=$? ;;
*) "$build/harness" check "$1" "${2:-${VERIF_TIER:-quick}}" || rc=$? ;;
esac
if [ "$first" = 1 ]; then rc=1; fi
exit "$rc"
