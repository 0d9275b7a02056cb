#!/bin/bash
# Runs the demonstration, which is a test of the package, from outside of the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
pkg=@PKG@
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
{
	printf '{"Replace":{'
	sep=
	for f in "$here"/*_test.go; do
		printf '%s"%s/%s/zz_demo_%s":"%s"' "$sep" "$repo" "$pkg" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}'
} > "$tmp/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off
cd "$repo" && go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 240s @TAGS@ -run '^TestZZDemo$' "./$pkg"
