#!/bin/bash
# Regenerates the native registry of harness functions.
cd "$(dirname "$0")/../harness" || exit 1
{
echo "// Code generated by tools/genreg.sh. DO NOT EDIT."
echo
echo "package main"
echo
echo "var registry = map[string]func(){"
cat *.go | grep -oE '^func [QTK]_C[0-9]+_[A-Za-z0-9_]+\(\)' | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\t"\1": \1,/' | sort
echo "}"
} > registry.go.new
gofmt registry.go.new > registry.go && rm -f "$PWD/registry.go.new"
