#!/bin/bash
# Regenerates h/registry.go from the harness functions in h.
cd "$(dirname "$0")/h" || exit 1
{
echo "// Code generated by mkreg.sh. DO NOT EDIT."
echo
echo "package h"
echo
echo "// Registry lists the harnesses for native replay."
echo "var Registry = map[string]func(){"
grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*' *.go | sed 's/^func //' | sort | sed 's/.*/\t"&": &,/'
echo "}"
} > registry.go
gofmt -w registry.go
