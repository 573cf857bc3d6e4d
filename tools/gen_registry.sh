#!/bin/bash
# regenerates harness/props/registry.go (committed) from the harness functions
cd "$(dirname "$0")/../harness/props" || exit 1
{
echo "package props"
echo
echo "// All maps harness names to harnesses; generated by tools/gen_registry.sh."
echo "var All = map[string]func(){"
grep -hoE '^func [A-Z][0-9]{2}_[A-Za-z0-9_]+\(\)' *.go | sed -E 's/func (.*)\(\)/\1/' | sort | sed -E 's/(.*)/\t"\1": \1,/'
echo "}"
} > registry.go
gofmt -w registry.go
