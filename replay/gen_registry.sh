#!/bin/bash
# regenerates registry.go from contracts/grammar.spec (committed result)
cd "$(dirname "$0")"
{
echo "package main"; echo
echo "import (\"reflect\"; \"github.com/akito0107/xsqlparser/sqlast\")"; echo
echo "var registry = map[string]reflect.Type{"
grep -oP '^[A-Z]\w+(?=[ @].*:)' ../contracts/grammar.spec | sort -u | while read n; do echo "\"$n\": reflect.TypeOf(sqlast.$n{}),"; done
echo "}"; echo
echo "var enums = map[string]int64{"
grep -v '^#' ../contracts/grammar.spec | grep -oP '\.\w+=\K\w+' | sort -u | while read n; do echo "\"$n\": int64(sqlast.$n),"; done
echo "}"
} | gofmt > registry.go
