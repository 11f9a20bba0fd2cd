#!/bin/bash
# usage: teval.sh MODULE S 'expression'   -- evaluate a TLA+ expression in the context of a specification module
d=$(mktemp -d /tmp/teval_XXXX); trap 'rm -rf "$d"' EXIT
printf -- '---- MODULE E ----\nEXTENDS %s\nASSUME PrintT(%s)\n====\n' "$1" "$3" > $d/E.tla
echo "CONSTANT S = $2" > $d/E.cfg
J=/opt/veriftools/tla
cd $d && java -Xss64m -DTLA-Library=/verif/spec -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar:/verif/build tlc2.TLC -config E.cfg E.tla 2>&1 | grep -v "^Loading\|^Linting\|nowarning\|optimistic\|^Model checking\|^The depth\|^Parsing\|^Semantic\|^TLC2\|^Running\|^Starting\|^Computing\|^Finished\|states\|Warning"
