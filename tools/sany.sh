#!/bin/bash
# syntax and semantic check of specification modules
J=/opt/veriftools/tla
cd ${SPEC:-/verif/spec} && for m in "$@"; do java -DTLA-Library=${SPEC:-/verif/spec} -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar tla2sany.SANY $m.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^SANY\|^Linting\|^$\|^\*\*\*\*"; done
