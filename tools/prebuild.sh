#!/bin/bash
# developer tool: keep the extractor binary that belongs to the committed extract.cpp
cd /verif && T=$(python3 -c "import sys;sys.path.insert(0,'lib');import facts;print(facts.build_tool())")
case $T in */bin/*) exit;; esac
mkdir -p extractor/bin && git rm -q --cached -r extractor/bin 2>/dev/null; find /verif/extractor/bin -name 'extract-*' -delete
strip -s "$T" -o extractor/bin/$(basename $T); ls -la extractor/bin
