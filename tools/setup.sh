#!/bin/bash
# builds the analyser from engine/ into build/ (also done by a check that finds neither build/ nor engine/prebuilt up to date)
cd "$(dirname "$0")/.." || exit 1
make -s -j4 -C engine OUT=../build || exit 1
python3 -c "
import sys; sys.argv=['x']; sys.path.insert(0,'tools'); import check; open('build/cbsa.sha256','w').write(check.engine_hash()+'\n')"
