#!/bin/bash
# refreshes the committed build of the analyser (used when build/ is missing and the sources are unchanged)
cd "$(dirname "$0")/.." && tools/setup.sh && mkdir -p engine/prebuilt && strip -o engine/prebuilt/cbsa build/cbsa && cp build/cbsa.sha256 engine/prebuilt/
