#!/bin/bash
# proofon.sh SEEDED-ID PROPERTY: the proof stage alone on a scratch copy with a planted change
d=$(mktemp -d /tmp/w.proofXXXX)
cp -a /repo "$d/r" && git -C "$d/r" apply "/verif/seeded/$1/patch.diff" && (cd /verif && CV_REPO="$d/r" /opt/venv/bin/python -m cv.prove "$2" 2>&1 | cut -c1-600)
rm -rf "$d"
