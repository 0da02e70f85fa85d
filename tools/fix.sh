#!/bin/bash
set -e
cd /repo; git add -u; git commit -qm "fix: $2"; h=$(git rev-parse --short HEAD)
for p in $(echo $1 | tr , ' '); do echo "fixed: property=$p $h $2" >> /verif/known_findings.txt; done
echo $h
