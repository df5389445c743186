#!/bin/bash
# fixed.sh PROP "what": record the HEAD commit of /repo as a repair
echo "fixed: property=$1 $(git -C /repo log -${3:-1} --format=%h | tail -1) $2" >> /verif/KNOWN_FINDINGS.txt
