#!/bin/sh
# what C21's documents take for a solver: behaves as the file next to the link it is started by says
cd "$(dirname "$0")"
. ./behave
