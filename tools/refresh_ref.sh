#!/bin/bash
# Take the reviewed sources (/repo at HEAD, fixes included) as the reference semantics.  Run by hand after a review, never by a check.
set -e
d=$(dirname "$(readlink -f "$0")")/../ref
rm -rf "$(readlink -f "$d")/parcels"
mkdir -p "$d/parcels"
git -C /repo archive HEAD parcels | tar -x -C "$d"
rm -rf "$(readlink -f "$d")/parcels/examples"
