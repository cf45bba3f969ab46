#!/bin/bash
# tools/mut.sh PROP FILE 'perl-expression': runs a check against a mutated copy of /repo
P=$1; F=$2; X=$3
D=/tmp/mutrepo.$$
rm -rf "$D"; mkdir "$D"; cp -a /repo/amelie "$D/"
perl -0pi -e "$X" "$D/amelie/$F"
if cmp -s "$D/amelie/$F" "/repo/amelie/$F"; then echo "MUTATION DID NOT APPLY"; else
AMELIE_REPO=$D python3 /verif/check.py $P | grep -v "^  \|^    " | tail -4; fi
rm -rf "$D"
