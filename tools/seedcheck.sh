#!/bin/bash
# seedcheck.sh: runs the checks against the scratch tree /tmp/seedwt   usage: seedcheck.sh C02 [C03...]
for p in "$@"; do VERIF_REPO=/tmp/seedwt VERIF_CACHE=/tmp/seedcache /verif/check.sh $p | cut -c1-250 | head -6; done
(cd /tmp/seedwt && git checkout -q -- . )
