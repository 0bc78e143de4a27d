#!/bin/bash
for s in "$@"; do echo "=== $s"; bash /verif/tools/seed.sh $s; done
