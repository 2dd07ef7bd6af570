#!/bin/bash
# keep.sh REPLAY NAME: keep a shrunk failing case as a regression replay
p=$(basename "$1" | cut -d_ -f1); mkdir -p /verif/regressions; cp "$1" "/verif/regressions/${p}_$2.json"
