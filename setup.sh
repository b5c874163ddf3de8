#!/bin/sh
# Builds everything the checks need (each check rebuilds what is missing or out of date).
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.path.insert(0, "tools"); sys.dont_write_bytecode = True
import common, proof
common.build_witness(False); common.build_witness(True)
proof.build_extract()
'
