#!/bin/bash
# mk.sh <seed id>: refresh the common files of a planted bug
for i in "$@"; do cp /verif/tools/demo/{ext.py,frame.rs,demo.sh} /verif/seeded/$i/; done
