#!/bin/bash
bash /verif/analysis/ext.sh /verif/analysis/driver/driver.cpp /tmp/x.jsonl ${1:-/repo}
