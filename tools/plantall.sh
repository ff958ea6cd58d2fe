#!/bin/bash
# plantall.sh IDs...: plant.sh for each, one after another, results in /tmp/w/plant.log
for id in "$@"; do /verif/tools/plant.sh $id; done > /tmp/w/plant.log 2>&1
