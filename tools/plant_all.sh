#!/bin/bash
# plant_all.sh [ID...]: run plant.sh for all (or these) bugs, record the results in tools/plant_results.txt
cd /verif; f=tools/plant_results.txt; touch $f
for b in ${@:-$(ls seeded | grep ^b)}; do
  r=$(tools/plant.sh $b 2>&1 | grep '^==')
  echo "$r" | sed 's/ in [0-9.]*s//; s/ VIOLATION.*//'
  grep -v "^== $b " $f > $f.new; echo "$r" | sed 's/ in [0-9.]*s//; s/ VIOLATION.*//' >> $f.new; sort $f.new > $f; /bin/rm -f /verif/$f.new
done
/opt/venv/bin/python tools/bugtable.py
