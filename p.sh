#!/bin/bash
for p in "$@"; do /verif/g.sh -prop $p -out /tmp/p_$p.json >/tmp/p_$p.txt 2>&1; tail -8 /tmp/p_$p.txt | grep -v '^ "\|^{\|^  "\|^ }' | sed 's/^}//' | cut -c1-400; done
