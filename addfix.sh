#!/bin/sh
# addfix.sh PROP COMMIT TEXT...: record a repair
p=$1; c=$2; shift 2
echo "fixed: property=$p $c $*" >> /verif/known-findings.txt
