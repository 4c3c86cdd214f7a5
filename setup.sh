#!/bin/sh
# nothing is compiled; make sure the package and the monitors can be imported
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
cd "$here" && exec ./run.sh C25 --tier quick --cases 40
