#!/bin/sh
# Nothing is kept between runs: every check builds what it needs. This only
# tells early whether the tools are there.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
go version
mkdir -p out evidence
