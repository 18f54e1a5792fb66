#!/bin/sh
# Nothing is kept between runs: each check builds what it needs. This only makes
# sure that the tools are there.
set -e
cd "$(dirname "$0")"
PATH=/opt/veriftools/go1.27.3/bin:$PATH go version
node --version
python3 --version
