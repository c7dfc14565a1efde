#!/bin/bash
# Nothing is built ahead of time; this only confirms that the tools the checks use are present.
set -e
/opt/node/node_modules/.bin/node -e 'process.exit(Number(process.versions.node.split(".")[0]) >= 22 ? 0 : 1)'
z3-new --version
test -f /opt/veriftools/node/node_modules/typescript/package.json
test -f /opt/veriftools/node/node_modules/acorn/package.json
