#!/bin/sh
# Nothing is built ahead of the checks; verify that the tools they need work.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import lsst.pipe.base"
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
