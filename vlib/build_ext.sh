#!/bin/bash
# Rebuild /repo's Cython extension when its sources changed (by content).
# The build products are git-ignored in /repo.
exec 9>/tmp/.vp-ext.lock; flock 9
cd /repo || exit 1
sum=$( { find turbustat \( -name '*.pyx' -o -name '*.pxd' -o -name '*setup_package.py' \) -print0 | sort -z | xargs -0 sha256sum
         sha256sum setup.py setup.cfg pyproject.toml; } | sha256sum)
if [ "$sum" = "$(cat build/.vp-stamp 2>/dev/null)" ] && \
   ls turbustat/simulator/spectrum*.so >/dev/null 2>&1; then
    exit 0
fi
bash /opt/vp/build.sh --ext-only
