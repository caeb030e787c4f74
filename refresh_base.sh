#!/bin/sh
# re-take the reviewed revision from the committed tree of /repo (only after reviewing what changed)
set -e
git -C /repo diff --quiet HEAD
rsync -a --delete --include='*/' --include='*.h' --include='*.hpp' --include='*.c' --include='*.cpp' --exclude='*' /repo/opm/ /verif/ref/base/opm/ 2>/dev/null || {
  find /verif/ref/base/opm -type f -delete
  cd /repo && find opm -type f \( -name '*.h' -o -name '*.hpp' -o -name '*.c' -o -name '*.cpp' \) | cpio -pdm --quiet /verif/ref/base
}
