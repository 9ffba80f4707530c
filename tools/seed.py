#!/usr/bin/env python3
"""Make and confirm a planted bug: seed.py ID PROP SOURCES DEFS < nothing.
The scratch copy given by --copy holds the edited sources; demo.c must already be in seeded/ID/.
Writes patch.diff and demo.sh, then confirms: builds, tests pass, demo passes without and fails with the patch."""
import argparse, json, os, subprocess as sp, sys
a = argparse.ArgumentParser()
a.add_argument("id"); a.add_argument("prop"); a.add_argument("--copy", default="/tmp/seed/r"); a.add_argument("--srcs", default="")
a.add_argument("--defs", default="LF_SINGLE_THREADED=1"); a.add_argument("--needs", default=""); a.add_argument("--breaks", default="")
a.add_argument("--san", action="store_true"); a.add_argument("--demo-only", action="store_true")
o = a.parse_args()
d = "/verif/seeded/" + o.id
def sh(c, cwd=None): return sp.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
INC = "include include/core include/core/federated include/core/federated/network include/core/modal_models include/core/platform include/core/threaded include/core/utils include/core/utils/hashset include/api trace/api trace/api/types trace/impl/include version/api logging/api tag/api low_level_platform/api platform/api core/federated/RTI util .".split()
diff = sh("git diff", o.copy).stdout
assert diff, "no change in the copy"
open(d + "/patch.diff", "w").write(diff)
defs = ["PLATFORM_Linux", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=0"] + [x for x in o.defs.split() if x]
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Run in the repository: compiles the demonstration with the sources it needs and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r -- "$t"' EXIT
inc=(%s)
gcc -std=gnu11 -w -g -O0 -no-pie%s %s "${inc[@]/#/-I}" "$here/demo.c" %s -lpthread -lm -Wl,--unresolved-symbols=ignore-all -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
""" % (" ".join(INC), " -fsanitize=address" if o.san else "", " ".join("'-D%s'" % x for x in defs), " ".join('"$PWD/%s"' % s for s in o.srcs.split())))
os.chmod(d + "/demo.sh", 0o755)
if o.needs: json.dump({"property": o.prop, "needs": o.needs, "what_it_breaks": o.breaks}, open(d + "/meta.json", "w"), indent=1)
r0 = sh("bash %s/demo.sh" % d, "/repo"); r1 = sh("bash %s/demo.sh" % d, o.copy)
print("demo unpatched:", r0.returncode, r0.stdout[-300:], r0.stderr[-800:]); print("demo patched:", r1.returncode, r1.stdout[-300:], r1.stderr[-600:])
ok = r0.returncode == 0 and r1.returncode not in (0, 3)
print("OK" if ok else "NOT OK", o.id)
