"""addcheck.py ID TECHNIQUE NOTE: register a check in mkprops.py."""
import sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops.py")
s = open(p).read()
s = s.replace("CHECKS = {\n", "CHECKS = {\n    %r: (%r, %r),\n" % tuple(sys.argv[1:4]), 1)
open(p, "w").write(s)
