# the superblock codec is left open in the tree (marshall and unmarshall are unreached()): the simulator supplies one
import re, sys
p = sys.argv[1]; s = open(p).read()
for name, args in (("marshall", "sb"), ("unmarshall", "raw_page")):
    s = re.sub(r"(pub (?:exec )?fn %s\b[^{]*\{)[^{}]*unreached\(\)[^{}]*\}" % name, r"\1 crate::codec::%s(%s) }" % (name, args), s)
open(p, "w").write(s)
