"""Appends to KNOWN_FINDINGS.txt. Usage: known.py fixed C07 <commit> <text>  |  known.py open C07 <key> <text>"""

import os
import sys

kind, prop, ref = sys.argv[1:4]
text = " ".join(sys.argv[4:])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
with open(path, "a") as f:
    f.write(f"fixed: property={prop} {ref} {text}\n" if kind == "fixed" else f"open: property={prop} key={ref} {text}\n")
