"""Character codes of texts for the specifications: codes.py NAME=TEXT ..."""
import sys
for a in sys.argv[1:]:
    n, _, t = a.partition('=')
    print('%s == <<%s>>' % (n, ', '.join(str(ord(c)) for c in t)))
