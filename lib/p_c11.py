"""C11: hyphenation only cuts a word, within the configured limits."""
from common_hyph import *
PARTS = [("model", model("legal")), ("tiny", tiny("legal")), ("bundled", bundled("legal"))]
