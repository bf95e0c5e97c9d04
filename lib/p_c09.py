import common_ansi
PARTS = common_ansi.parts("Lossless")
