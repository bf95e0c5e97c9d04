import common_split
PARTS = common_split.parts("C16")
