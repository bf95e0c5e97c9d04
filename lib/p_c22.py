import common_reader as c
PARTS = [("model", c.model("slices")), ("trace", c.trace("slices"))]
