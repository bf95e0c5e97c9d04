import common_reader as c
PARTS = [("model", c.model("cursor")), ("trace", c.trace("cursor"))]
