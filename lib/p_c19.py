import common_width as c
PARTS = [("model", c.model), ("allrunes", c.allrunes("width")), ("histories", c.histories)]
