import common_width as c
PARTS = [("texts", c.texts), ("allrunes", c.allrunes("widths"))]
