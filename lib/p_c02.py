from common_lb import *
PARTS = [("model", model("text")), ("trace", trace("text"))]
