from common_lb import *
PARTS = [("model", model("width")), ("trace", trace("width")), ("choice", choice("width"))]
