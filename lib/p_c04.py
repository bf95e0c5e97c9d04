from common_lb import *
PARTS = [("model", model("optimal")), ("trace", trace("optimal")), ("choice", choice("optimal"))]
