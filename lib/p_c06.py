from common_lb import *
PARTS = [("model", model("attributes")), ("trace", trace("attributes", spans=.8, marks=.6))]
