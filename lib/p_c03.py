from common_lb import *
PARTS = [("model", model("feasible")), ("trace", trace("feasible")), ("choice", choice("feasible"))]
