import common_attr
PARTS = common_attr.parts(common_attr.BOUNDARY)
