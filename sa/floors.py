"""obligations confirmed by hand, per property: fewer means the analysis lost its anchors"""
FLOORS = {}
