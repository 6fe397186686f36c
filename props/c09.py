from . import savecheck
def main(): return savecheck.main("C09", "DDS", "saved DDS files describe and contain exactly the texture")
