from . import savecheck
def main(): return savecheck.main("C11", "PVR", "saved PVR files describe and contain exactly the texture")
