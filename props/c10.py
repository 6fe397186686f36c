from . import savecheck
def main(): return savecheck.main("C10", "KTX", "saved KTX files describe and contain exactly the texture")
