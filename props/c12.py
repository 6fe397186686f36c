from . import savecheck
def main(): return savecheck.main("C12", None, "saving reports success only if everything was written")
