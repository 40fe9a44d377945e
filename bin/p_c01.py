from optlib import *

def check(c):
    optimizer(c, "unsound", "unsound", 30000 if THOROUGH else 3500, 2000 if THOROUGH else 200)
