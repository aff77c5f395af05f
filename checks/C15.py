import C14

def check(c): C14.check(c, "state")
