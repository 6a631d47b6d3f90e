SYMBOLIC = True
