def printif(cond, statement):
    if cond:
        print(statement)
