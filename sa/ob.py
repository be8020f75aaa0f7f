class Ob:
    """one obligation and what became of it: ok, violation or undecided"""
    def __init__(self, name, verdict, where, detail="", rule="", size=0, funcs=(), cases=1):
        self.name, self.verdict, self.where, self.detail, self.rule = name, verdict, where, detail, rule
        self.size, self.funcs, self.cases = size, list(funcs), cases
