"""Executable contracts on objects built by the real constructors."""


class Violation(Exception):
    def __init__(self, what, msg):
        super().__init__(msg)
        self.what = what


class Inconclusive(Exception):
    pass
