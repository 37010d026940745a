"""P02: a diagnostics publication carries the version of the text it describes (spec Server, ClientView)."""
from checks.p01 import both


def check(ck):
    both(ck, 'P02')
