import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import prog, esp
from prog import load, operands, strip_templates
from esp import Interp, Client, State, trace_lines, STR, TRUE, FALSE

class Broken(Exception):
    """the analysis lost its anchors: neither a pass nor a violation"""

class Finding:
    def __init__(self, key, msg, where="", trace=None):
        self.key, self.msg, self.where, self.trace = key, msg, where, trace or []

class Result:
    def __init__(self):
        self.findings, self.cov, self.explain = [], {}, ""
        self.samples = []
        self.assumptions = []
    def add(self, key, msg, where="", trace=None):
        if not any(f.key == key for f in self.findings):
            self.findings.append(Finding(key, msg, where, trace))
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def need(self, k, least):
        """the rule must have matched at least what was confirmed by hand"""
        if self.cov.get(k, 0) < least:
            raise Broken(f"only {self.cov.get(k, 0)} instances of '{k}', at least {least} expected")

def rel(path):
    return path.replace("/repo/", "")
