"""Known findings: defects recorded, not repaired. known-findings.txt is only read here."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    out = []
    for l in open(HERE + "/known-findings.txt"):
        if l.startswith("finding: property=%s " % pid):
            _, _, fid, text = l.split(" ", 3)
            out.append((fid, text.strip()))
    return out


def split(pid, found, failures):
    """take the listed findings out of what failed"""
    known = []
    for fid, text in load(pid):
        hit = [f for f in found if f.get("finding") == fid] + [f for f in failures if f[0] == fid]
        if hit:
            known.append(text)
            found = [f for f in found if f.get("finding") != fid]
            failures = [f for f in failures if f[0] != fid]
    return found, failures, known
