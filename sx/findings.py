"""known_findings.txt: one entry per line

  finding: property=C01 id=C01-x <what fails>
  fixed: property=C01 <commit> <what failed>
"""
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'known_findings.txt')


def entries():
    out = []
    if not os.path.exists(PATH):
        return out
    with open(PATH) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith('finding:'):
                w = line[len('finding:'):].split(None, 2)
                pid = w[0].split('=', 1)[1]
                fid = w[1].split('=', 1)[1]
                out.append((pid, fid, w[2] if len(w) > 2 else ''))
    return out


def active_ids(pid):
    return [f for p, f, _ in entries() if p == pid]
