"""known-findings.json: the fixed entries come from the list below and the fix: commits of /repo"""
import json, subprocess
FIX = [  # (property, start of the commit subject, what failed)
 ('W03', 'fix: write current selections atomically', 'a kill while a selection was written left an empty or partial name'),
 ('W02', 'fix: write configuration files atomically', 'a full disk while a configuration file was saved left it truncated'),
 ('W03', 'fix: create configurations completely', 'a failure or kill while a configuration was created left a partial one that was listed'),
 ('W02', 'fix: copy workspaces and configurations completely', 'a failed copy left a partial workspace or configuration under the new name'),
 ('W02', 'fix: add input files completely', 'a failed import left a truncated input that was listed and used'),
 ('W01', 'fix: refuse to rename a workspace', 'renaming a workspace to an existing empty one replaced it'),
 ('W05', 'fix: refuse workspace, configuration and input names', 'names like "..", "" or absolute paths made removals and copies reach outside'),
 ('W01', 'fix: report the directory of the current workspace', 'the current workspace was reported in a wrong folder'),
 ('W01', 'fix: list only workspaces', 'plain files in the workspaces folder were listed as workspaces'),
 ('W07', 'fix: never overwrite a notebook', 'two requests at the same time wrote the same notebook; failures to write were not reported'),
 ('W07', 'fix: write valid notebooks', 'a product path with a quote gave a notebook that cannot be opened'),
]
FINDINGS = []
try:
    from knownlist import FIX2, FINDINGS2
    FIX += FIX2
    FINDINGS += FINDINGS2
except ImportError:
    pass
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()]
out = []
for p, s, w in FIX:
    h = [c for c, t in log if t.startswith(s)]
    assert len(h) == 1, (s, h)
    out.append('fixed: property=%s %s %s' % (p, h[0], w))
json.dump({'findings': FINDINGS, 'fixed': out}, open('/verif/known-findings.json', 'w'), indent=1)
print(len(out))
