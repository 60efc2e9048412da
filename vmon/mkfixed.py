"""rewrite the "fixed" list of known_findings.json from /repo's fix commits"""
import json, os, subprocess
PROP = {'44455c4': 'C05', '89341ca': 'C05', '1776de3': 'C03', '66b2e88': 'S01', '901dba5': 'S01', '0eedab3': 'S08', 'a2da55c': 'S08', 'ed54c88': 'A01',
        'ed837d5': 'A03', '8a6a2d4': 'S06', 'a8dea6e': 'T01', 'ce8549c': 'F01', '0eb3516': 'T01', 'b0e3c24': 'A06', '8ec244e': 'A06', '62fee43': 'C01',
        'b3cf57f': 'C06', 'f08be57': 'S02', '7d28064': 'S05', '1edd2e7': 'S06', '18428d0': 'S01', 'be49809': 'S01', 'a461a90': 'A08', '68b5587': 'S09',
        '8bc6df7': 'F07', '5055575': 'A05', 'bd4e6b8': 'S04', '158728e': 'S04', '49e8e35': 'S01', 'cd3b0fb': 'S09', 'f8ac52c': 'S08', '4783c29': 'S02',
        '2003e4b': 'S06', '1a88b30': 'S04', 'c362c12': 'S09', '3720c16': 'S08', '94610a1': 'F05', '74a4a4e': 'F04', '8e2a4ab': 'F04', 'e805613': 'A02',
        '7af9e58': 'A10', '08a7683': 'A10', '2bfa9a8': 'A09', 'dc69f85': 'A05', '1ff5488': 'A05', 'e9aaabf': 'A06', '41e680c': 'A06', '0f9eefd': 'A07',
        '0b09423': 'S02', '8e7fd17': 'C04', 'd5c5c5d': 'A05', 'd92e768': 'A05', '471964f': 'T01', '5fea961': 'A02', '12ce813': 'A10', 'bbb4180': 'S01', 'cec114f': 'S01', '4a12790': 'C09', '2d9fbfd': 'F05'}
EXTRA = {'1ff5488': 'A02', '66b2e88': 'S02', '74a4a4e': 'F06', 'b0e3c24': 'A07'}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        out.append(f'fixed: property={PROP[h[:7]]} {h[:7]} {s[5:]}')
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1)
print(len(out))
