#!/usr/bin/env python3
"""Mutation testing of the checks: makes small changes to a scratch copy of /repo,
keeps those that compile and pass the existing tests, runs the checks on them.

usage: mutate.py gen OUT.jsonl            lists mutants
       mutate.py test IN OUT LAB          adds whether the tests notice
       mutate.py check IN OUT LAB [RUNS]  adds which check notices
"""
import re, sys, os, json, subprocess
SRC = ['error.rs','lib.rs','parse.rs','parse_extern.rs','parse_fn.rs','parse_impl.rs','parse_mod.rs','parse_type.rs','parse_utils.rs','punctuated.rs','types.rs','types_edition.rs']
SUBS = [
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bJoint\b', 'Alone'), (r'\bAlone\b', 'Joint'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
    (r'\.is_empty\(\)', '.len() == 1'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r' \+ 1\b', ''), (r' - 1\b', ''),
    (r'\bif !', 'if '), (r"'<'", "'>'"), (r"'>'", "'<'"), (r"':'", "';'"), (r"';'", "':'"), (r"','", "';'"), (r"'='", "'+'"),
    (r'Brace\b', 'Bracket'), (r'Parenthesis\b', 'Bracket'), (r'Bracket\b', 'Parenthesis'), (r'Delimiter::None\b', 'Delimiter::Brace'),
    (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r'\+= 1', '+= 2'), (r'-= 1', '-= 0'),
    (r'\.peek\(\)', '.next().as_ref()'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\?;', '.ok();'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\.cloned\(\)', '.cloned().filter(|_| false)'),
    (r'\.rev\(\)', ''), (r'call_site\(\)', 'mixed_site()'), (r'\bSome\((\w+)\)(?=[,;)]|$)', 'None'),
    (r'\bOk\(Some\(', 'Ok(None.or(Some('),
    (r'\.filter\(', '.filter(|_| true).skip_while('), (r'\.push\(', '.insert(0, '), (r'\.extend\(', '.append(&mut Default::default()); drop('),
]

def gen(out):
    ms = []
    for f in SRC:
        lines = open('/repo/src/' + f).read().split('\n')
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or 'assert' in s and False:
                continue
            def add(new, what):
                if new != l: ms.append({'file': f, 'line': i + 1, 'old': l, 'new': new, 'what': what})
            for pat, rep in SUBS:
                for m in re.finditer(pat, l):
                    if '//' in l[:m.start()]: continue
                    add(l[:m.start()] + m.expand(rep) + l[m.end():], pat)
            if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and s.count('(') == s.count(')'):
                add(re.match(r'\s*', l).group() + '/* gone */', 'statement')
            m = re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{)$', l)
            if m:
                add(m[1] + 'true || (' + m[2] + ')' + m[3], 'if true')
                add(m[1] + 'false && (' + m[2] + ')' + m[3], 'if false')
            m = re.match(r'^(\s*while )(?!let)(.*)( \{)$', l)
            if m: add(m[1] + 'false && (' + m[2] + ')' + m[3], 'while false')
            m = re.match(r'^(\s*)(.* if )(.*)( => .*)$', l)
            if m:
                add(m[1] + m[2] + 'true || (' + m[3] + ')' + m[4], 'arm true')
                add(m[1] + m[2] + 'false && (' + m[3] + ')' + m[4], 'arm false')
            m = re.match(r'^(\s*)([\w:.]+\(.*\))$', l)
            if re.match(r'^\s*self\.\w+\.to_tokens\(tokens\);$', l) and i + 1 < len(lines) and re.match(r'^\s*self\.\w+\.to_tokens\(tokens\);$', lines[i+1]):
                ms.append({'file': f, 'line': i + 1, 'old': l + '\n' + lines[i+1], 'new': lines[i+1] + '\n' + l, 'what': 'swap'})
    for k, m in enumerate(ms): m['id'] = k
    with open(out, 'w') as o:
        for m in ms: o.write(json.dumps(m) + '\n')
    print(len(ms))

def apply(lab, m):
    p = f"{lab}/repo/src/{m['file']}"
    s = open(p).read().split('\n')
    n = m['old'].count('\n') + 1
    assert '\n'.join(s[m['line']-1:m['line']-1+n]) == m['old']
    s[m['line']-1:m['line']-1+n] = m['new'].split('\n')
    open(p, 'w').write('\n'.join(s))

def undo(lab):
    subprocess.run(['git', '-C', lab + '/repo', 'checkout', '-q', '--', '.'])

def test(inp, out, lab):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if False else None
    env = dict(os.environ, CARGO_TARGET_DIR=lab + '/t', CARGO_NET_OFFLINE='true', INSTA_UPDATE='no', RUSTFLAGS='-Awarnings')
    o = open(out, 'a')
    for l in open(inp):
        m = json.loads(l)
        undo(lab); apply(lab, m)
        try:
            r = subprocess.run(['cargo', 'test', '--offline', '--workspace', '--', '--test-threads', '2'], cwd=lab + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            t = r.stdout.decode(errors='replace')
            m['tests'] = 'pass' if r.returncode == 0 else ('nocompile' if 'could not compile' in t else 'fail')
        except subprocess.TimeoutExpired:
            m['tests'] = 'hang'
        undo(lab)
        o.write(json.dumps(m) + '\n'); o.flush()

ORDER = ['C03','C08','C09','C11','C13','C07','C10','C14','C04','C05','C01','C02','C12','C06']
def check(inp, out, lab, runs):
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    o = open(out, 'a')
    for l in open(inp):
        m = json.loads(l)
        if m['id'] in done: continue
        undo(lab); apply(lab, m)
        b = subprocess.run(['bash', lab + '/verif/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
        m['caught'] = []; m['odd'] = []
        if b.returncode == 0:
            for p in ORDER:
                env = dict(os.environ, VSIM_ROOT=lab + '/verif', VSIM_RUNS=str(runs), VSIM_SECS='60')
                try:
                    r = subprocess.run([lab + '/verif/target/release/vsim', 'check', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                except subprocess.TimeoutExpired:
                    m['odd'].append(p + ' timeout'); continue
                t = r.stdout.decode(errors='replace')
                if r.returncode == 1:
                    m['caught'].append(p); m['class'] = t.split('\n')[0][:100]
                    break
                if r.returncode != 0: m['odd'].append(p + ' ' + t[-200:])
        else: m['odd'].append('build')
        undo(lab)
        o.write(json.dumps(m) + '\n'); o.flush()

a = sys.argv
if a[1] == 'gen': gen(a[2])
elif a[1] == 'test': test(a[2], a[3], a[4])
else: check(a[2], a[3], a[4], int(a[5]) if len(a) > 5 else 4000)
