#!/usr/bin/env python3
"""spec/*.txt (templates) -> spec/expected/*.txt (reviewed expectations) and harness/src/spec_*.rs.

  gen_spec.py NAME [--update]

Without --update the expectations are taken from spec/expected/NAME.txt as committed, and only
the Rust table is (re)written. With --update, templates that have no expectation yet get one from
the parser (native harness, to be reviewed by hand); existing ones are never changed unless
--force is given.
"""
import sys, re, subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLS = {'α': 'a', 'β': 'b', 'δ': 'd', 'Δ': 'D', 'σ': 's', 'τ': 't', 'ν': 'n', 'υ': 'u', 'ω': 'w', 'χ': 'x', 'κ': 'c', 'ι': 'o'}
def encode(line):
    """template text -> bytes (0xff c = new hole, 0xfe i = hole i again); a leading ✗ marks a program that must be rejected"""
    line = line.removeprefix('✗')
    out = bytearray(); named = {}; n = 0; word = ''
    for ch in line:
        if ch in CLS:
            if word and ch in 'αβ':
                key = word + ch
                if key in named: out += bytes([0xfe, named[key]])
                else: named[key] = n; n += 1; out += b'\xff' + CLS[ch].encode()
                word = key
            else:
                n += 1; out += b'\xff' + CLS[ch].encode(); word = ''
            continue
        ch2 = {'⏎': '\n', '␉': '\t', '␍': '\r', '␣': ' '}.get(ch, ch)
        out += ch2.encode()
        if ch2 == '_' or (ch2.isascii() and ch2.isalpha()): word = ch2 if not word or word[-1] in 'αβ' else word + ch2
        else: word = ''
    return bytes(out)
def rs(b): return 'b"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92) else '\\x%02x' % c for c in b) + '"'
def show(b):
    """expectation bytes -> text"""
    s = ''; i = 0
    while i < len(b):
        if b[i] == 0xff: s += '‹%d›' % b[i + 1]; i += 2
        elif b[i] == 10: s += '⏎'; i += 1
        elif b[i] == 9: s += '␉'; i += 1
        elif b[i] == 13: s += '␍'; i += 1
        elif b[i] == 92: s += '\\\\'; i += 1
        elif 32 <= b[i] < 127: s += chr(b[i]); i += 1
        else: s += '\\x%02x' % b[i]; i += 1
    return s
def unshow(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '‹': j = s.index('›', i); out += bytes([0xff, int(s[i + 1:j])]); i = j + 1
        elif s[i] == '⏎': out.append(10); i += 1
        elif s[i] == '␉': out.append(9); i += 1
        elif s[i] == '␍': out.append(13); i += 1
        elif s[i:i+2] == '\\\\': out.append(92); i += 2
        elif s[i:i+2] == '\\x': out.append(int(s[i+2:i+4], 16)); i += 4
        else: out += s[i].encode(); i += 1
    return bytes(out)
def load(name):
    secs = []
    for l in open(f'{V}/spec/{name}.txt'):
        l = l.rstrip('\n')
        if l.startswith('#@ '): secs.append((l[3:].strip(), [])); continue
        if not l or l.startswith('#!'): continue
        secs[-1][1].append(l)
    return secs
def load_exp(name):
    exp = {}
    p = f'{V}/spec/expected/{name}.txt'
    if os.path.exists(p):
        cur = None
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('>> '): cur = l[3:]; exp[cur] = []
            elif l.startswith('   '): exp[cur].append(l[3:])
    return exp
def reject():
    """spec/reject.txt -> harness/src/spec_reject.rs"""
    ls = [l.rstrip('\n') for l in open(f'{V}/spec/reject.txt')]
    ls = [l for l in ls if l and not l.startswith('#!')]
    with open(f'{V}/harness/src/spec_reject.rs', 'w') as f:
        f.write('//! generated by tools/gen_spec.py from spec/reject.txt\npub static REJECT: &[(&[u8], &str)] = &[\n')
        for l in ls: f.write('    (%s, "%s"),\n' % (rs(encode(l)), l.replace('\\', '\\\\').replace('"', '\\"')))
        f.write('];\n')
def main():
    if sys.argv[1] == 'reject': return reject()
    name = sys.argv[1]; update = '--update' in sys.argv; force = '--force' in sys.argv
    native = os.environ.get('LRH', '/tmp/lrh-target/release/lrh')
    secs = load(name); exp = load_exp(name)
    todo = [t for _, ts in secs for t in ts if t not in exp or force] if update else []
    if todo:
        r = subprocess.run([native, 'gen'], input='\n'.join(encode(t).hex() for t in todo) + '\n', text=True, capture_output=True)
        lines = r.stdout.split('\n')
        if len(lines) < len(todo): print(r.stderr)
        for t, l in zip(todo, lines):
            f = l.split(' ', 1)
            if f[0] != 'OK': print('!!', t, l.replace('\\n', '\n')); continue
            e = [show(bytes.fromhex(x)) for x in f[1].split(' ')]
            if ('⏎E ' in e[2]) != t.startswith('✗'): print('!! rejected:' if '⏎E ' in e[2] else '!! accepted:', t, e[2]); continue
            exp[t] = e
    seen = set()
    os.makedirs(f'{V}/spec/expected', exist_ok=True)
    with open(f'{V}/spec/expected/{name}.txt', 'w') as o:
        for s, ts in secs:
            o.write(f'=== {s}\n')
            for t in ts:
                if t in exp and t not in seen:
                    seen.add(t)
                    o.write(f'>> {t}\n' + ''.join(f'   {x}\n' for x in exp[t]))
    with open(f'{V}/harness/src/spec_{name}.rs', 'w') as o:
        o.write('// generated by tools/gen_spec.py from spec/ - do not edit\nuse crate::tmpl::Rec;\n')
        n = 0
        for s, ts in secs:
            o.write(f'pub static {s.upper()}: &[Rec] = &[\n')
            for t in dict.fromkeys(ts):
                if t in exp:
                    e = [unshow(x) for x in exp[t]]
                    n += 1
                    o.write('    Rec { t: %s, shape: %s, full: %s, diag: %s, toks: %s },\n' % tuple(rs(x) for x in [encode(t)] + e))
            o.write('];\n')
    print(name, n, 'records')
if __name__ == '__main__': main()
