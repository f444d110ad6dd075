#!/usr/bin/env python3
"""Prove the dependency contracts of this crate with Kani and write RECORD.json.

About 25 minutes on 8 cores, so the checks do not run it: they read RECORD.json
and use it only while the crates in /repo's Cargo.lock are the ones recorded
and the harnesses are the recorded text.  usage: run.py [-j N]
"""
import hashlib, json, os, re, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__))


def text():
    h = hashlib.sha256()
    for f in ['Cargo.toml'] + sorted('src/' + x for x in os.listdir(D + '/src')):
        h.update(open(os.path.join(D, f), 'rb').read())
    return h.hexdigest()


def crates(lock, names=('bitpacking', 'crunchy', 'itertools')):
    r = {}
    for b in open(lock).read().split('[[package]]')[1:]:
        m = dict(re.findall(r'^(name|version|checksum) = "(.*)"$', b, re.M))
        if m.get('name') in names:
            r.setdefault(m['name'], []).append(m.get('version', '') + ' ' + m.get('checksum', ''))
    return {k: sorted(v) for k, v in sorted(r.items())}


def main():
    j = sys.argv[2] if sys.argv[1:2] == ['-j'] else '8'
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    p = subprocess.Popen(['cargo', 'kani', '-Z', 'stubbing', '-j', j, '--output-format', 'terse'], cwd=D, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cur, thread, out = {}, '0', {}
    for l in p.stdout:
        sys.stdout.write(l)
        sys.stdout.flush()
        if m := re.match(r'Thread (\d+):', l):
            thread = m[1]
        if m := re.search(r'Checking harness (\S+?)\.\.\.', l):
            cur[thread] = m[1]
        if m := re.match(r'VERIFICATION:- (\w+)', l):
            out[cur[thread]] = {'result': m[1]}
        if m := re.match(r'Verification Time: ([\d.]+)', l):
            out[cur[thread]]['seconds'] = round(float(m[1]))
    p.wait()
    v = subprocess.run(['cargo', 'kani', '--version'], capture_output=True, text=True).stdout.strip()
    json.dump({'tool': v, 'text': text(), 'crates': crates(D + '/Cargo.lock'), 'harnesses': dict(sorted(out.items()))},
              open(D + '/RECORD.json', 'w'), indent=1)
    bad = [k for k, x in out.items() if x['result'] != 'SUCCESSFUL']
    print(len(out), 'harnesses', 'failed:', bad)
    sys.exit(1 if bad or p.returncode else 0)


if __name__ == '__main__':
    main()
