"""The command-line tool (C26): programs for NeoCli.tla and their execution, every
run in a process of its own with captured output."""
import copy
import json
import os
import subprocess
import sys
import tempfile

from canon import NONE, V, canon, vstr
from fam_key import addr_texts, check58, hash_texts, hashes, near
import vlib

TRACE = 'TraceCli'
TRACE_CFG = 'INIT Init\nNEXT Next\nPOSTCONDITION Consumed\n'
PROPS = ['C26']
NAMES = {'a2s': '--address-to-scripthash', 's2a': '--scripthash-to-address', 'wallet': '--create-wallet'}


def preload():
    import neocore.bin.cli


def mc_jobs(prop, tier):
    t = tier == 'thorough'
    return [dict(module='MCCli', workers=4, cfg='''CONSTANTS MaxOpts = %d
 Hashes = {%s}
INIT Init
NEXT Next
INVARIANTS Complete Fails Inverse Deterministic Emit
''' % (n, h)) for n, h in ([(2, '1, 2, 3'), (3, '1')] if t else [(2, '1, 3')])]


def opt(o, a=''):
    return {'o': o, 'a': [ord(c) for c in a]}


def run(opts, how='fork'):
    return {'op': 'Run', 'opts': opts, 'how': how}


def expand(prop, tier, progs, rng):
    rng.shuffle(progs)
    return [[{'op': 'Reset'}] + [run(o, 'sys') if not i and not k % 40 else run(o) for i, o in enumerate(progs[k:k + 6])] for k in range(0, len(progs), 6)]


def programs(prop, tier, rng):
    t = tier == 'thorough'
    out = []
    ok = lambda s: '\0' not in s and not any(0xd800 <= ord(c) < 0xe000 for c in s)
    for _ in range(400 if t else 50):
        p = [{'op': 'Reset'}]
        for s in filter(ok, addr_texts(rng, 6)):
            p.append(run([opt('a2s', s)]))
        out.append(p)
    for _ in range(400 if t else 40):
        p = [{'op': 'Reset'}]
        for s in filter(ok, hash_texts(rng, 6)):
            p.append(run([opt('s2a', s)]))
        out.append(p)
    for _ in range(300 if t else 40):
        p = [{'op': 'Reset'}]
        for _ in range(4):
            h = bytes(rng.choice((rng.randrange(256), 39, 34, 92, 10, 13, 9, 127, 126, 31, 32, 0)) for _ in range(20)) if rng.random() < 0.6 else hashes(rng)
            p.append(run([opt('a2s', check58(b'\x17' + h))]))
            p.append(run([opt('s2a', rng.choice((h.hex(), '0x' + h[::-1].hex())))]))
        out.append(p)
    for _ in range(60 if t else 12):
        out.append([{'op': 'Reset'}] + [run([opt('wallet')], 'sys' if rng.random() < 0.05 else 'fork') for _ in range(6)] + [{'op': 'Wallet'}] * 8 + [run([opt('wallet'), opt('wallet')])])
    for _ in range(200 if t else 30):
        p = [{'op': 'Reset'}]
        for _ in range(4):
            o = []
            for _ in range(rng.randrange(0, 4)):
                c = rng.random()
                h = hashes(rng)
                if c < 0.35:
                    o.append(opt('a2s', check58(b'\x17' + h) if rng.random() < 0.7 else near(rng, check58(b'\x17' + h))))
                elif c < 0.7:
                    o.append(opt('s2a', rng.choice((h.hex(), '0x' + h.hex(), h.hex()[:-1]))))
                elif c < 0.9:
                    o.append(opt('wallet'))
                else:
                    o.append(opt('bad'))
            if all(ok(''.join(map(chr, x['a']))) for x in o):
                p.append(run(o))
        out.append(p)
    out.append([{'op': 'Reset'}] + [{'op': 'help', 'argv': a} for a in (['-h'], ['--help'], ['--version'])])
    a = check58(b'\x17' + hashes(rng))
    out.append([{'op': 'Reset'}, run([opt('a2s', a)], 'sys'), run([opt('s2a', '0x' + '12' * 20)], 'sys'), run([opt('wallet')], 'sys'), run([opt('wallet')], 'sys'),
                run([opt('a2s', a[:-1])], 'sys'), run([], 'sys'), run([opt('bad')], 'sys')])
    return out


BAD = [['--no-such-option'], ['surplus'], ['--address-to-scripthash'], ['--scripthash-to-address']]


def argv_of(opts, n):
    out, tail = [], []
    for i, o in enumerate(opts):
        a = ''.join(map(chr, o['a']))
        if o['o'] == 'bad':
            tail += BAD[(n + i) % 4]           # at the end, where a missing argument stays missing
        elif o['o'] == 'wallet':
            out.append(NAMES['wallet'])
        elif a.startswith('-') or (n + i) % 3 == 0:
            out.append(NAMES[o['o']] + '=' + a)
        else:
            out += [NAMES[o['o']], a]
    if len(tail) > 2:
        tail = tail[:1]
    return out + tail


def invoke(argv, how):
    """(status, stdout, stderr, crashed)"""
    env = {k: v for k, v in os.environ.items()}
    if how == 'sys':
        r = subprocess.run([sys.executable, '-m', 'neocore.bin.cli'] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(env, PYTHONIOENCODING='utf-8'))
        err = r.stderr.decode('utf-8', 'replace')
        return r.returncode, r.stdout.decode('utf-8', 'replace'), err, 'Traceback' in err
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.dup2(fo.fileno(), 1)
            os.dup2(fe.fileno(), 2)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            sys.argv = ['np-utils'] + argv
            import traceback
            try:
                from neocore.bin import cli
                cli.main()
                code = 0
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 255
                else:
                    print(e.code, file=sys.stderr)
                    code = 1
            except BaseException:
                traceback.print_exc()
                code = 1
                sys.stderr.write('\nUNHANDLED')
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    fo.seek(0)
    fe.seek(0)
    o, e = fo.read().decode('utf-8', 'replace'), fe.read().decode('utf-8', 'replace')
    fo.close()
    fe.close()
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else 255), o, e, 'UNHANDLED' in e or not os.WIFEXITED(st)


def wallet(d):
    if isinstance(d, dict) and 'private_key' in d and 'address' in d:
        return V('wallet', (), [canon(d['private_key']), canon(d['address'])])
    return V('other')


def split(text):
    """lines up to the first wallet, and the wallets"""
    i = text.find('{')
    while i > 0 and text[i - 1] != '\n':
        i = text.find('{', i + 1)
    head, tail = (text, '') if i < 0 else (text[:i], text[i:])
    ws = []
    while tail.strip():
        try:
            d, k = json.JSONDecoder().raw_decode(tail.lstrip())
            ws.append(wallet(d))
            tail = tail.lstrip()[k:]
        except ValueError:
            ws.append(V('other'))
            break
    lines = head.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    return lines, ws


def execute(program):
    events = []
    for n, p in enumerate(program):
        op = p['op']
        if op == 'Reset':
            events.append({'op': op, 'r': NONE})
            continue
        if op == 'Wallet':
            from neocore.bin import cli
            r, e = vlib.call(cli.create_wallet)
            events.append({'op': op, 'r': V('timeout') if e == 'TIMEOUT' else V('err') if e else wallet(r), 'w': 4000})
            continue
        argv = p['argv'] if op == 'help' else argv_of(p['opts'], n)
        r, e = vlib.call(lambda: invoke(argv, p.get('how', 'fork')), 60.0)
        ev = {'op': op, 'opts': p.get('opts', []), 'r': NONE, 'w': 5000}
        if e:
            ev.update(r=V('timeout'), status=255, out=[], wallets=[], err=True, crash=True)
        else:
            st, o, er, crash = r
            lines, ws = split(o)
            ev.update(status=st, out=[vstr(x) for x in lines], wallets=ws, err=er != '', crash=crash)
        events.append(ev)
    return events


def corrupt(events, rng):
    idx = [i for i in range(1, len(events)) if events[i]['op'] == 'Run']
    if not idx:
        return None
    i = rng.choice(idx)
    ev = copy.deepcopy(events[i])
    if any(o['o'] == 'a2s' and o['a'] and chr(o['a'][-1]).isspace() for o in ev['opts']):
        return None
    c = rng.random()
    if c < 0.25:
        ev['status'] = 0 if ev['status'] else 1
    elif c < 0.35:
        ev['crash'] = True
    elif ev['wallets'] and c < 0.7:
        w = ev['wallets'][0]['c'][rng.randrange(2)]
        w['v'][rng.randrange(3, 30)] = 50 if w['v'][5] != 50 else 51
        if w == events[i]['wallets'][0]['c'][0] or w == events[i]['wallets'][0]['c'][1]:
            return None
    elif ev['status'] == 0 and ev['out']:
        x = rng.choice(ev['out'])['v']
        k = rng.random()
        if k < 0.4:
            x[-1] ^= 1
        elif k < 0.7:
            ev['out'].pop(rng.randrange(len(ev['out'])))
        else:
            ev['out'].append(vstr('x'))
    elif ev['status']:
        ev['out'].append(vstr('Scripthash big endian:  0x' + '12' * 20))
    else:
        return None
    return events[:i] + [ev]
