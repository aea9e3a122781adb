#!/usr/bin/env python3
"""Builds the Java evaluators and checks them: Big.java against the plain TLA+
definitions of Big.tla, Prims.java against published vectors."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import vlib


def tlc(module, classes, tmp):
    d = tempfile.mkdtemp(dir=tmp)
    cp = vlib.TLA + (':' + vlib.CLS if classes else '')
    r = subprocess.run(['java', '-Xss512m', '-Xmx4g', '-cp', cp, 'tlc2.TLC', '-workers', '1', '-metadir', d, '-noGenerateSpecTE', '-deadlock',
                        '-config', os.path.join(vlib.SPEC, module + '.cfg'), os.path.join(vlib.SPEC, module + '.tla')],
                       capture_output=True, text=True, cwd=d, timeout=900)
    if r.returncode:
        raise SystemExit('%s failed:\n%s' % (module, (r.stdout + r.stderr)[-3000:]))
    return [l for l in r.stdout.splitlines() if l[:1] in ('<', ' ')]


def main():
    vlib.ensure_classes()
    import fam_random
    fam_random.ensure_shim()
    tmp = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        fast, plain = tlc('BigSelfTest', True, tmp), tlc('BigSelfTest', False, tmp)
        if not fast or fast != plain:
            raise SystemExit('Big.java differs from Big.tla')
        tlc('PrimsSelfTest', True, tmp)
        tlc('ECSelfTest', True, tmp)
        print('setup: Big.java agrees with Big.tla on %d lines; Prims.java matches the published vectors; EC.java agrees with EC.tla' % len(fast))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
