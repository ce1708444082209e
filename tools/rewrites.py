"""Hand-written refactorings: every check must stay quiet on them.

usage: rewrites.py [--tests] [--file F] [--keep DIR]

tools/rewrites/<module>__<n>.py holds new definitions of functions of
feedx/<module>.py that behave as the old ones do (methods inside a class of the
same name), with helper functions of their own.  Each file is applied to a
scratch copy of /repo, the whole comparison is run on it, and everything that
is not `equal' is printed.  --tests also runs the repository's tests there.
"""
import ast
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)


def span(n):
  a = min([n.lineno] + [d.lineno for d in n.decorator_list])
  return a, n.end_lineno


def merge(old, new):
  """The source old with the definitions of new."""
  ot, nt = ast.parse(old), ast.parse(new)
  nl, ol = new.splitlines(), old.splitlines()
  edits = []

  def go(obody, nbody, top):
    o = {x.name: x for x in obody if hasattr(x, 'name')}
    pending = []
    for x in nbody:
      if isinstance(x, ast.ClassDef) and x.name in o and \
          isinstance(o[x.name], ast.ClassDef):
        go(o[x.name].body, x.body, False)
        continue
      if isinstance(x, ast.Expr):
        continue
      a = span(x)[0] if hasattr(x, 'name') else x.lineno
      text = nl[a - 1:x.end_lineno]
      if hasattr(x, 'name') and x.name in o:
        s, e = span(o[x.name])
        edits.append((s - 1, e, pending + text))
        pending = []
      else:
        pending += text + ['', '']
    if pending:
      last = obody[-1]
      edits.append((last.end_lineno, last.end_lineno,
                    ['', ''] + pending))
  imports = [x for x in nt.body if isinstance(x, (ast.Import, ast.ImportFrom))]
  rest = [x for x in nt.body if x not in imports]
  go(ot.body, rest, True)
  if imports:
    at = [x for x in ot.body if isinstance(x, (ast.Import, ast.ImportFrom))][0]
    edits.append((at.lineno - 1, at.lineno - 1,
                  [ast.unparse(x) for x in imports]))
  for s, e, text in sorted(edits, key=lambda t: -t[0]):
    ol[s:e] = text
  return '\n'.join(ol) + '\n'


def run(path, tests, keep):
  from sa import program as pr, units
  module = os.path.basename(path).split('__')[0]
  work = keep or tempfile.mkdtemp(prefix='rw_')
  try:
    if keep:
      shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo/.', work] if not keep else
                   ['cp', '-a', '/repo', work], check=True)
    f = os.path.join(work, 'feedx', module + '.py')
    src = merge(open(f).read(), open(path).read())
    open(f, 'w').write(src)
    compile(src, f, 'exec')
    impl, spec = pr.make_programs(work, os.path.join(os.path.dirname(HERE),
                                                     'spec'))
    ck = units.Checker(impl, spec)
    out = {}
    for n in sorted(spec.api_funcs):
      for r in ck.check(n, ['sig', 'raises', 'ret', 'effects', 'final',
                            'cached']):
        if r.aspect == 'recomputed':
          continue
        out[r.status] = out.get(r.status, 0) + 1
        if r.status != 'equal':
          print('%s %s %s %s' % (r.status.upper(), n, r.aspect,
                                 r.detail[:900]))
    print(os.path.basename(path), out, flush=True)
    if tests:
      env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                 PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
                 OMP_NUM_THREADS='1', NPY_DISABLE_CPU_FEATURES=(
                     'AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL '
                     'AVX512_ICL AVX512_SPR'))
      r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                          'no:cacheprovider', '-n', '8', '--timeout=300'],
                         cwd=work, capture_output=True, text=True, env=env)
      print('   tests:', (r.stdout.strip().splitlines() or [''])[-1])
      if r.returncode:
        print('\n'.join(l for l in r.stdout.splitlines()
                        if l.startswith(('FAILED', 'ERROR', 'E  ')))[:3000])
  finally:
    if not keep:
      shutil.rmtree(work)


def main():
  av = sys.argv[1:]
  f = av[av.index('--file') + 1] if '--file' in av else ''
  keep = av[av.index('--keep') + 1] if '--keep' in av else None
  for p in sorted(glob.glob(os.path.join(HERE, 'rewrites', '*.py'))):
    if f in p:
      run(p, '--tests' in av, keep)


if __name__ == '__main__':
  main()
