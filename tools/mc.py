import subprocess, sys, tempfile, time, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
for a in sys.argv[2:]:
  t = time.time()
  w = tempfile.mkdtemp()
  p = subprocess.run(check.tlc_cmd(w, a + '.cfg', sys.argv[1] + '.tla', 8, [], '6g'), capture_output=True, text=True, cwd=check.SPEC)
  shutil.rmtree(w)
  L = [x for x in p.stdout.splitlines() if not x.startswith(('Pars', 'Sem', 'Lint', 'Warn', '(Use'))]
  print(a, 'rc', p.returncode, check.counts(p.stdout), '%.1fs' % (time.time() - t))
  if p.returncode: print('\n'.join(L)[-3500:])
