"""Offline setup: checks that the tools are there and that every TLA+ module parses."""
import glob, os, subprocess, sys, tempfile, shutil
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
work = tempfile.mkdtemp(prefix='verif_setup_')
try:
  for f in glob.glob(os.path.join(H, 'spec', '*.tla')):
    shutil.copy(f, work)
  mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(work, '*.tla')))
  bad = 0
  for m in mods:
    p = subprocess.run(['java', '-Djava.io.tmpdir=' + work, '-cp', JAR, 'tla2sany.SANY', m], cwd=work, capture_output=True, text=True)
    if p.returncode != 0 or 'Semantic errors' in p.stdout or '*** Errors' in p.stdout:
      print(m, p.stdout[-1500:], p.stderr[-500:]); bad += 1
  print('parsed', len(mods), 'modules,', bad, 'with errors')
finally:
  shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if bad else 0)
