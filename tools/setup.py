"""Nothing to build: tells whether the checks can run here."""
import os
import subprocess
import sys

repo = os.environ.get('GCS_REPO', '/repo')
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
sys.exit(subprocess.call([py, '-B', '-c', 'import sys; sys.path.insert(0, %r); import gcs.storage' % repo]))
