import os
import sys

if os.environ.get('VT_REPO', '/repo') != '/repo':
    # development only: run against a copy of the repository instead of the installed one
    sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in type(f).__module__]
