"""setup_cmd: everything needed to check is importable."""
import glob
import os

from mc.core import ROOT, get_module, load_scheme

def main():
    scheme = load_scheme()
    count = 0
    for path in sorted(glob.glob(os.path.join(ROOT, 'mc', 'props', 'c*.py'))):
        module = get_module(os.path.basename(path)[:-3])
        assert callable(module.cases) and callable(module.run), path
        next(iter(module.cases('quick')))
        count += 1
    print('ok: scheme %s from %s, %d check modules' % (scheme.__version__, scheme.__file__, count))
    return 0
