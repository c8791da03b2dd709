import os, sys, tempfile, shutil, textwrap, atexit
sys.path.insert(0, os.environ.get('REPO', '/repo'))
sys.dont_write_bytecode = True
import logging
logging.getLogger('pyfileconf').setLevel(logging.CRITICAL)
import pyfileconf
from pyfileconf import PipelineManager, Selector, context, IterativeRunner, BatchUpdater
ROOT = tempfile.mkdtemp(prefix='pfcdemo_')
atexit.register(shutil.rmtree, ROOT, True)
sys.path.insert(0, ROOT)
def module(name, src):
    with open(os.path.join(ROOT, name + '.py'), 'w') as f: f.write(textwrap.dedent(src))
def project(name, pipeline, classes=None, files=None, load=True, **kw):
    folder = os.path.join(ROOT, name)
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, 'pipeline_dict.py'), 'w') as f: f.write(textwrap.dedent(pipeline))
    dicts = []
    for cname, (klass, src, extra) in (classes or {}).items():
        with open(os.path.join(folder, f'{cname}_dict.py'), 'w') as f: f.write(textwrap.dedent(src))
        dicts.append({'name': cname, 'class': klass, **extra})
    for rel, src in (files or {}).items():
        p = os.path.join(folder, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f: f.write(textwrap.dedent(src))
    pm = PipelineManager(folder, name=name, specific_class_config_dicts=dicts or None, **kw)
    if load: pm.load()
    return pm
