"""Processing and rendering documents with the code under test."""
import os


def config(renderer='HTML5', **opts):
    """opts: section__key=value with '-' written '_'"""
    from plasTeX import client
    cfg = client.defaultConfig()
    client.collect_renderer_config(cfg)
    cfg['general']['renderer'] = renderer
    cfg['images']['imager'] = 'none'
    cfg['images']['vector-imager'] = 'none'
    cfg['images']['enabled'] = False
    for k, v in opts.items():
        s, n = k.split('__')
        cfg[s][n.replace('_', '-')] = v
    return cfg


def run(path, outdir, cfg):
    """process and render the file; cwd is the directory of the file"""
    from plasTeX.Compile import run
    old = os.getcwd()
    os.chdir(os.path.dirname(path))
    try:
        cfg['files']['directory'] = outdir
        run(os.path.basename(path), cfg)
    finally:
        os.chdir(old)


def html_files(d):
    """{relative name: text} of the pages below d"""
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            if f.endswith(('.html', '.xhtml', '.htm')):
                p = os.path.join(base, f)
                out[os.path.relpath(p, d)] = open(p, encoding='utf-8').read()
    return out
