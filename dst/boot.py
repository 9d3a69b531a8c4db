"""Process set-up: seams first, then durus from the repository under test."""
import gc
import io
import logging
import os
import subprocess
import sys

REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def build_ext(outdir):
    """Compile _persistent.c of the current tree into outdir; returns the .so path."""
    import sysconfig
    so = os.path.join(outdir, "_persistent.so")
    inc = sysconfig.get_paths()["include"]
    cmd = ["gcc", "-O1", "-g0", "-fPIC", "-shared", "-w", "-I" + inc,
           os.path.join(REPO, "durus", "_persistent.c"), "-o", so]
    subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return so


class _Null(logging.Handler):
    def createLock(self):
        self.lock = None        # (simulated processes switch while a message is made)

    def emit(self, record):
        record.getMessage()


def boot(mode="c", so=None):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    import simfs
    import simnet
    simfs.install()
    simnet.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if mode == "py":
        sys.modules["durus._persistent"] = None
    else:
        from importlib.machinery import ExtensionFileLoader, ModuleSpec
        from importlib.util import module_from_spec
        import durus
        loader = ExtensionFileLoader("durus._persistent", so)
        spec = ModuleSpec("durus._persistent", loader, origin=so)
        m = module_from_spec(spec)
        sys.modules["durus._persistent"] = m
        loader.exec_module(m)
        durus._persistent = m
    log = logging.getLogger("durus")
    log.addHandler(_Null())
    log.propagate = False
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        import durus.persistent
        import durus.connection
        import durus.file_storage
        import durus.file_storage2
        import durus.storage_server
        import durus.client_storage
        import durus.persistent_dict
        import durus.persistent_list
        import durus.persistent_set
        import durus.btree
        import durus.__main__
    finally:
        sys.stderr = err
    assert os.path.abspath(durus.__file__).startswith(os.path.abspath(REPO)), durus.__file__
    import simsql
    if simsql.register():
        import durus.sqlite_storage
    import connobjs
    sys.unraisablehook = lambda arg: None
    gc.disable()
    gc.freeze()
