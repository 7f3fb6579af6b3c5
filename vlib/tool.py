"""
Runs durus' command line tool on the prepared extension:
    tool.py EXT_PATH REPO [--listen] ARGS...
    tool.py EXT_PATH REPO --script PATH ARGS...
"""
import os
import signal
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    # Whatever the parent of these checks ignores (e.g. in the background).
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    ext_path, repo = sys.argv[1:3]
    args = sys.argv[3:]
    if args and args[0] == '--listen':
        del args[0]
        os.environ['LISTEN_PID'] = str(os.getpid())
        os.environ['LISTEN_FDS'] = '1'
    sys.path[:] = [HERE] + [p for p in sys.path if os.path.realpath(
        p or '.') != os.path.join(HERE, 'vlib')]
    sys.dont_write_bytecode = True
    from vlib import boot
    if args[:1] == ['--script']:
        # These may want to be there before durus.
        sys.path.insert(0, repo)
        sys.meta_path.insert(0, boot._Finder(ext_path or None))
        sys.argv = args[1:]
        import runpy
        runpy.run_path(sys.argv[0], run_name='__main__')
        return
    boot.boot(ext_path or None, repo)
    import logging
    logging.disable(logging.NOTSET)
    sys.argv = ['durus'] + args
    import durus.__main__
    durus.__main__.main()


if __name__ == '__main__':
    main()
