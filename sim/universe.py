"""Standard library modules whose callables take part in simulated histories."""
import importlib
import types
import warnings

MODULES = '''abc argparse array ast asyncio asyncio.events asyncio.queues asyncio.streams
asyncio.subprocess asyncio.tasks base64 bdb binascii bisect builtins bz2 calendar cmath cmd code
codecs codeop collections collections.abc concurrent.futures configparser contextlib contextvars
copy copyreg csv ctypes ctypes.util datetime dbm.dumb decimal difflib dis email email.message
email.mime.text email.parser email.policy email.utils enum errno faulthandler fcntl filecmp fileinput
fnmatch fractions ftplib functools gc genericpath getopt getpass gettext glob gzip hashlib heapq
hmac html html.parser http.client http.cookies http.server imaplib importlib.machinery
importlib.util inspect io ipaddress itertools json json.decoder json.encoder keyword linecache
locale logging logging.config logging.handlers lzma mailbox marshal math mimetypes mmap
multiprocessing.connection multiprocessing.pool netrc ntpath numbers opcode operator optparse os
pathlib pdb pickle pickletools pkgutil platform plistlib poplib posixpath pprint profile pstats pty
pyclbr pydoc queue quopri random re readline resource runpy sched secrets select selectors shelve
shlex shutil signal site smtplib socket socketserver sqlite3 ssl stat statistics string stringprep
struct subprocess symtable sys sysconfig syslog tabnanny tarfile tempfile termios textwrap threading
time timeit token tokenize trace traceback tracemalloc types typing unicodedata unittest
unittest.mock urllib.error urllib.parse urllib.request urllib.response uuid venv wave weakref
webbrowser wsgiref.handlers wsgiref.simple_server wsgiref.util xml.dom.minidom xml.etree.ElementTree
xml.sax xmlrpc.client zipapp zipfile zipimport zlib zoneinfo'''.split()


def load(module_name, path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        value = importlib.import_module(module_name)
    for part in path.split('.'):
        value = getattr(value, part)
    return value


def callables(module):
    """Yields dotted paths of the callables defined in a module."""
    seen = set()

    def rec(namespace, prefix):
        for name, value in sorted(vars(namespace).items()):
            if not callable(value) or isinstance(value, types.ModuleType):
                continue
            path = prefix + name
            if isinstance(value, type):
                if value.__module__ != module.__name__ or value in seen:
                    continue
                seen.add(value)
                yield path, value
                yield from rec(value, path + '.')
            else:
                yield path, value

    yield from rec(module, '')
