import sys
sys.path.insert(0, '/verif/tools')
from seeds_b1 import PRE
FL='ngoschema/protocols/file_loader.py'
FI='ngoschema/models/files.py'
TMP='''
import os, tempfile
d = tempfile.mkdtemp()
def put(n, b):
    with open(os.path.join(d, n), "wb") as f:
        f.write(b)
    return os.path.join(d, n)
def held(n):
    with open(os.path.join(d, n), "rb") as f:
        return f.read()
from ngoschema.protocols.file_loader import FileSaver, FileLoader
from ngoschema.models.files import File, FileInfo, Document
'''
SEEDS = [
 dict(id='s58-same-beginning', property='C29', edits=[(FL, "            if value == content:\n", "            if value == content[:len(value)]:\n")],
   needs='a file written over with a beginning of its content', breaks='it keeps its former content',
   demo=PRE+TMP+'''
s = FileSaver(); p = put("f", b"abc")
s.write_file("ab", p)
check(held("f") == b"ab", held("f"))
'''),
 dict(id='s59-newlines', property='C29', edits=[(FL, "        return codecs.open(fp, mode, charset)\n", "        return open(fp, mode, encoding=charset)\n")],
   needs='a text with carriage returns', breaks='they are lost when it is read',
   demo=PRE+TMP+'''
check(FileSaver().read_file(put("f", b"a\\r\\nb")) == "a\\r\\nb", "read")
'''),
 dict(id='s60-digest-of-a-block', property='C29', edits=[(FI, "                while len(block) != 0:\n                    sha.update(block)\n                    block = source.read(2 ** 16)\n        elif", "                while len(block) == 2 ** 16:\n                    sha.update(block)\n                    block = source.read(2 ** 16)\n                if len(block) > 1:\n                    sha.update(block)\n        elif")],
   needs='a file with one byte after a multiple of the block size', breaks='the last byte is not digested',
   demo=PRE+TMP+'''
import hashlib
b = b"x" * (2 ** 16 + 1)
check(FileInfo(file=File(filepath=put("f", b), binary=True)).sha1 == hashlib.sha1(b).hexdigest(), "sha1")
'''),
 dict(id='s61-identifier', property='C29', edits=[(FI, "    @depend_on_prop('filepath', 'uri')\n    def get_identifier(self):\n        self._identifier = self.filepath or self.uri\n", "    @depend_on_prop('filepath', 'uri')\n    def get_identifier(self):\n        self._identifier = self._identifier or self.filepath or self.uri\n")],
   needs='the path of a document set again after its identifier was read', breaks='the identifier stays the former path',
   demo=PRE+TMP+'''
p, q = put("f", b"a"), put("g", b"b")
o = Document(filepath=p)
check(o.identifier == p, o.identifier)
o.filepath = q
check(o.identifier == q, o.identifier)
'''),
 dict(id='s62-units', property='C29', edits=[(FI, "            if num < 1024.0:\n", "            if num <= 1024.0:\n")],
   needs='a file of exactly 1024 bytes', breaks='its size is shown in bytes',
   demo=PRE+TMP+'''
check(FileInfo(file=File(filepath=put("f", b"x" * 1024))).contentSizeHuman == "1.0 KB", "size")
'''),
 dict(id='s63-appended-over', property='C29', edits=[(FL, "        mode = 'ab' if binary else 'a'\n", "        mode = 'ab' if self._binary else 'a'\n"), (FL, "        if binary:\n            return open(fp, mode=mode)\n", "        if binary:\n            return open(fp, mode=mode.replace('b', '') + 'b' if mode != 'a' else 'wb')\n")],
   needs='bytes appended by a text saver asked to, in this call only', breaks='they replace the content',
   demo=PRE+TMP+'''
p = put("f", b"abc")
FileSaver().append_file(b"d", p, binary=True)
check(held("f") == b"abcd", held("f"))
'''),
 dict(id='s64-loaded-path-kept', property='C29', edits=[(FI, "    def get_contentRaw(self):\n        fp = self.filepath\n        if fp and fp.exists():\n", "    def get_contentRaw(self):\n        fp = self._filepath\n        if fp and fp.exists():\n")],
   needs='another file read through a file object before its content', breaks='the content is that of the file read',
   demo=PRE+TMP+'''
p, q = put("f", b"a"), put("g", b"b")
o = File(filepath=p)
o.filepath = p
o.read_file(q)
check(o.contentRaw == "a", o.contentRaw)
'''),
]
