"""Work around two defects of this interpreter's zipfile module (CPython 3.12.3).

Relative seeks of a member use the position of whichever member was read last (gh-117779 and friends), and forward
seeks do not update the number of bytes left.  Both are fixed in later releases; neither is part of the code under
test, but files with two open members cannot be read reliably without the fixes.
"""
import inspect
import os
import textwrap
import zipfile

_orig_seek = zipfile._SharedFile.seek


def _seek(self, offset, whence=0):
    if whence == os.SEEK_CUR:
        offset, whence = self._pos + offset, os.SEEK_SET
    return _orig_seek(self, offset, whence)


def apply() -> None:
    if zipfile._SharedFile.seek is _seek:
        return
    zipfile._SharedFile.seek = _seek
    src = textwrap.dedent(inspect.getsource(zipfile.ZipExtFile.seek))
    if "_compress_left -= read_offset" not in src:
        src = src.replace("self._left -= read_offset\n",
                          "self._left -= read_offset; self._compress_left -= read_offset; "
                          "self._eof = self._left <= 0\n")
        ns: dict = {}
        exec(compile(src, zipfile.__file__, "exec"), vars(zipfile), ns)
        zipfile.ZipExtFile.seek = ns["seek"]


apply()
