import os, tempfile, time
import returnn.util.file_cache as fc
d = tempfile.mkdtemp()
src = d + "/src.bin"
open(src, "w").write("old content")
os.utime(src, (time.time() - 100,) * 2)
orig = fc._copy_with_prealloc
def copy(a, b):
    orig(a, b)
    open(src, "w").write("new content")  # changed by someone else, right after we read it
fc._copy_with_prealloc = copy
kw = dict(cache_directory=d + "/cache", cleanup_disk_usage_wanted_free_ratio=0.0)
c = fc.FileCache(**kw)
f = c.get_file(src)
c.release_files([f])
fc._copy_with_prealloc = orig
f = c.get_file(src)
assert open(f).read() == "new content", open(f).read()
