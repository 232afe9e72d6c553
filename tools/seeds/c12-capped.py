PROP = "C12"
NEEDS = "an object of more than 2 MiB"
BREAKS = "objects are cut at 2 MiB in the rsync tree"
EDITS = [("src/rsync.rs", """        data.read_to_end(&mut bytes)?;
""", """        data.take(2 * 1024 * 1024).read_to_end(&mut bytes)?;
""")]
DEMO = """
from ksd import *
for size in (1000, 1 << 20, (2 << 20) - 1, 2 << 20, 3 << 20):
    b = Box()
    big = bytes(range(256)) * (size // 256) + b"x" * (size % 256)
    b.publish(A, 1, objs={"rsync://rsync.example/repo/big.bin": big})
    check(b.run() == 0, "run: ")
    check(b.current() == {"big.bin": big}, "an object of %d bytes differs" % size)
ok()
"""
