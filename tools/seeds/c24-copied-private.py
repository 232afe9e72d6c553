PROP = "C24"
NEEDS = "the state directory and the RRDP directory on different file systems"
BREAKS = "files that have to be copied are published with the owner-only mode of the temporary file"
EDITS = [("src/file_ops.rs", """        std::fs::copy(&original_file, &tmp_file).with_context(|| {
            format!(
                "Cannot copy file from {} to {}",
                original_file.to_string_lossy(),
                tmp_file.to_string_lossy()
            )
        })?;
""", """        copy_private(&original_file, &tmp_file).with_context(|| {
            format!(
                "Cannot copy file from {} to {}",
                original_file.to_string_lossy(),
                tmp_file.to_string_lossy()
            )
        })?;
"""), ("src/file_ops.rs", """pub fn remove_file_and_empty_parent_dirs(""", """/// Copy to a file that nobody else can open while it is incomplete.
fn copy_private(from: &Path, to: &Path) -> std::io::Result<u64> {
    use std::os::unix::fs::OpenOptionsExt;
    let _ = std::fs::remove_file(to);
    let mut source = File::open(from)?;
    let mut target = std::fs::OpenOptions::new()
        .write(true)
        .create_new(true)
        .mode(0o600)
        .open(to)?;
    std::io::copy(&mut source, &mut target)
}

pub fn remove_file_and_empty_parent_dirs(""")]
FILES = ["exdev.c"]
DEMO = """
from ksd import *
os.umask(0o022)
for far in (False, True):
    b = Box()
    b.publish(A, 1)
    env = dict(LD_PRELOAD=b.shim("exdev"), FAR=b.rrdp) if far else {}
    check(b.run(env=env) == 0, "run: " + str(far))
    b.publish(A, 2, [2])
    check(b.run(env=env) == 0, "second run")
    for top in (b.rrdp, b.rsync):
        for d, ds, fs in os.walk(top):
            for f in fs:
                m = os.stat(os.path.join(d, f)).st_mode & 0o777
                check(m & 0o444 == 0o444, "%s has mode %o" % (os.path.join(d, f), m))
ok()
"""
