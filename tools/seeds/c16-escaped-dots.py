PROP = "C16"
NEEDS = "an object whose rsync URI has percent-encoded dot segments"
BREAKS = "percent-encoded characters of an object's path are decoded after the URI was checked, so %2e%2e leads out of the revision directory"
EDITS = [("src/rsync.rs", """            self.out_path.join(uri.path())
        };""", """            self.out_path.join(unescape(uri.path()))
        };"""),
         ("src/rsync.rs", """// Try to fix the modification time for a repository object.
// This is needed""", """/// File names are stored without percent-encoding.
fn unescape(path: &str) -> String {
    let mut res: Vec<u8> = vec![];
    let mut rest = path.as_bytes();
    while let Some((first, tail)) = rest.split_first() {
        let code = tail
            .get(..2)
            .filter(|_| *first == b'%')
            .and_then(|hex| std::str::from_utf8(hex).ok())
            .and_then(|hex| u8::from_str_radix(hex, 16).ok());
        res.push(code.unwrap_or(*first));
        rest = if code.is_some() { &tail[2..] } else { tail };
    }
    String::from_utf8_lossy(&res).into_owned()
}

// Try to fix the modification time for a repository object.
// This is needed""")]
DEMO = """
from ksd import *
for up in ("%2e%2e/%2e%2e/", "%2E%2E/%2e./", "a/.%2e/%2e./"):
    b = Box()
    b.publish(A, 1, objs={"rsync://rsync.example/repo/%sescaped.txt" % up: b"x", "rsync://rsync.example/repo/ok.txt": b"y"})
    b.run()
    for d in (b.work, b.rsync, b.top):
        check(not os.path.lexists(d + "/escaped.txt"), "written out of the revision directory: " + d)
    check(not os.path.lexists(b.work + "/escaped.txt"), "out")
ok()
"""
