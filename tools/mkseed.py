#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes planted bugs into /verif/seeded from a spec that calls
bug(id, property, needs, breaks, [(file, old, new), ...], main_rs)."""
import sys, os, json, subprocess, shutil
SC = "/tmp/sc"
OUT = []
def bug(id, prop, needs, breaks, edits, main):
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    for f, old, new in edits:
        p = os.path.join(SC, f)
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        assert s.count(old) == 1, (id, "ambiguous", f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", SC, "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main.lstrip())
    shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    OUT.append(id)
subprocess.check_call("git -C /tmp/sc fetch -q /repo HEAD && git -C /tmp/sc reset -q --hard FETCH_HEAD", shell=True)
PRE = r'''
#![allow(unused, deprecated)]
use futures::prelude::*;
use futures::task::{Context, Poll, Waker};
use std::pin::{Pin, pin};
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, AtomicBool, Ordering::SeqCst}};
struct Cw(AtomicUsize);
impl std::task::Wake for Cw { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
fn counter() -> (Arc<Cw>, Waker) { let c = Arc::new(Cw(AtomicUsize::new(0))); (c.clone(), Waker::from(c)) }
'''
exec(open(sys.argv[1]).read())
print("\n".join(OUT))
